use crate::core::*;
use crate::p_hct::coherent;
use material_color_utilities_rs::{
    hct::{cam16::Cam16, hct::Hct},
    palettes::{core_palette::CorePalette, tonal_palette::TonalPalette as TP},
    scheme::scheme::Scheme,
};
pub const TONES: [i64; 13] = [0, 10, 20, 30, 40, 50, 60, 70, 80, 90, 95, 99, 100];

fn same_hct(a: &Hct, b: &Hct) -> bool {
    a.to_int() == b.to_int() && (a.get_hue() - b.get_hue()).abs() <= 1e-9 && (a.get_chroma() - b.get_chroma()).abs() <= 1e-9 && (a.get_tone() - b.get_tone()).abs() <= 1e-9
}
// ---- C10: operations 0 get(int) 1 get_hct(int) 2 get_hct(fractional) 3 get_as_list 4 clone-and-continue 5 to_string 6 eq
fn history(fresh: impl Fn() -> TP, ops: &[i64], vals: &[f64]) -> R {
    let mut p = fresh();
    for (op, v) in ops.iter().zip(vals) {
        let t = v.floor() as i64;
        match op {
            0 => {
                let (a, b) = (p.get(t), fresh().get(t));
                ck(a == b, || format!("get({}) = {:#x} after history, {:#x} fresh", t, a, b))?
            }
            1 => {
                let (a, b) = (p.get_hct(t as f64), fresh().get_hct(t as f64));
                ck(same_hct(&a, &b), || format!("get_hct({}) = {:#x} after history, {:#x} fresh", t, a.to_int(), b.to_int()))?;
                ck(a.to_int() == fresh().get(t), || format!("get_hct({}) = {:#x}, get = {:#x}", t, a.to_int(), fresh().get(t)))?
            }
            2 => {
                let (a, b) = (p.get_hct(*v), fresh().get_hct(*v));
                ck(same_hct(&a, &b), || format!("get_hct({:?}) = {:#x} after history, {:#x} fresh", v, a.to_int(), b.to_int()))?
            }
            3 => {
                let (a, b) = (p.get_as_list(), fresh().get_as_list());
                ck(a == b, || format!("list after history {:x?}, fresh {:x?}", a, b))?
            }
            4 => p = p.clone(),
            5 => {
                let (a, b) = (p.to_string(), fresh().to_string());
                ck(a == b, || format!("to_string {} / {}", a, b))?
            }
            _ => ck(p == fresh() && fresh() == p, || "not equal to a fresh palette".to_string())?,
        }
    }
    let f = fresh();
    ck(p.hue == f.hue && p.chroma == f.chroma && p.key_color == f.key_color, || "hue, chroma or key colour changed".into())
}
fn hist_of(a: &[V]) -> R {
    let (h, c) = (a[0].f(), a[1].f());
    let f = TP::of(h, c);
    // a fresh palette must answer fractional and integral tones from hue and chroma
    for (op, v) in a[2].il().iter().zip(a[3].fl()) {
        if *op <= 2 {
            let t = if *op == 2 { *v } else { v.floor() };
            let e = Hct::from(h, c, t);
            ck(f.get_hct(t).to_int() == e.to_int(), || format!("fresh get_hct({:?}) = {:#x}, solver {:#x}", t, f.get_hct(t).to_int(), e.to_int()))?;
        }
    }
    history(|| f.clone(), a[2].il(), a[3].fl())
}
fn hist_list(a: &[V]) -> R {
    let l = a[0].il();
    let f = TP::from_list(l);
    history(|| f.clone(), a[1].il(), a[2].fl())
}
fn ops(g: &mut G) -> (Vec<i64>, Vec<f64>) {
    let n = g.r.range(1, 10);
    let base = g.r.range(0, 100) as f64;
    let mut o = vec![];
    let mut v = vec![];
    for _ in 0..n {
        o.push(*g.r.pick(&[0, 0, 1, 2, 2, 3, 4, 5, 6]));
        // tones cluster so that earlier lookups can influence later ones
        v.push(match g.r.below(5) {
            0 => g.tone(),
            1 => *g.r.pick(&TONES) as f64 + g.r.u() * 0.999,
            2 => g.fin(-5.0, 110.0),
            _ => base + g.r.u() * 1.2 - 0.1,
        });
    }
    (o, v)
}
// ---- C11
fn list_of(a: &[V]) -> R {
    let (h, c) = (a[0].f(), a[1].f());
    let mut p = TP::of(h, c);
    ck(p.hue == h && p.chroma == c, || "hue, chroma".into())?;
    let l = p.get_as_list();
    ck(l.len() == 13, || format!("{} colours", l.len()))?;
    for (i, t) in TONES.iter().enumerate() {
        let e = Hct::from(h, c, *t as f64).to_int();
        ck(l[i] == e && p.get(*t) == e, || format!("tone {}: list {:#x}, get {:#x}, solver {:#x}", t, l[i], p.get(*t), e))?;
    }
    let mut q = TP::from_list(&l);
    ck(q.get_as_list() == l, || "list of from_list".into())?;
    // key colour: chroma as close as possible to the requested one
    let kc = TP::create_key_color(h, c);
    ck(kc == p.key_color, || "key colour".into())?;
    let d0 = (kc.get_chroma() - c).abs();
    if kc.get_chroma().round() != c.round() {
        for t in 1..100 {
            let d = (Hct::from(h, c, t as f64).get_chroma() - c).abs();
            ck(d >= d0 - 1e-9, || format!("key colour chroma {:?}, tone {} is closer", kc.get_chroma(), t))?;
        }
    }
    coherent(&p.key_color)
}
fn from_list(a: &[V]) -> R {
    let l = a[0].il();
    let mut p = TP::from_list(l);
    ck(p.get_as_list() == *l, || format!("get_as_list = {:x?}", p.get_as_list()))?;
    for (i, t) in TONES.iter().enumerate() {
        ck(p.get(*t) == l[i] && p.get_hct(*t as f64).to_int() == l[i], || format!("tone {}: {:#x}", t, p.get(*t)))?;
    }
    let (mut bh, mut bc) = (0.0, 0.0);
    for x in l {
        let h = Hct::from_int(*x);
        if h.get_tone() <= 98.0 && h.get_chroma() > bc {
            bc = h.get_chroma();
            bh = h.get_hue();
        }
    }
    ck((p.hue - bh).abs() <= 1e-9 && (p.chroma - bc).abs() <= 1e-9, || format!("hue {:?} chroma {:?}, best entry {:?} {:?}", p.hue, p.chroma, bh, bc))?;
    // other tones come from hue and chroma
    let e = Hct::from(p.hue, p.chroma, 45.0).to_int();
    ck(p.get(45) == e, || "tone 45".into())
}
fn core_list(a: &[V]) -> R {
    let l = a[0].il();
    let mut c = CorePalette::from_list(l);
    let o = c.as_list();
    ck(o == *l, || format!("as_list differs at {:?}", (0..o.len().min(l.len())).find(|i| o[*i] != l[*i])))?;
    for (i, p) in [&mut c.primary, &mut c.secondary, &mut c.tertiary, &mut c.neutral, &mut c.neutral_variant].into_iter().enumerate() {
        ck(p.get_as_list() == l[i * 13..(i + 1) * 13], || format!("partition {}", i))?;
    }
    ck(c.error.hue == 25.0 && c.error.chroma == 84.0, || "error palette".into())
}
fn bad_len(a: &[V]) -> R {
    let n = a[0].i();
    let l = vec![0xff112233i64; n as usize];
    let r = std::panic::catch_unwind(|| TP::from_list(&l));
    ck(r.is_err() == (n != 13), || format!("tonal palette from {} colours", n))?;
    let r = std::panic::catch_unwind(|| CorePalette::from_list(&l));
    ck(r.is_err() == (n != 65), || format!("core palette from {} colours", n))
}
// ---- C16
#[allow(deprecated)]
fn roles(s: &Scheme) -> Vec<(&'static str, i64)> {
    vec![("primary", s.primary), ("on_primary", s.on_primary), ("primary_container", s.primary_container), ("on_primary_container", s.on_primary_container), ("secondary", s.secondary), ("on_secondary", s.on_secondary), ("secondary_container", s.secondary_container), ("on_secondary_container", s.on_secondary_container), ("tertiary", s.tertiary), ("on_tertiary", s.on_tertiary), ("tertiary_container", s.tertiary_container), ("on_tertiary_container", s.on_tertiary_container), ("error", s.error), ("on_error", s.on_error), ("error_container", s.error_container), ("on_error_container", s.on_error_container), ("background", s.background), ("on_background", s.on_background), ("surface", s.surface), ("on_surface", s.on_surface), ("surface_variant", s.surface_variant), ("on_surface_variant", s.on_surface_variant), ("outline", s.outline), ("outline_variant", s.outline_variant), ("shadow", s.shadow), ("scrim", s.scrim), ("inverse_surface", s.inverse_surface), ("inverse_on_surface", s.inverse_on_surface), ("inverse_primary", s.inverse_primary)]
}
/// palette index (0 primary 1 secondary 2 tertiary 3 neutral 4 neutral variant 5 error) and tone, light then dark
pub const LEGACY: [(&str, usize, i64, i64); 29] = [
    ("primary", 0, 40, 80), ("on_primary", 0, 100, 20), ("primary_container", 0, 90, 30), ("on_primary_container", 0, 10, 90),
    ("secondary", 1, 40, 80), ("on_secondary", 1, 100, 20), ("secondary_container", 1, 90, 30), ("on_secondary_container", 1, 10, 90),
    ("tertiary", 2, 40, 80), ("on_tertiary", 2, 100, 20), ("tertiary_container", 2, 90, 30), ("on_tertiary_container", 2, 10, 90),
    ("error", 5, 40, 80), ("on_error", 5, 100, 20), ("error_container", 5, 90, 30), ("on_error_container", 5, 10, 80),
    ("background", 3, 99, 10), ("on_background", 3, 10, 90), ("surface", 3, 99, 10), ("on_surface", 3, 10, 90),
    ("surface_variant", 4, 90, 30), ("on_surface_variant", 4, 30, 80), ("outline", 4, 50, 60), ("outline_variant", 4, 80, 30),
    ("shadow", 3, 0, 0), ("scrim", 3, 0, 0), ("inverse_surface", 3, 20, 90), ("inverse_on_surface", 3, 95, 20), ("inverse_primary", 0, 80, 40),
];
#[allow(deprecated)]
fn cmp_scheme(s: &Scheme, c: &CorePalette, dark: bool) -> R {
    let ps = [&c.primary, &c.secondary, &c.tertiary, &c.neutral, &c.neutral_variant, &c.error];
    for ((n, x), (m, p, l, d)) in roles(s).iter().zip(LEGACY.iter()) {
        assert!(n == m);
        let t = if dark { *d } else { *l };
        let e = ps[*p].clone().get(t);
        ck(*x == e, || format!("{} {} = {:#x}, palette {} tone {} is {:#x}", if dark { "dark" } else { "light" }, n, x, p, t, e))?;
    }
    Ok(())
}
fn eqp(n: &str, p: &TP, h: f64, c: f64) -> R {
    ck((p.hue - h).abs() <= 1e-9 && (p.chroma - c).abs() <= 1e-9, || format!("{} palette ({:?},{:?}), expected ({:?},{:?})", n, p.hue, p.chroma, h, c))
}
fn core_of(a: &[V]) -> R {
    let x = a[0].i();
    let cam = Cam16::from_int(x);
    let (h, c) = (cam.hue, cam.chroma);
    let p = CorePalette::of(x);
    for (n, q, hh, cc) in [("primary", &p.primary, h, c.max(48.0)), ("secondary", &p.secondary, h, 16.0), ("tertiary", &p.tertiary, h + 60.0, 24.0), ("neutral", &p.neutral, h, 4.0), ("neutral_variant", &p.neutral_variant, h, 8.0), ("error", &p.error, 25.0, 84.0)] {
        eqp(n, q, hh, cc)?;
    }
    let p = CorePalette::content_of(x);
    for (n, q, hh, cc) in [("primary", &p.primary, h, c), ("secondary", &p.secondary, h, c / 3.0), ("tertiary", &p.tertiary, h + 60.0, c / 2.0), ("neutral", &p.neutral, h, (c / 12.0).min(4.0)), ("neutral_variant", &p.neutral_variant, h, (c / 6.0).min(8.0)), ("error", &p.error, 25.0, 84.0)] {
        eqp(n, q, hh, cc)?;
    }
    Ok(())
}
#[allow(deprecated)]
fn legacy(a: &[V]) -> R {
    let x = a[0].i();
    let c = CorePalette::of(x);
    cmp_scheme(&Scheme::light(x), &c, false)?;
    cmp_scheme(&Scheme::dark(x), &c, true)?;
    let c = CorePalette::content_of(x);
    cmp_scheme(&Scheme::light_content(x), &c, false)?;
    cmp_scheme(&Scheme::dark_content(x), &c, true)
}
/// six palettes made from lists of arbitrary distinct colours: every (palette, tone) is distinguishable
#[allow(deprecated)]
fn legacy_marked(a: &[V]) -> R {
    let salt = a[0].i();
    let mut all: Vec<i64> = vec![];
    for i in 0..65 {
        all.push(0xff000000 + (i * 7919 + salt * 104729) % 0x1000000);
    }
    let mk = || CorePalette::from_list(&all);
    cmp_scheme(&Scheme::light_from_core_palette(mk()), &mk(), false)?;
    cmp_scheme(&Scheme::dark_from_core_palette(mk()), &mk(), true)
}
fn clist(g: &mut G, n: usize) -> Vec<i64> {
    match g.r.below(4) {
        0 => {
            let (h, c) = (g.hue(), g.chroma());
            let mut v: Vec<i64> = vec![];
            while v.len() < n {
                v.extend(TP::of(h, c).get_as_list());
            }
            v.truncate(n);
            v
        }
        1 => {
            let x = g.argb();
            let mut v = vec![x; n];
            let i = g.r.below(n as u64) as usize;
            v[i] = g.argb();
            v
        }
        _ => (0..n).map(|_| g.argb()).collect(),
    }
}
// ---- C29: the key colour against a direct search over the tones
fn key_color(a: &[V]) -> R {
    let (h, c) = (a[0].f(), a[1].f());
    let kc = TP::create_key_color(h, c);
    ck(TP::of(h, c).key_color == kc, || "key colour of the palette".into())?;
    let mut best = Hct::from(h, c, 50.0);
    let mut d = 1;
    while d < 50 && best.get_chroma().round() != c.round() {
        for t in [50 + d, 50 - d] {
            let x = Hct::from(h, c, t as f64);
            if (x.get_chroma() - c).abs() < (best.get_chroma() - c).abs() {
                best = x;
            }
        }
        d += 1;
    }
    ck(kc.to_int() == best.to_int(), || format!("key colour {:#x} (tone {:?}, chroma {:?}), search finds {:#x} (tone {:?}, chroma {:?})", kc.to_int(), kc.get_tone(), kc.get_chroma(), best.to_int(), best.get_tone(), best.get_chroma()))
}
fn key_color_hct(a: &[V]) -> R {
    let x = Hct::from_int(a[0].i());
    let p = TP::from_hct(&x);
    ck(p.key_color.to_int() == x.to_int() && p.hue == x.get_hue() && p.chroma == x.get_chroma(), || format!("key colour {:#x}", p.key_color.to_int()))
}
pub fn kinds(v: &mut Vec<Kind>) {
    use Src::*;
    v.push(k("C29", "key_color", Rand(15_000, 300_000, |g| vec![V::F(g.hue()), V::F(g.chroma())]), key_color));
    v.push(k("C29", "key_color_hct", Rand(20_000, 300_000, |g| vec![V::I(g.argb())]), key_color_hct));
    v.push(k("C10", "palette_history", Rand(20_000, 500_000, |g| {
        let (o, t) = ops(g);
        vec![V::F(g.hue()), V::F(g.chroma()), V::IL(o), V::FL(t)]
    }), hist_of));
    v.push(k("C10", "list_history", Rand(8_000, 200_000, |g| {
        let (o, t) = ops(g);
        vec![V::IL(clist(g, 13)), V::IL(o), V::FL(t)]
    }), hist_list));
    v.push(k("C11", "palette_list", Rand(15_000, 300_000, |g| vec![V::F(g.hue()), V::F(g.chroma())]), list_of));
    v.push(k("C11", "from_list", Rand(20_000, 300_000, |g| vec![V::IL(clist(g, 13))]), from_list));
    v.push(k("C11", "core_list", Rand(5_000, 100_000, |g| vec![V::IL(clist(g, 65))]), core_list));
    v.push(k("C11", "lengths", All(80, |i| vec![V::I(i as i64)]), bad_len));
    v.push(k("C16", "core_of", Rand(15_000, 300_000, |g| vec![V::I(g.argb())]), core_of));
    v.push(k("C16", "legacy", Rand(4_000, 100_000, |g| vec![V::I(g.argb())]), legacy));
    v.push(k("C16", "legacy_marked", Rand(50, 500, |g| vec![V::I(g.r.range(0, 1000000))]), legacy_marked));
}
