use crate::core::*;
use crate::refs;
use material_color_utilities_rs::{
    blend::blend::Blend,
    dislike::dislike_analyzer::DislikeAnalyzer as DA,
    hct::{cam16::Cam16, hct::Hct, src::hct_solver::HctSolver, viewing_conditions::ViewingConditions as VC},
    utils::{color_utils::ColorUtils as CU},
};

pub fn coherent(h: &Hct) -> R {
    let x = h.to_int();
    let c = Cam16::from_int(x);
    ck(hdist(h.get_hue(), c.hue) <= 1e-9 && (h.get_chroma() - c.chroma).abs() <= 1e-9, || format!("hue/chroma {:?}/{:?} but colour {:#x} has {:?}/{:?}", h.get_hue(), h.get_chroma(), x, c.hue, c.chroma))?;
    ck((h.get_tone() - refs::lstar_argb(x)).abs() <= 1e-9, || format!("tone {:?} but colour {:#x} has L* {:?}", h.get_tone(), x, refs::lstar_argb(x)))?;
    ck(h.get_hue() >= 0.0 && h.get_hue() < 360.0, || format!("hue {:?}", h.get_hue()))?;
    ck(h.get_chroma().is_finite() && h.get_chroma() >= 0.0, || format!("chroma {:?}", h.get_chroma()))?;
    ck((0.0..=100.0).contains(&h.get_tone()), || format!("tone {:?}", h.get_tone()))
}

// ---- C02
fn is_grey(x: i64) -> bool {
    x & 255 == x >> 8 & 255 && x & 255 == x >> 16 & 255
}
fn conv(a: &[V]) -> R {
    let (x, y, z) = (a[0].f(), a[1].f(), a[2].f());
    for (n, c) in [("argb_from_xyz", CU::argb_from_xyz(x, y, z)), ("argb_from_lab", CU::argb_from_lab(x, y, z)), ("argb_from_linrgb", CU::argb_from_linrgb(vec![x, y, z])), ("argb_from_lstar", CU::argb_from_lstar(x))] {
        ck(opaque(c), || format!("{} = {:#x}", n, c))?;
    }
    Ok(())
}
fn solve(a: &[V]) -> R {
    let (h, c, t) = (a[0].f(), a[1].f(), a[2].f());
    let x = HctSolver::solve_to_int(h, c, t);
    ck(opaque(x), || format!("solve_to_int = {:#x}", x))?;
    let hc = Hct::from(h, c, t);
    ck(opaque(hc.to_int()), || format!("Hct::from = {:#x}", hc.to_int()))?;
    if c < 0.0001 || t < 0.0001 || t > 99.9999 {
        ck(is_grey(x), || format!("grey expected, got {:#x}", x))?;
    }
    if t <= 0.0 {
        ck(x == 0xff000000, || format!("black expected, got {:#x}", x))?;
    }
    if t >= 100.0 {
        ck(x == 0xffffffff, || format!("white expected, got {:#x}", x))?;
    }
    Ok(())
}
fn solve_special(a: &[V]) -> R {
    let (h, c, t) = (a[0].f(), a[1].f(), a[2].f());
    let x = HctSolver::solve_to_int(h, c, t);
    ck(opaque(x), || format!("solve_to_int = {:#x}", x))?;
    conv(a)
}
// ---- C13
fn round_trip(a: &[V]) -> R {
    let x = a[0].i();
    let h = Hct::from_int(x);
    ck(h.to_int() == x, || format!("from_int({:#x}).to_int() = {:#x}", x, h.to_int()))?;
    coherent(&h)?;
    let b = Hct::from(h.get_hue(), h.get_chroma(), h.get_tone());
    ck(b.to_int() == x, || format!("Hct::from(hue,chroma,tone of {:#x}) = {:#x}", x, b.to_int()))
}
fn from_coherent(a: &[V]) -> R {
    let (h, c, t) = (a[0].f(), a[1].f(), a[2].f());
    let x = Hct::from(h, c, t);
    ck(x.to_int() == HctSolver::solve_to_int(h, c, t), || "from vs solver".into())?;
    coherent(&x)
}
fn setters(a: &[V]) -> R {
    let mut h = Hct::from_int(a[0].i());
    for (op, v) in a[1].il().iter().zip(a[2].fl().iter()) {
        let (hh, cc, tt) = (h.get_hue(), h.get_chroma(), h.get_tone());
        let e = match op {
            0 => {
                h.set_hue(*v);
                Hct::from(*v, cc, tt)
            }
            1 => {
                h.set_chroma(*v);
                Hct::from(hh, *v, tt)
            }
            _ => {
                h.set_tone(*v);
                Hct::from(hh, cc, *v)
            }
        };
        ck(h.to_int() == e.to_int(), || format!("setter {} to {:?}: {:#x}, solved {:#x}", op, v, h.to_int(), e.to_int()))?;
        coherent(&h)?;
    }
    Ok(())
}
// ---- C24
fn dis(h: &Hct) -> bool {
    let hu = h.get_hue().round();
    hu >= 90.0 && hu <= 111.0 && h.get_chroma().round() > 16.0 && h.get_tone().round() < 65.0
}
fn dislike(a: &[V]) -> R {
    let h = Hct::from_int(a[0].i());
    let d = dis(&h);
    ck(DA::is_disliked(&h) == d, || format!("is_disliked = {} for H{:?} C{:?} T{:?}", !d, h.get_hue(), h.get_chroma(), h.get_tone()))?;
    let f = DA::fix_if_disliked(&h);
    if d {
        let e = Hct::from(h.get_hue(), h.get_chroma(), 70.0);
        ck(f.to_int() == e.to_int(), || format!("fixed to {:#x}, expected {:#x}", f.to_int(), e.to_int()))?;
    } else {
        ck(f.to_int() == h.to_int(), || format!("liked colour changed to {:#x}", f.to_int()))?;
    }
    ck(!dis(&f) && !DA::is_disliked(&f), || format!("still disliked: {:#x}", f.to_int()))?;
    coherent(&f)
}
fn dislike_region(i: u64) -> Vec<V> {
    vec![V::I(0xff000000 + i as i64)]
}
// ---- C25
fn harmonize(a: &[V]) -> R {
    let (d, s) = (a[0].i(), a[1].i());
    let x = Blend::harmonize(d, s);
    ck(opaque(x), || format!("{:#x}", x))?;
    let (hd, hs) = (Hct::from_int(d), Hct::from_int(s));
    let arc = hdist(hd.get_hue(), hs.get_hue());
    let rot = (arc * 0.5).min(15.0);
    let inc = refs::norm(hs.get_hue() - hd.get_hue());
    let mk = |dir: f64, e: f64| Hct::from(refs::norm(hd.get_hue() + rot * dir + e), hd.get_chroma(), hd.get_tone()).to_int();
    let mut ok = vec![];
    for e in [0.0, 1e-11, -1e-11] {
        if inc <= 180.0 + 1e-9 {
            ok.push(mk(1.0, e));
        }
        if inc >= 180.0 - 1e-9 || inc < 1e-9 {
            ok.push(mk(-1.0, e));
        }
    }
    ck(ok.contains(&x), || format!("harmonize = {:#x}, expected {:#x}", x, ok[0]))
}
fn ucs(a: &[V]) -> R {
    let (f, t, am) = (a[0].i(), a[1].i(), a[2].f());
    ck(Blend::cam16_ucs(f, t, 0.0) == f, || format!("amount 0: {:#x}", Blend::cam16_ucs(f, t, 0.0)))?;
    ck(Blend::cam16_ucs(f, t, 1.0) == t, || format!("amount 1: {:#x}", Blend::cam16_ucs(f, t, 1.0)))?;
    let (p, q) = (Cam16::from_int(f), Cam16::from_int(t));
    let at = |am: f64| Cam16::from_ucs(p.jstar * (1.0 - am) + q.jstar * am, p.astar * (1.0 - am) + q.astar * am, p.bstar * (1.0 - am) + q.bstar * am).to_int();
    let x = Blend::cam16_ucs(f, t, am);
    let cand = [at(am), at(am + 1e-10), at(am - 1e-10)];
    let near = |e: i64| (0..3).all(|s| ((x >> (8 * s) & 255) - (e >> (8 * s) & 255)).abs() <= 1);
    ck(opaque(x) && cand.iter().any(|e| near(*e)), || format!("cam16_ucs = {:#x}, expected {:#x}", x, cand[0]))?;
    let h = Blend::hct_hue(f, t, am);
    let hf = Hct::from_int(f);
    let mk = |u: i64| Hct::from(Cam16::from_int(u).hue, hf.get_chroma(), hf.get_tone()).to_int();
    let he = mk(x);
    let nearh = (0..3).all(|s| ((h >> (8 * s) & 255) - (he >> (8 * s) & 255)).abs() <= 1);
    ck(h == he || nearh, || format!("hct_hue = {:#x}, expected {:#x}", h, he))
}
// ---- C26
fn cam(a: &[V]) -> R {
    let x = a[0].i();
    let c = Cam16::from_int(x);
    ck(c.hue >= 0.0 && c.hue < 360.0, || format!("hue {:?}", c.hue))?;
    ck(c.chroma.is_finite() && c.chroma >= 0.0 && c.chroma < 200.0, || format!("chroma {:?}", c.chroma))?;
    ck(c.j >= -1e-9 && c.j <= 100.0 + 1e-4, || format!("J {:?}", c.j))?;
    ck(c.q.is_finite() && c.s.is_finite() && c.q >= 0.0 && c.s >= 0.0, || "Q,s".into())?;
    let vc = VCS.get_or_init(VC::s_rgb);
    ck(close(c.m, c.chroma * vc.f_lroot, 1e-9), || format!("M {:?}", c.m))?;
    let q = 4.0 / vc.c * (c.j / 100.0).sqrt() * (vc.aw + 4.0) * vc.f_lroot;
    ck(close(c.q, q, 1e-9), || format!("Q {:?} expected {:?}", c.q, q))?;
    let mstar = (1.0 + 0.0228 * c.m).ln() / 0.0228;
    let hr = c.hue.to_radians();
    ck(close(c.jstar, 1.7 * c.j / (1.0 + 0.007 * c.j), 1e-9) && (c.astar - mstar * hr.cos()).abs() <= 1e-9 && (c.bstar - mstar * hr.sin()).abs() <= 1e-9, || format!("UCS {:?} {:?} {:?}", c.jstar, c.astar, c.bstar))?;
    ck(c.to_int() == x, || format!("to_int = {:#x}", c.to_int()))?;
    let xyz = c.xyz_in_viewing_conditions(vc, None);
    let e = CU::xyz_from_argb(x);
    for i in 0..3 {
        ck((xyz[i] - e[i]).abs() <= 1e-4, || format!("xyz {:?} expected {:?}", xyz, e))?;
    }
    Ok(())
}
static VCS: std::sync::OnceLock<VC> = std::sync::OnceLock::new();
fn cam_inv(a: &[V]) -> R {
    let x = a[0].i();
    let c = Cam16::from_int(x);
    let u = Cam16::from_ucs(c.jstar, c.astar, c.bstar);
    ck((u.j - c.j).abs() <= 1e-6 && (u.chroma - c.chroma).abs() <= 1e-6 && (c.chroma < 1e-3 || hdist(u.hue, c.hue) <= 1e-6), || format!("from_ucs J{:?} C{:?} h{:?} expected J{:?} C{:?} h{:?}", u.j, u.chroma, u.hue, c.j, c.chroma, c.hue))?;
    ck(u.hue >= 0.0 && u.hue < 360.0, || format!("hue {:?}", u.hue))?;
    ck((u.jstar - c.jstar).abs() <= 1e-6 && (u.astar - c.astar).abs() <= 1e-6 && (u.bstar - c.bstar).abs() <= 1e-6, || "UCS of from_ucs".into())?;
    let j = Cam16::from_jch(c.j, c.chroma, c.hue);
    ck((j.j - c.j).abs() <= 1e-6 && (j.chroma - c.chroma).abs() <= 1e-6 && hdist(j.hue, c.hue) <= 1e-6, || "from_jch J C h".into())?;
    ck((j.jstar - c.jstar).abs() <= 1e-6 && (j.astar - c.astar).abs() <= 1e-6 && (j.bstar - c.bstar).abs() <= 1e-6 && (j.m - c.m).abs() <= 1e-6 && (j.q - c.q).abs() <= 1e-6 && (c.j < 1e-6 || (j.s - c.s).abs() <= 1e-5), || format!("from_jch s {:?} {:?}", j.s, c.s))?;
    if c.j > 1e-6 {
        ck(j.to_int() == x, || format!("from_jch to_int {:#x}", j.to_int()))?;
        ck(u.to_int() == x, || format!("from_ucs to_int {:#x}", u.to_int()))?;
    }
    Ok(())
}
fn cam_dist(a: &[V]) -> R {
    let (p, q) = (Cam16::from_int(a[0].i()), Cam16::from_int(a[1].i()));
    let d = p.distance(&q);
    ck(d >= 0.0 && d.is_finite() && close(d, q.distance(&p), 1e-9), || format!("distance {:?} / {:?}", d, q.distance(&p)))?;
    ck(p.distance(&p) == 0.0, || "self distance".into())?;
    ck(a[0].i() == a[1].i() || d > 0.0, || "zero distance of different colours".into())?;
    let e = ((p.jstar - q.jstar).powi(2) + (p.astar - q.astar).powi(2) + (p.bstar - q.bstar).powi(2)).sqrt();
    ck(close(d, 1.41 * e.powf(0.63), 1e-9), || format!("distance {:?}", d))
}
fn ucs_hue(a: &[V]) -> R {
    let c = Cam16::from_ucs(a[0].f(), a[1].f(), a[2].f());
    ck(c.hue >= 0.0 && c.hue < 360.0, || format!("hue {:?}", c.hue))
}
fn vcond(a: &[V]) -> R {
    let (al, bl, su, di) = (a[0].f(), a[1].f(), a[2].f(), a[3].b());
    let v = VC::make(None, Some(al), Some(bl), Some(su), Some(di));
    let d0 = VC::s_rgb();
    let wp = [95.047, 100.0, 108.883];
    ck((0..3).all(|i| (v.white_point[i] - wp[i]).abs() < 1e-9), || "white point".into())?;
    let lum = if al > 0.0 { al } else { 200.0 / std::f64::consts::PI * refs::y_of(50.0) / 100.0 };
    ck(close(v.adapting_luminance, lum, 1e-9), || format!("adapting luminance {:?}", v.adapting_luminance))?;
    ck(v.background_lstar == bl.max(0.1), || format!("background {:?}", v.background_lstar))?;
    ck(v.surround == su && v.discounting_illuminant == di, || "surround".into())?;
    let f = 0.8 + su / 10.0;
    ck(close(v.n_c, f, 1e-9), || format!("n_c {:?}", v.n_c))?;
    let c = if f >= 0.9 { 0.59 + 0.1 * (f - 0.9) * 10.0 } else { 0.525 + 0.065 * (f - 0.8) * 10.0 };
    ck(close(v.c, c, 1e-9), || format!("c {:?} expected {:?}", v.c, c))?;
    let d = if di { 1.0 } else { f * (1.0 - 1.0 / 3.6 * ((-lum - 42.0) / 92.0).exp()) };
    let d = d.max(0.0).min(1.0);
    let m = [[0.401288, 0.650173, -0.051461], [-0.250268, 1.204414, 0.045854], [-0.002079, 0.048952, 0.953127]];
    let w: Vec<f64> = m.iter().map(|r| r[0] * wp[0] + r[1] * wp[1] + r[2] * wp[2]).collect();
    for i in 0..3 {
        ck(close(v.rgb_d[i], d * 100.0 / w[i] + 1.0 - d, 1e-9), || format!("rgb_d {:?}", v.rgb_d))?;
    }
    let k4 = (1.0 / (5.0 * lum + 1.0)).powi(4);
    let fl = k4 * lum + 0.1 * (1.0 - k4).powi(2) * (5.0 * lum).cbrt();
    ck(close(v.fl, fl, 1e-9) && close(v.f_lroot, fl.powf(0.25), 1e-9), || format!("fl {:?}", v.fl))?;
    let n = refs::y_of(v.background_lstar) / 100.0;
    ck(close(v.background_y_to_white_point_y, n, 1e-9) && close(v.z, 1.48 + n.sqrt(), 1e-9) && close(v.nbb, 0.725 / n.powf(0.2), 1e-9) && v.ncb == v.nbb, || "n,z,nbb".into())?;
    let ra: Vec<f64> = (0..3).map(|i| { let x = (fl * v.rgb_d[i] * w[i] / 100.0).powf(0.42); 400.0 * x / (x + 27.13) }).collect();
    ck(close(v.aw, (40.0 * ra[0] + 20.0 * ra[1] + ra[2]) / 20.0 * v.nbb, 1e-9), || format!("aw {:?}", v.aw))?;
    let e = VC::make(None, None, None, None, None);
    ck(e.aw == d0.aw && e.fl == d0.fl && e.n_c == d0.n_c && e.c == d0.c && e.z == d0.z && e.nbb == d0.nbb && e.surround == 2.0 && e.background_lstar == 50.0 && VC::standard().aw == d0.aw, || "defaults".into())?;
    for bad in [-0.001, 2.001, -5.0, 100.0] {
        let r = std::panic::catch_unwind(|| VC::make(None, None, None, Some(bad), None));
        ck(r.is_err(), || format!("surround {} accepted", bad))?;
    }
    Ok(())
}
// ---- C27
fn accuracy(a: &[V]) -> R {
    let (h, c, t) = (a[0].f(), a[1].f(), a[2].f());
    let x = Hct::from(h, c, t);
    let tt = refs::clamp(t, 0.0, 100.0);
    let tone = refs::lstar_argb(x.to_int());
    let s = || format!("asked H{:?} C{:?} T{:?}, got H{:?} C{:?} T{:?}", h, c, t, x.get_hue(), x.get_chroma(), tone);
    ck((tone - tt).abs() <= 0.5, || format!("tone: {}", s()))?;
    if (10.0..=95.0).contains(&t) && c >= 0.0 && h.abs() < 1e6 {
        let cc = x.get_chroma();
        ck(cc <= c + 3.5, || format!("chroma overshoot: {}", s()))?;
        let m = Hct::from(h, 300.0, t).get_chroma();
        ck(cc >= c.min(m) - 3.0, || format!("chroma shortfall (gamut has {:?}): {}", m, s()))?;
        if cc >= 20.0 {
            ck(hdist(refs::norm(h), x.get_hue()) <= 4.0, || format!("hue: {}", s()))?;
        }
    }
    Ok(())
}
fn hue_period(a: &[V]) -> R {
    let (h, c, t, kk) = (a[0].f(), a[1].f(), a[2].f(), a[3].i());
    // exact periodicity for integer hues (no rounding in h + 360k)
    let x = HctSolver::solve_to_int(h, c, t);
    let y = HctSolver::solve_to_int(h + 360.0 * kk as f64, c, t);
    ck(x == y, || format!("{:#x} at {:?}, {:#x} at +{}*360", x, h, y, kk))
}

fn hct3(g: &mut G) -> Vec<V> {
    vec![V::F(g.hue()), V::F(g.chroma()), V::F(if g.r.below(3) == 0 { g.tone() } else { g.fin(0.0, 100.0) })]
}
pub fn kinds(v: &mut Vec<Kind>) {
    use Src::*;
    v.push(k("C02", "solve_wild", Rand(400_000, 10_000_000, |g| match g.r.below(5) {
        0 => vec![V::F(g.any()), V::F(g.any()), V::F(g.any())],
        1 => vec![V::F(g.any()), V::F(g.chroma()), V::F(g.tone())],
        2 => vec![V::F(g.hue()), V::F(g.any()), V::F(g.tone())],
        3 => vec![V::F(g.hue()), V::F(g.chroma()), V::F(g.any())],
        _ => hct3(g),
    }), solve));
    v.push(k("C02", "solve_gamut_edge", Rand(400_000, 10_000_000, |g| {
        let t = *g.r.pick(&[0.00011, 0.001, 0.01, 0.1, 0.5, 1.0, 99.0, 99.9, 99.99, 99.99989]);
        vec![V::F(g.hue()), V::F(if g.r.coin() { g.fin(0.0, 300.0) } else { 0.0001 }), V::F(if g.r.coin() { t } else { g.tone() })]
    }), solve));
    v.push(k("C02", "convert", Rand(1_000_000, 20_000_000, |g| (0..3).map(|_| V::F(if g.r.coin() { g.any() } else { g.fin(-150.0, 150.0) })).collect()), conv));
    v.push(k("C02", "special", Rand(100_000, 1_000_000, |g| vec![V::F(g.special()), V::F(g.special()), V::F(g.special())]), solve_special));
    v.push(k("C02", "lattice", All(37 * 61 * 101, |i| vec![V::F((i % 37) as f64 * 10.0), V::F((i / 37 % 61) as f64 * 3.0), V::F((i / 37 / 61) as f64)]), solve));
    v.push(k("C13", "round_trip", All(1 << 24, |i| vec![V::I(0xff000000 + i as i64)]), round_trip));
    v.push(k("C13", "from", Rand(300_000, 10_000_000, |g| match g.r.below(3) {
        0 => vec![V::F(g.any()), V::F(g.any()), V::F(g.any())],
        _ => hct3(g),
    }), from_coherent));
    v.push(k("C13", "setters", Rand(60_000, 2_000_000, |g| {
        let n = g.r.range(1, 8);
        let mut o = vec![];
        let mut f = vec![];
        for _ in 0..n {
            let op = g.r.range(0, 2);
            o.push(op);
            f.push(if g.r.below(6) == 0 { g.any() } else { match op { 0 => g.fin(-400.0, 800.0), 1 => g.chroma(), _ => g.tone() } });
        }
        vec![V::I(g.argb()), V::IL(o), V::FL(f)]
    }), setters));
    v.push(k("C24", "all_colours", All(1 << 24, dislike_region), dislike));
    v.push(k("C25", "harmonize", Rand(300_000, 10_000_000, |g| vec![V::I(g.argb()), V::I(g.argb())]), harmonize));
    v.push(k("C25", "harmonize_near", Rand(200_000, 5_000_000, |g| {
        // opposite or equal hues
        let a = g.argb();
        let h = Hct::from_int(a);
        let off = *g.r.pick(&[0.0, 180.0, 179.0, 181.0, 30.0, 29.0, 31.0, -30.0, 90.0]);
        let b = Hct::from(h.get_hue() + off, g.fin(5.0, 100.0), g.fin(5.0, 95.0)).to_int();
        vec![V::I(a), V::I(b)]
    }), harmonize));
    v.push(k("C25", "ucs", Rand(200_000, 5_000_000, |g| vec![V::I(g.argb()), V::I(g.argb()), V::F(g.fin(0.0, 1.0))]), ucs));
    v.push(k("C26", "cam_all", All(1 << 24, |i| vec![V::I(0xff000000 + i as i64)]), cam));
    v.push(k("C26", "inverse", Strided(1 << 24, 1 << 20, |i| vec![V::I(0xff000000 + i as i64)]), cam_inv));
    v.push(k("C26", "distance", Rand(300_000, 10_000_000, |g| vec![V::I(g.argb()), V::I(g.argb())]), cam_dist));
    v.push(k("C26", "ucs_hue", Rand(500_000, 10_000_000, |g| vec![V::F(g.fin(1.0, 100.0)), V::F(if g.r.coin() { g.fin(-60.0, 60.0) } else { g.any().clamp(-200.0, 200.0) }), V::F(if g.r.coin() { g.fin(-60.0, 60.0) } else { g.any().clamp(-200.0, 200.0) })]), ucs_hue));
    v.push(k("C26", "viewing", Rand(20_000, 500_000, |g| vec![V::F(if g.r.below(4) == 0 { -1.0 } else { g.fin(0.0, 5000.0) }), V::F(g.fin(-10.0, 100.0)), V::F(g.fin(0.0, 2.0)), V::I(g.r.range(0, 1))]), vcond));
    v.push(k("C27", "accuracy", Rand(500_000, 20_000_000, hct3), accuracy));
    v.push(k("C27", "accuracy_vivid", Rand(300_000, 20_000_000, |g| vec![V::F(g.hue()), V::F(g.fin(20.0, 130.0)), V::F(g.fin(10.0, 95.0))]), accuracy));
    v.push(k("C27", "accuracy_wild", Rand(100_000, 5_000_000, |g| vec![V::F(g.any()), V::F(g.any()), V::F(g.any())]), accuracy));
    v.push(k("C27", "lattice", All(72 * 30 * 51, |i| vec![V::F((i % 72) as f64 * 5.0), V::F((i / 72 % 30) as f64 * 5.0), V::F((i / 72 / 30) as f64 * 2.0)]), accuracy));
    v.push(k("C27", "period", Rand(100_000, 3_000_000, |g| vec![V::F(g.r.range(0, 359) as f64), V::F(g.chroma()), V::F(g.tone()), V::I(g.r.range(-5, 5))]), hue_period));
}
