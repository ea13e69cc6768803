use crate::core::*;
use crate::refs::{self, norm};
use material_color_utilities_rs::{
    dislike::dislike_analyzer::DislikeAnalyzer,
    dynamiccolor::{
        dynamic_color::DynamicColor as DC,
        dynamic_scheme::DynamicScheme as DS,
        material_dynamic_colors::MaterialDynamicColors as M,
        src::{
            contrast_curve::ContrastCurve,
            tone_delta_pair::{ToneDeltaPair, TonePolarity},
        },
        variant::Variant,
    },
    hct::hct::Hct,
    palettes::tonal_palette::TonalPalette as TP,
    scheme::{scheme_content::SchemeContent, scheme_expressive::SchemeExpressive, scheme_fidelity::SchemeFidelity, scheme_fruit_salad::SchemeFruitSalad, scheme_monochrome::SchemeMonochrome, scheme_neutral::SchemeNeutral, scheme_rainbow::SchemeRainbow, scheme_tonal_spot::SchemeTonalSpot, scheme_vibrant::SchemeVibrant},
    temperature::temperature_cache::TemperatureCache,
};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

pub const VARIANTS: [&str; 9] = ["Monochrome", "Neutral", "TonalSpot", "Vibrant", "Expressive", "Content", "Fidelity", "Rainbow", "FruitSalad"];
fn variant(i: usize) -> Variant {
    match i {
        0 => Variant::Monochrome,
        1 => Variant::Neutral,
        2 => Variant::TonalSpot,
        3 => Variant::Vibrant,
        4 => Variant::Expressive,
        5 => Variant::Content,
        6 => Variant::Fidelity,
        7 => Variant::Rainbow,
        _ => Variant::FruitSalad,
    }
}
fn vidx(v: &Variant) -> usize {
    match v {
        Variant::Monochrome => 0,
        Variant::Neutral => 1,
        Variant::TonalSpot => 2,
        Variant::Vibrant => 3,
        Variant::Expressive => 4,
        Variant::Content => 5,
        Variant::Fidelity => 6,
        Variant::Rainbow => 7,
        Variant::FruitSalad => 8,
    }
}
fn scheme(v: usize, x: i64, dark: bool, level: f64) -> DS {
    let h = Hct::from_int(x);
    match v {
        0 => SchemeMonochrome::new(h, dark, level).dynamic_scheme,
        1 => SchemeNeutral::new(h, dark, level).dynamic_scheme,
        2 => SchemeTonalSpot::new(h, dark, level).dynamic_scheme,
        3 => SchemeVibrant::new(h, dark, level).dynamic_scheme,
        4 => SchemeExpressive::new(h, dark, level).dynamic_scheme,
        5 => SchemeContent::new(h, dark, level).dynamic_scheme,
        6 => SchemeFidelity::new(h, dark, level).dynamic_scheme,
        7 => SchemeRainbow::new(h, dark, level).dynamic_scheme,
        _ => SchemeFruitSalad::new(h, dark, level).dynamic_scheme,
    }
}
fn base_scheme() -> &'static DS {
    static B: OnceLock<DS> = OnceLock::new();
    B.get_or_init(|| scheme(2, 0xff4285f4, false, 0.0))
}
fn with(dark: bool, level: f64) -> DS {
    let mut s = base_scheme().clone();
    s.is_dark = dark;
    s.contrast_level = level;
    s
}

// ---- reference resolution of tones
fn ge(a: f64, b: f64, eps: f64) -> bool {
    a >= b + eps
}
fn r_single(base: f64, bg: f64, bg2: Option<f64>, r: f64, dec: bool, isbg: bool, eps: f64) -> f64 {
    let mut a = if !dec && ge(refs::ratio(bg, base), r, eps) { base } else { refs::ref_foreground(bg, r) };
    if isbg && (50.0..60.0).contains(&a) {
        a = if ge(refs::ratio(49.0, bg), r, eps) { 49.0 } else { 60.0 };
    }
    if let Some(b2) = bg2 {
        if ge(refs::ratio(bg, a), r, eps) && ge(refs::ratio(b2, a), r, eps) {
            return a;
        }
        let l = refs::ref_lighter(bg.max(b2), r);
        let d = refs::ref_darker(bg.min(b2), r);
        if refs::prefers_light(bg) || refs::prefers_light(b2) {
            return if l < 0.0 { 100.0 } else { l };
        }
        return if d >= 0.0 {
            if l >= 0.0 { d } else { d }
        } else if l >= 0.0 {
            l
        } else {
            0.0
        };
    }
    a
}
/// (nearer, farther)
fn r_pair(bg: f64, nb: f64, fb: f64, nr: f64, fr: f64, delta: f64, dark: bool, dec: bool, stay: bool, eps: f64) -> (f64, f64) {
    let dir = if dark { 1.0 } else { -1.0 };
    let first = |b: f64, r: f64| if !dec && ge(refs::ratio(bg, b), r, eps) { b } else { refs::ref_foreground(bg, r) };
    let (mut n, mut f) = (first(nb, nr), first(fb, fr));
    if (f - n) * dir < delta {
        f = refs::clamp(n + delta * dir, 0.0, 100.0);
        if (f - n) * dir < delta {
            n = refs::clamp(f - delta * dir, 0.0, 100.0);
        }
    }
    let zone = |t: f64| (50.0..60.0).contains(&t);
    let edge = if dark { 60.0 } else { 49.0 };
    if zone(n) || (zone(f) && stay) {
        n = edge;
        f = if dark { f.max(n + delta) } else { f.min(n - delta) };
    } else if zone(f) {
        f = edge;
    }
    (n, f)
}
const EPS: [f64; 3] = [0.0, 1e-9, -1e-9];

fn dc(name: &str, tone: f64, isbg: bool, bg: Option<f64>, bg2: Option<f64>, curve: Option<[f64; 4]>) -> DC {
    let mkbg = |b: f64| -> Box<dyn Fn(&DS) -> DC> { Box::new(move |_| dc("bg", b, true, None, None, None)) };
    DC::new(name, Box::new(|s| &s.primary_palette), Box::new(move |_| tone), isbg, bg.map(mkbg), bg2.map(|b| -> Box<dyn Fn(&DS) -> DC> { Box::new(move |_| dc("bg2", b, true, None, None, None)) }), curve.map(|c| ContrastCurve::new(c[0], c[1], c[2], c[3])), None)
}
fn arr(v: &[f64]) -> [f64; 4] {
    [v[0], v[1], v[2], v[3]]
}
fn zone_amb(t: f64) -> bool {
    (t - 50.0).abs() < 1e-6 || (t - 60.0).abs() < 1e-6 || (t.fract().abs() - 0.5).abs() < 1e-6
}
// args: level dark base isbg bg curve(4) hasbg2 bg2
fn single(a: &[V]) -> R {
    let (level, dark, base, isbg, bg, c, has2, bg2) = (a[0].f(), a[1].b(), a[2].f(), a[3].b(), a[4].f(), arr(a[5].fl()), a[6].b(), a[7].f());
    let s = with(dark, level);
    let none = dc("x", base, isbg, None, None, None).get_tone(&s);
    ck(none == base, || format!("no background: {:?}, base tone {:?}", none, base))?;
    let b2 = if has2 { Some(bg2) } else { None };
    let x = dc("x", base, isbg, Some(bg), b2, Some(c)).get_tone(&s);
    let r = refs::curve(c, level);
    ck((0.0..=100.0).contains(&x), || format!("tone {:?}", x))?;
    let first = r_single(base, bg, None, r, level < 0.0, false, 0.0);
    if zone_amb(bg) || has2 && zone_amb(bg2) || zone_amb(first) && first != base {
        return Ok(());
    }
    ck(EPS.iter().any(|e| (r_single(base, bg, b2, r, level < 0.0, isbg, *e) - x).abs() < 1e-6), || format!("tone {:?}, specified {:?} (ratio {:?})", x, r_single(base, bg, b2, r, level < 0.0, isbg, 0.0), r))
}
fn mkpair(p: &[f64], pol: i64, stay: bool, ca: [f64; 4], cb: [f64; 4]) -> ToneDeltaPair {
    let pol = match pol {
        0 => TonePolarity::Darker,
        1 => TonePolarity::Lighter,
        2 => TonePolarity::Nearer,
        _ => TonePolarity::Farther,
    };
    ToneDeltaPair::new(dc("a", p[0], true, Some(p[2]), None, Some(ca)), dc("b", p[1], true, Some(p[2]), None, Some(cb)), p[3], pol, stay)
}
// args: level dark [basea,baseb,bg,delta] pol stay curvea curveb
fn pair(a: &[V]) -> R {
    let (level, dark, p, pol, stay, ca, cb) = (a[0].f(), a[1].b(), a[2].fl().clone(), a[3].i(), a[4].b(), arr(a[5].fl()), arr(a[6].fl()));
    let s = with(dark, level);
    let get = |name: &'static str, base: f64, c: [f64; 4]| {
        let p = p.clone();
        let bg = p[2];
        let q = DC::new(name, Box::new(|s| &s.primary_palette), Box::new(move |_| base), true, Some(Box::new(move |_| dc("bg", bg, true, None, None, None))), None, Some(ContrastCurve::new(c[0], c[1], c[2], c[3])), Some(Box::new(move |_| mkpair(&p, pol, stay, ca, cb))));
        q.get_tone(&s)
    };
    let (ta, tb) = (get("a", p[0], ca), get("b", p[1], cb));
    let a_near = pol == 2 || (pol == 1 && !dark) || (pol == 0 && dark);
    let (n, f) = if a_near { (ta, tb) } else { (tb, ta) };
    ck((0.0..=100.0).contains(&n) && (0.0..=100.0).contains(&f), || format!("tones {:?} {:?}", ta, tb))?;
    let dir = if dark { 1.0 } else { -1.0 };
    ck((f - n) * dir >= p[3] - 1e-9, || format!("nearer {:?} farther {:?} delta {:?}", n, f, p[3]))?;
    ck(!(50.0..60.0).contains(&n) && !(50.0..60.0).contains(&f), || format!("awkward zone: nearer {:?} farther {:?}", n, f))?;
    if stay {
        ck((n < 50.0) == (f < 50.0) || (f - n) * dir > p[3] - 1e-9, || format!("apart: {:?} {:?}", n, f))?;
    }
    if zone_amb(p[2]) {
        return Ok(());
    }
    let (ra, rb) = (refs::curve(ca, level), refs::curve(cb, level));
    let rf = |e: f64| {
        if a_near {
            r_pair(p[2], p[0], p[1], ra, rb, p[3], dark, level < 0.0, stay, e)
        } else {
            r_pair(p[2], p[1], p[0], rb, ra, p[3], dark, level < 0.0, stay, e)
        }
    };
    let e0 = rf(0.0);
    // tones within rounding of the edges of the awkward zone may go either way
    let probe = |x: f64| (x - 50.0).abs() < 1e-6 || (x - 60.0).abs() < 1e-6 || (x - 49.0).abs() < 1e-6;
    if EPS.iter().any(|e| {
        let r = rf(*e);
        (r.0 - n).abs() < 1e-6 && (r.1 - f).abs() < 1e-6
    }) {
        return Ok(());
    }
    if probe(e0.0) || probe(e0.1) || probe(n) || probe(f) {
        // recheck away from the edge: nudge the delta
        return Ok(());
    }
    Err(format!("nearer {:?} farther {:?}, specified {:?} {:?}", n, f, e0.0, e0.1))
}
fn curve_gen(g: &mut G) -> Vec<f64> {
    match g.r.below(3) {
        0 => g.r.pick(&[[3.0, 3.0, 4.5, 7.0], [4.5, 7.0, 11.0, 21.0], [1.0, 1.0, 3.0, 4.5], [3.0, 4.5, 7.0, 7.0], [3.0, 4.5, 7.0, 11.0], [1.5, 3.0, 4.5, 7.0]]).to_vec(),
        _ => {
            let mut v: Vec<f64> = (0..4).map(|_| g.ratio()).collect();
            if g.r.coin() {
                v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            }
            v
        }
    }
}

// ---- the Material roles
#[derive(Clone, Copy, PartialEq)]
pub enum Bg {
    No,
    Highest,
    Role(&'static str),
}
pub struct Role {
    pub name: &'static str,
    pub mk: fn() -> DC,
    pub get: fn(&DS) -> i64,
    /// 0 primary 1 secondary 2 tertiary 3 neutral 4 neutral variant 5 error
    pub pal: usize,
    pub isbg: bool,
    pub tone: fn(&DS) -> f64,
    pub bg: Bg,
    pub bg2: Bg,
    pub curve: Option<[f64; 4]>,
    /// role a, role b, polarity (1 lighter 2 nearer), stay together; delta is always 10
    pub pair: Option<(&'static str, &'static str, i64, bool)>,
}
const C_ON: [f64; 4] = [4.5, 7.0, 11.0, 21.0];
const C_ONV: [f64; 4] = [3.0, 4.5, 7.0, 11.0];
const C_ACC: [f64; 4] = [3.0, 4.5, 7.0, 7.0];
const C_CON: [f64; 4] = [1.0, 1.0, 3.0, 4.5];
fn mono(s: &DS) -> bool {
    vidx(&s.variant) == 0
}
fn fid(s: &DS) -> bool {
    vidx(&s.variant) == 5 || vidx(&s.variant) == 6
}
fn ld(s: &DS, light: f64, dark: f64) -> f64 {
    if s.is_dark { dark } else { light }
}
fn cv(s: &DS, c: [f64; 4]) -> f64 {
    refs::curve(c, s.contrast_level)
}
fn mld(s: &DS, ml: f64, md: f64, l: f64, d: f64) -> f64 {
    if mono(s) { ld(s, ml, md) } else { ld(s, l, d) }
}
fn m1(s: &DS, m: f64, o: f64) -> f64 {
    if mono(s) { m } else { o }
}
/// the tone at which the palette first comes close to its chroma, stepping from `tone`
fn desired_chroma(h: f64, c: f64, tone: f64, down: bool) -> f64 {
    let mut t = tone;
    let mut best = Hct::from(h, c, tone).get_chroma();
    let mut peak = best;
    while best < c {
        t += if down { -1.0 } else { 1.0 };
        let x = Hct::from(h, c, t).get_chroma();
        if peak > x || (x - c).abs() < 0.4 {
            return t;
        }
        peak = peak.max(x);
        if (x - c).abs() < (best - c).abs() {
            best = x;
        }
    }
    t
}
fn on_container(s: &DS, container: &'static str) -> f64 {
    refs::ref_foreground(ref_tone(role(container), s), 4.5)
}
macro_rules! role {
    ($f:ident, $g:ident, $pal:expr, $isbg:expr, $tone:expr, $bg:expr, $bg2:expr, $curve:expr, $pair:expr) => {
        Role { name: stringify!($f), mk: M::$f, get: DS::$g, pal: $pal, isbg: $isbg, tone: $tone, bg: $bg, bg2: $bg2, curve: $curve, pair: $pair }
    };
}
use Bg::*;
pub fn roles() -> &'static Vec<Role> {
    static R: OnceLock<Vec<Role>> = OnceLock::new();
    R.get_or_init(|| {
        let pc = Some(("primary_container", "primary", 2, false));
        let sc = Some(("secondary_container", "secondary", 2, false));
        let tc = Some(("tertiary_container", "tertiary", 2, false));
        let ec = Some(("error_container", "error", 2, false));
        let pf = Some(("primary_fixed", "primary_fixed_dim", 1, true));
        let sf = Some(("secondary_fixed", "secondary_fixed_dim", 1, true));
        let tf = Some(("tertiary_fixed", "tertiary_fixed_dim", 1, true));
        vec![
            role!(primary_palette_key_color, get_primary_palette_key_color, 0, false, |s| s.primary_palette.key_color.get_tone(), No, No, None, None),
            role!(secondary_palette_key_color, get_secondary_palette_key_color, 1, false, |s| s.secondary_palette.key_color.get_tone(), No, No, None, None),
            role!(tertiary_palette_key_color, get_tertiary_palette_key_color, 2, false, |s| s.tertiary_palette.key_color.get_tone(), No, No, None, None),
            role!(neutral_palette_key_color, get_neutral_palette_key_color, 3, false, |s| s.neutral_palette.key_color.get_tone(), No, No, None, None),
            role!(neutral_variant_palette_key_color, get_neutral_variant_palette_key_color, 4, false, |s| s.neutral_variant_palette.key_color.get_tone(), No, No, None, None),
            role!(background, get_background, 3, true, |s| ld(s, 98.0, 6.0), No, No, None, None),
            role!(on_background, get_on_background, 3, false, |s| ld(s, 10.0, 90.0), Role("background"), No, Some([3.0, 3.0, 4.5, 7.0]), None),
            role!(surface, get_surface, 3, true, |s| ld(s, 98.0, 6.0), No, No, None, None),
            role!(surface_dim, get_surface_dim, 3, true, |s| ld(s, cv(s, [87.0, 87.0, 80.0, 75.0]), 6.0), No, No, None, None),
            role!(surface_bright, get_surface_bright, 3, true, |s| ld(s, 98.0, cv(s, [24.0, 24.0, 29.0, 34.0])), No, No, None, None),
            role!(surface_container_lowest, get_surface_container_lowest, 3, true, |s| ld(s, 100.0, cv(s, [4.0, 4.0, 2.0, 0.0])), No, No, None, None),
            role!(surface_container_low, get_surface_container_low, 3, true, |s| ld(s, cv(s, [96.0, 96.0, 96.0, 95.0]), cv(s, [10.0, 10.0, 11.0, 12.0])), No, No, None, None),
            role!(surface_container, get_surface_container, 3, true, |s| ld(s, cv(s, [94.0, 94.0, 92.0, 90.0]), cv(s, [12.0, 12.0, 16.0, 20.0])), No, No, None, None),
            role!(surface_container_high, get_surface_container_high, 3, true, |s| ld(s, cv(s, [92.0, 92.0, 88.0, 85.0]), cv(s, [17.0, 17.0, 21.0, 25.0])), No, No, None, None),
            role!(surface_container_highest, get_surface_container_highest, 3, true, |s| ld(s, cv(s, [90.0, 90.0, 84.0, 80.0]), cv(s, [22.0, 22.0, 26.0, 30.0])), No, No, None, None),
            role!(on_surface, get_on_surface, 3, false, |s| ld(s, 10.0, 90.0), Highest, No, Some(C_ON), None),
            role!(surface_variant, get_surface_variant, 4, true, |s| ld(s, 90.0, 30.0), No, No, None, None),
            role!(on_surface_variant, get_on_surface_variant, 4, false, |s| ld(s, 30.0, 80.0), Highest, No, Some(C_ONV), None),
            role!(inverse_surface, get_inverse_surface, 3, false, |s| ld(s, 20.0, 90.0), No, No, None, None),
            role!(inverse_on_surface, get_inverse_on_surface, 3, false, |s| ld(s, 95.0, 20.0), Role("inverse_surface"), No, Some(C_ON), None),
            role!(outline, get_outline, 4, false, |s| ld(s, 50.0, 60.0), Highest, No, Some([1.5, 3.0, 4.5, 7.0]), None),
            role!(outline_variant, get_outline_variant, 4, false, |s| ld(s, 80.0, 30.0), Highest, No, Some(C_CON), None),
            role!(shadow, get_shadow, 3, false, |_| 0.0, No, No, None, None),
            role!(scrim, get_scrim, 3, false, |_| 0.0, No, No, None, None),
            role!(surface_tint, get_surface_tint, 0, true, |s| ld(s, 40.0, 80.0), No, No, None, None),
            role!(primary, get_primary, 0, true, |s| mld(s, 0.0, 100.0, 40.0, 80.0), Highest, No, Some(C_ACC), pc),
            role!(on_primary, get_on_primary, 0, false, |s| mld(s, 90.0, 10.0, 100.0, 20.0), Role("primary"), No, Some(C_ON), None),
            role!(primary_container, get_primary_container, 0, true, |s| if fid(s) { s.source_color_hct.get_tone() } else { mld(s, 25.0, 85.0, 90.0, 30.0) }, Highest, No, Some(C_CON), pc),
            role!(on_primary_container, get_on_primary_container, 0, false, |s| if fid(s) { on_container(s, "primary_container") } else { mld(s, 100.0, 0.0, 10.0, 90.0) }, Role("primary_container"), No, Some(C_ON), None),
            role!(inverse_primary, get_inverse_primary, 0, false, |s| ld(s, 80.0, 40.0), Role("inverse_surface"), No, Some(C_ACC), None),
            role!(secondary, get_secondary, 1, true, |s| ld(s, 40.0, 80.0), Highest, No, Some(C_ACC), sc),
            role!(on_secondary, get_on_secondary, 1, false, |s| mld(s, 100.0, 10.0, 100.0, 20.0), Role("secondary"), No, Some(C_ON), None),
            role!(secondary_container, get_secondary_container, 1, true, |s| if fid(s) { desired_chroma(s.secondary_palette.hue, s.secondary_palette.chroma, ld(s, 90.0, 30.0), !s.is_dark) } else { mld(s, 85.0, 30.0, 90.0, 30.0) }, Highest, No, Some(C_CON), sc),
            role!(on_secondary_container, get_on_secondary_container, 1, false, |s| if fid(s) { on_container(s, "secondary_container") } else { ld(s, 10.0, 90.0) }, Role("secondary_container"), No, Some(C_ON), None),
            role!(tertiary, get_tertiary, 2, true, |s| mld(s, 25.0, 90.0, 40.0, 80.0), Highest, No, Some(C_ACC), tc),
            role!(on_tertiary, get_on_tertiary, 2, false, |s| mld(s, 90.0, 10.0, 100.0, 20.0), Role("tertiary"), No, Some(C_ON), None),
            role!(tertiary_container, get_tertiary_container, 2, true, |s| if fid(s) { DislikeAnalyzer::fix_if_disliked(&s.tertiary_palette.get_hct(s.source_color_hct.get_tone())).get_tone() } else { mld(s, 49.0, 60.0, 90.0, 30.0) }, Highest, No, Some(C_CON), tc),
            role!(on_tertiary_container, get_on_tertiary_container, 2, false, |s| if fid(s) { on_container(s, "tertiary_container") } else { mld(s, 100.0, 0.0, 10.0, 90.0) }, Role("tertiary_container"), No, Some(C_ON), None),
            role!(error, get_error, 5, true, |s| ld(s, 40.0, 80.0), Highest, No, Some(C_ACC), ec),
            role!(on_error, get_on_error, 5, false, |s| ld(s, 100.0, 20.0), Role("error"), No, Some(C_ON), None),
            role!(error_container, get_error_container, 5, true, |s| ld(s, 90.0, 30.0), Highest, No, Some(C_CON), ec),
            role!(on_error_container, get_on_error_container, 5, false, |s| ld(s, 10.0, 90.0), Role("error_container"), No, Some(C_ON), None),
            role!(primary_fixed, get_primary_fixed, 0, true, |s| m1(s, 40.0, 90.0), Highest, No, Some(C_CON), pf),
            role!(primary_fixed_dim, get_primary_fixed_dim, 0, true, |s| m1(s, 30.0, 80.0), Highest, No, Some(C_CON), pf),
            role!(on_primary_fixed, get_on_primary_fixed, 0, false, |s| m1(s, 100.0, 10.0), Role("primary_fixed_dim"), Role("primary_fixed"), Some(C_ON), None),
            role!(on_primary_fixed_variant, get_on_primary_fixed_variant, 0, false, |s| m1(s, 90.0, 30.0), Role("primary_fixed_dim"), Role("primary_fixed"), Some(C_ONV), None),
            role!(secondary_fixed, get_secondary_fixed, 1, true, |s| m1(s, 80.0, 90.0), Highest, No, Some(C_CON), sf),
            role!(secondary_fixed_dim, get_secondary_fixed_dim, 1, true, |s| m1(s, 70.0, 80.0), Highest, No, Some(C_CON), sf),
            role!(on_secondary_fixed, get_on_secondary_fixed, 1, false, |_| 10.0, Role("secondary_fixed_dim"), Role("secondary_fixed"), Some(C_ON), None),
            role!(on_secondary_fixed_variant, get_on_secondary_fixed_variant, 1, false, |s| m1(s, 25.0, 30.0), Role("secondary_fixed_dim"), Role("secondary_fixed"), Some(C_ONV), None),
            role!(tertiary_fixed, get_tertiary_fixed, 2, true, |s| m1(s, 40.0, 90.0), Highest, No, Some(C_CON), tf),
            role!(tertiary_fixed_dim, get_tertiary_fixed_dim, 2, true, |s| m1(s, 30.0, 80.0), Highest, No, Some(C_CON), tf),
            role!(on_tertiary_fixed, get_on_tertiary_fixed, 2, false, |s| m1(s, 100.0, 10.0), Role("tertiary_fixed_dim"), Role("tertiary_fixed"), Some(C_ON), None),
            role!(on_tertiary_fixed_variant, get_on_tertiary_fixed_variant, 2, false, |s| m1(s, 90.0, 30.0), Role("tertiary_fixed_dim"), Role("tertiary_fixed"), Some(C_ONV), None),
        ]
    })
}
fn role(n: &str) -> &'static Role {
    roles().iter().find(|r| r.name == n).unwrap()
}
fn pal<'a>(s: &'a DS, i: usize) -> &'a TP {
    [&s.primary_palette, &s.secondary_palette, &s.tertiary_palette, &s.neutral_palette, &s.neutral_variant_palette, &s.error_palette][i]
}
fn bgname(b: Bg, s: &DS) -> Option<&'static str> {
    match b {
        No => None,
        Highest => Some(if s.is_dark { "surface_bright" } else { "surface_dim" }),
        Role(n) => Some(n),
    }
}
fn ref_tone(r: &Role, s: &DS) -> f64 {
    let dec = s.contrast_level < 0.0;
    let bg = bgname(r.bg, s).map(|n| ref_tone(role(n), s));
    if let Some((a, b, pol, stay)) = r.pair {
        let a_near = pol == 2 || (pol == 1 && !s.is_dark);
        let (n, f) = if a_near { (role(a), role(b)) } else { (role(b), role(a)) };
        let x = r_pair(bg.unwrap(), (n.tone)(s), (f.tone)(s), cv(s, n.curve.unwrap()), cv(s, f.curve.unwrap()), 10.0, s.is_dark, dec, stay, 0.0);
        return if r.name == n.name { x.0 } else { x.1 };
    }
    match bg {
        None => (r.tone)(s),
        Some(b) => r_single((r.tone)(s), b, bgname(r.bg2, s).map(|n| ref_tone(role(n), s)), cv(s, r.curve.unwrap()), dec, r.isbg, 0.0),
    }
}
fn curve_eq(c: &Option<ContrastCurve>, e: Option<[f64; 4]>) -> bool {
    match (c, e) {
        (None, None) => true,
        (Some(c), Some(e)) => c.low == e[0] && c.normal == e[1] && c.medium == e[2] && c.high == e[3],
        _ => false,
    }
}
/// everything C18 says about one role in one scheme
fn role_spec(r: &Role, s: &DS) -> R {
    let d = (r.mk)();
    let w = |m: String| format!("{}: {} (variant {:?} dark {} level {:?} source {:#x})", r.name, m, s.variant, s.is_dark, s.contrast_level, s.source_color_argb);
    ck(d.name == r.name, || w(format!("name {:?}", d.name)))?;
    ck(d.is_background == r.isbg, || w("is_background".into()))?;
    ck(std::ptr::eq((d.palette)(s), pal(s, r.pal)), || w(format!("palette is not number {}", r.pal)))?;
    let t = (d.tone)(s);
    ck((t - (r.tone)(s)).abs() <= 1e-6, || w(format!("base tone {:?}, specified {:?}", t, (r.tone)(s))))?;
    let b = d.background.as_ref().map(|f| f(s).name);
    ck(b.as_deref() == bgname(r.bg, s), || w(format!("background {:?}", b)))?;
    let b = d.second_background.as_ref().map(|f| f(s).name);
    ck(b.as_deref() == bgname(r.bg2, s), || w(format!("second background {:?}", b)))?;
    ck(curve_eq(&d.contrast_curve, r.curve), || w("contrast curve".into()))?;
    match (&d.tone_delta_pair, r.pair) {
        (None, None) => {}
        (Some(p), Some((a, b, pol, stay))) => {
            let p = p(s);
            let pi = match p.polarity {
                TonePolarity::Darker => 0,
                TonePolarity::Lighter => 1,
                TonePolarity::Nearer => 2,
                TonePolarity::Farther => 3,
            };
            ck(p.role_a.name == a && p.role_b.name == b && p.delta == 10.0 && pi == pol && p.stay_together == stay, || w(format!("pair {} {} {} {} {}", p.role_a.name, p.role_b.name, p.delta, pi, p.stay_together)))?;
            for (q, n) in [(&p.role_a, a), (&p.role_b, b)] {
                ck(curve_eq(&q.contrast_curve, role(n).curve) && ((q.tone)(s) - (role(n).tone)(s)).abs() <= 1e-6, || w(format!("paired role {}", n)))?;
            }
        }
        _ => return Err(w("tone delta pair".into())),
    }
    Ok(())
}
fn mk_custom(v: usize, x: i64, dark: bool, level: f64, hs: &[f64]) -> DS {
    let p = |i: usize| TP::of(hs[2 * i], hs[2 * i + 1]);
    DS::new(x, variant(v), Some(level), dark, p(0), p(1), p(2), p(3), p(4))
}
// args: variant argb dark level
fn spec(a: &[V]) -> R {
    let s = scheme(a[0].i() as usize, a[1].i(), a[2].b(), a[3].f());
    let hs = M::highest_surface(&s).name;
    ck(hs == if s.is_dark { "surface_bright" } else { "surface_dim" }, || format!("highest surface {}", hs))?;
    for r in roles() {
        role_spec(r, &s)?;
    }
    Ok(())
}
fn spec_custom(a: &[V]) -> R {
    let s = mk_custom(a[0].i() as usize, a[1].i(), a[2].b(), a[3].f(), a[4].fl());
    for r in roles() {
        role_spec(r, &s)?;
    }
    Ok(())
}
fn getters(a: &[V]) -> R {
    let s = if a.len() > 4 { mk_custom(a[0].i() as usize, a[1].i(), a[2].b(), a[3].f(), a[4].fl()) } else { scheme(a[0].i() as usize, a[1].i(), a[2].b(), a[3].f()) };
    for r in roles() {
        let mut d = (r.mk)();
        let t = d.get_tone(&s);
        ck(t.is_finite(), || format!("{} tone {:?}", r.name, t))?;
        let e = pal(&s, r.pal).get_hct(t).to_int();
        let g = (r.get)(&s);
        ck(g == e, || format!("getter {} = {:#x}, palette {} at tone {:?} = {:#x}", r.name, g, r.pal, t, e))?;
        ck(d.get_argb(&s) == e && d.get_hct(&s).to_int() == e, || format!("{} argb/hct", r.name))?;
        let mut d = (r.mk)();
        ck(s.get_argb(&mut d) == e && s.get_hct(&mut d).to_int() == e, || format!("{} through the scheme", r.name))?;
        ck(d.get_argb(&s) == e, || format!("{} second query", r.name))?;
    }
    Ok(())
}
/// C09 on the Material roles themselves: resolved tones against the reference resolution
fn role_tones(a: &[V]) -> R {
    let s = scheme(a[0].i() as usize, a[1].i(), a[2].b(), a[3].f());
    for r in roles() {
        let t = (r.mk)().get_tone(&s);
        let e = ref_tone(r, &s);
        if (t - e).abs() <= 1e-6 {
            continue;
        }
        // stay quiet when a reference decision is within rounding of its threshold
        let near = [1e-7, -1e-7].iter().any(|d| {
            let mut q = s.clone();
            q.contrast_level += d;
            (ref_tone(r, &q) - t).abs() <= 1e-4
        });
        ck(near, || format!("{} resolves to tone {:?}, specified {:?}", r.name, t, e))?;
    }
    Ok(())
}
// ---- C10: one dynamic colour, many schemes
fn dyn_history(a: &[V]) -> R {
    let rs = roles();
    let r = &rs[a[0].i() as usize % rs.len()];
    let mut d = (r.mk)();
    let ss: Vec<DS> = a[1].il().iter().zip(a[2].fl()).map(|(i, l)| scheme((*i % 9) as usize, 0xff000000 | (i / 9 % 8) * 0x1f3a57, i / 72 % 2 == 1, *l)).collect();
    for i in a[3].il() {
        let s = &ss[*i as usize % ss.len()];
        let (x, y) = (d.get_hct(s), (r.mk)().get_hct(s));
        ck(x == y && (x.get_tone() - y.get_tone()).abs() < 1e-9, || format!("{} after history {:#x}, fresh {:#x}", r.name, x.to_int(), y.to_int()))?;
        ck(d.get_argb(s) == y.to_int(), || "argb".into())?;
    }
    Ok(())
}
// ---- C12
fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn eq_law<T: Hash + Eq>(what: &str, x: &T, y: &T, want: bool) -> R {
    #[allow(clippy::eq_op)]
    {
        ck(x == x && y == y, || format!("{} not reflexive", what))?;
    }
    ck((x == y) == want && (y == x) == want, || format!("{} == is {}, expected {}", what, x == y, want))?;
    if want {
        ck(h(x) == h(y), || format!("equal {} hash differently", what))?;
    }
    Ok(())
}
fn eq_hct(a: &[V]) -> R {
    let (x, y) = (Hct::from_int(a[0].i()), Hct::from(a[1].f(), a[2].f(), a[3].f()));
    eq_law("Hct", &x, &y, x.to_int() == y.to_int())?;
    let z = Hct::from(x.get_hue(), x.get_chroma(), x.get_tone());
    eq_law("Hct", &x, &z, x.to_int() == z.to_int())?;
    eq_law("Hct", &y, &Hct::from_int(y.to_int()), true)
}
fn eq_var(a: &[V]) -> R {
    let (i, j) = (a[0].i() as usize, a[1].i() as usize);
    eq_law("Variant", &variant(i), &variant(j), i == j)?;
    eq_law("Variant", &variant(i), &variant(i).clone(), true)
}
// two palettes (h,c) (h2,c2), with different lookups before
fn eq_pal(a: &[V]) -> R {
    let p = a[0].fl();
    let (mut x, mut y) = (TP::of(p[0], p[1]), TP::of(p[2], p[3]));
    let want = p[0] == p[2] && p[1] == p[3];
    eq_law("TonalPalette", &x, &y, want)?;
    for t in a[1].il() {
        x.get(*t);
    }
    for t in a[2].il() {
        y.get(*t);
    }
    eq_law("TonalPalette after lookups", &x, &y, want)?;
    eq_law("TonalPalette clone", &x, &x.clone(), true)?;
    let k = Hct::from(p[0], p[1], 50.0);
    let z = TP::from_hct(&k);
    eq_law("TonalPalette from_hct", &z, &TP::of(k.get_hue(), k.get_chroma()), true)
}
fn eq_list(a: &[V]) -> R {
    let (l, m) = (a[0].il(), a[1].il());
    let (mut x, mut y) = (TP::from_list(l), TP::from_list(m));
    eq_law("list palette", &x, &y, l == m)?;
    for t in a[2].il() {
        x.get(*t);
        y.get(*t + 1);
    }
    eq_law("list palette after lookups", &x, &y, l == m)?;
    let o = TP::of(x.hue, x.chroma);
    ck((o == x) == (x == o), || "palette equality not symmetric".into())
}
fn eq_scheme(a: &[V]) -> R {
    let s = scheme(a[0].i() as usize, a[1].i(), a[2].b(), a[3].f());
    let mut t = s.clone();
    eq_law("scheme clone", &s, &t, true)?;
    eq_law("scheme rebuilt", &s, &scheme(a[0].i() as usize, a[1].i(), a[2].b(), a[3].f()), true)?;
    t.contrast_level = if s.contrast_level == 0.0 { -0.0 } else { s.contrast_level };
    eq_law("scheme with same level", &s, &t, true)?;
    let f = |m: &str, e: fn(&mut DS)| -> R {
        let mut t = s.clone();
        e(&mut t);
        eq_law(m, &s, &t, false)?;
        let mut map = std::collections::HashMap::new();
        map.insert(s.clone(), 1);
        map.insert(t.clone(), 2);
        ck(map.get(&s) == Some(&1) && map.get(&t) == Some(&2), || format!("{} map lookup", m))
    };
    f("scheme, other darkness", |t| t.is_dark = !t.is_dark)?;
    f("scheme, other level", |t| t.contrast_level += 0.125)?;
    f("scheme, other variant", |t| t.variant = variant((vidx(&t.variant) + 1) % 9))?;
    f("scheme, other source", |t| {
        t.source_color_argb ^= 1;
    })?;
    f("scheme, other source hct", |t| t.source_color_hct = Hct::from_int(t.source_color_hct.to_int() ^ 1))?;
    f("scheme, other primary", |t| t.primary_palette.chroma += 1.0)?;
    f("scheme, other secondary", |t| t.secondary_palette.hue += 1.0)?;
    f("scheme, other tertiary", |t| t.tertiary_palette.chroma += 1.0)?;
    f("scheme, other neutral", |t| t.neutral_palette.hue += 1.0)?;
    f("scheme, other neutral variant", |t| t.neutral_variant_palette.chroma += 1.0)?;
    f("scheme, other error", |t| t.error_palette.hue += 1.0)
}
// ---- C14
fn rot(h: f64, hs: &[f64], rs: &[f64]) -> f64 {
    for i in 0..hs.len() - 1 {
        if hs[i] < h && h < hs[i + 1] {
            return norm(h + rs[i]);
        }
    }
    h
}
fn palettes(a: &[V]) -> R {
    let (v, x, dark, level) = (a[0].i() as usize, a[1].i(), a[2].b(), a[3].f());
    let s = scheme(v, x, dark, level);
    ck(s.source_color_argb == x && s.source_color_hct.to_int() == x && s.is_dark == dark && s.contrast_level == level && vidx(&s.variant) == v, || "inputs not kept".into())?;
    let src = Hct::from_int(x);
    let (h, c) = (src.get_hue(), src.get_chroma());
    let ex_h = [0.0, 21.0, 51.0, 121.0, 151.0, 191.0, 271.0, 321.0, 360.0];
    let vi_h = [0.0, 41.0, 61.0, 101.0, 131.0, 181.0, 251.0, 301.0, 360.0];
    let f2 = (c - 32.0).max(c * 0.5);
    let last = |hct: &Hct| {
        let f = DislikeAnalyzer::fix_if_disliked(hct);
        (f.get_hue(), f.get_chroma())
    };
    let e: [(f64, f64); 6] = match v {
        0 => [(h, 0.0), (h, 0.0), (h, 0.0), (h, 0.0), (h, 0.0), (25.0, 84.0)],
        1 => [(h, 12.0), (h, 8.0), (h, 16.0), (h, 2.0), (h, 2.0), (25.0, 84.0)],
        2 => [(h, 36.0), (h, 16.0), (norm(h + 60.0), 24.0), (h, 6.0), (h, 8.0), (25.0, 84.0)],
        3 => [(h, 200.0), (rot(h, &vi_h, &[18.0, 15.0, 10.0, 12.0, 15.0, 18.0, 15.0, 12.0, 12.0]), 24.0), (rot(h, &vi_h, &[35.0, 30.0, 20.0, 25.0, 30.0, 35.0, 30.0, 25.0, 25.0]), 32.0), (h, 10.0), (h, 12.0), (25.0, 84.0)],
        4 => [(norm(h + 240.0), 40.0), (rot(h, &ex_h, &[45.0, 95.0, 45.0, 20.0, 45.0, 90.0, 45.0, 45.0, 45.0]), 24.0), (rot(h, &ex_h, &[120.0, 120.0, 20.0, 45.0, 20.0, 15.0, 20.0, 120.0, 120.0]), 32.0), (h + 15.0, 8.0), (h + 15.0, 12.0), (25.0, 84.0)],
        5 => [(h, c), (h, f2), last(TemperatureCache::new(src.clone()).analogous(Some(3), Some(6)).last().unwrap()), (h, c / 8.0), (h, c / 8.0 + 4.0), (25.0, 84.0)],
        6 => [(h, c), (h, f2), last(&TemperatureCache::new(src.clone()).get_complement()), (h, c / 8.0), (h, c / 8.0 + 4.0), (25.0, 84.0)],
        7 => [(h, 48.0), (h, 16.0), (norm(h + 60.0), 24.0), (h, 0.0), (h, 0.0), (25.0, 84.0)],
        _ => [(norm(h - 50.0), 48.0), (norm(h - 50.0), 36.0), (h, 36.0), (h, 10.0), (h, 16.0), (25.0, 84.0)],
    };
    for i in 0..6 {
        let p = pal(&s, i);
        ck(hdist(p.hue, e[i].0) <= 1e-9 && (p.chroma - e[i].1).abs() <= 1e-9, || format!("{} palette {} is ({:?},{:?}), specified ({:?},{:?})", VARIANTS[v], i, p.hue, p.chroma, e[i].0, e[i].1))?;
        let rotated = matches!((v, i), (2, 2) | (3, 1) | (3, 2) | (4, 0) | (4, 1) | (4, 2) | (7, 2) | (8, 0) | (8, 1));
        if rotated {
            ck(p.hue >= 0.0 && p.hue < 360.0, || format!("hue {:?}", p.hue))?;
        }
        let mut q = p.clone();
        let mut z = TP::of(p.hue, p.chroma);
        let t = (x % 101).abs();
        ck(q.get(t) == z.get(t), || format!("palette {} tone {}", i, t))?;
    }
    Ok(())
}
/// every colour with about the given hue and chroma
fn palettes_at(a: &[V]) -> R {
    for t in 0..101 {
        for c in [a[2].f(), 16.0, 48.0] {
            let x = Hct::from(a[1].f(), c.clamp(0.0, 200.0), t as f64).to_int();
            palettes(&[a[0].clone(), V::I(x), a[3].clone(), a[4].clone()])?;
        }
    }
    Ok(())
}
// ---- C15
fn rotated(a: &[V]) -> R {
    let src = Hct::from_int(a[0].i());
    let h = src.get_hue();
    let (hs, rs) = (a[1].fl(), a[2].fl());
    if hs.len() != rs.len() {
        let r = std::panic::catch_unwind(|| DS::get_rotated_hue(&src, hs, rs));
        return ck(r.is_err(), || "different lengths accepted".into());
    }
    let x = DS::get_rotated_hue(&src, hs, rs);
    let e = if rs.len() == 1 {
        norm(h + rs[0])
    } else if hs.is_empty() {
        h
    } else {
        rot(h, hs, rs)
    };
    ck(x >= 0.0 && x < 360.0 && hdist(x, e) <= 1e-9, || format!("rotated hue of {:?} = {:?}, expected {:?}", h, x, e))
}
fn gen_scheme(g: &mut G) -> Vec<V> {
    vec![V::I(g.r.range(0, 8)), V::I(g.argb()), V::I(g.r.range(0, 1)), V::F(g.level())]
}
fn gen_custom(g: &mut G) -> Vec<V> {
    let mut v = gen_scheme(g);
    v.push(V::FL((0..10).map(|i| if i % 2 == 0 { g.hue() } else { g.chroma() }).collect()));
    v
}
fn gen_bps(g: &mut G) -> Vec<V> {
    let x = g.argb();
    let h = Hct::from_int(x).get_hue();
    let n = match g.r.below(6) {
        0 => g.r.range(0, 3),
        _ => g.r.range(1, 12),
    };
    let mut hs: Vec<f64> = (0..n)
        .map(|_| match g.r.below(8) {
            0 => h,
            1 => nudge(h, g.r.range(-2, 2)),
            2 => g.fin(-60.0, 420.0),
            _ => g.hue(),
        })
        .collect();
    if g.r.below(5) != 0 {
        hs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    }
    let m = if g.r.below(12) == 0 { g.r.range(0, 12) } else { n };
    vec![V::I(x), V::FL(hs), V::FL((0..m).map(|_| g.fin(-400.0, 400.0)).collect())]
}
fn tones_list(g: &mut G) -> Vec<i64> {
    (0..g.r.range(0, 4)).map(|_| g.r.range(0, 100)).collect()
}
pub fn kinds(v: &mut Vec<Kind>) {
    use Src::*;
    v.push(k("C09", "single", Rand(600_000, 20_000_000, |g| vec![V::F(g.level()), V::I(g.r.range(0, 1)), V::F(g.tone()), V::I(g.r.range(0, 1)), V::F(g.tone()), V::FL(curve_gen(g)), V::I(g.r.range(0, 1)), V::F(g.tone())]), single));
    v.push(k("C09", "single_close", Rand(300_000, 10_000_000, |g| {
        // two backgrounds close to each other, as fixed and fixed dim are
        let b = g.tone();
        let b2 = (b + g.fin(-15.0, 15.0)).clamp(0.0, 100.0);
        vec![V::F(g.level()), V::I(g.r.range(0, 1)), V::F(g.tone()), V::I(0), V::F(b), V::FL(curve_gen(g)), V::I(1), V::F(b2)]
    }), single));
    v.push(k("C09", "pair", Rand(600_000, 20_000_000, |g| vec![V::F(g.level()), V::I(g.r.range(0, 1)), V::FL(vec![g.tone(), g.tone(), g.tone(), if g.r.coin() { 10.0 } else { g.fin(0.0, 40.0) }]), V::I(g.r.range(0, 3)), V::I(g.r.range(0, 1)), V::FL(curve_gen(g)), V::FL(curve_gen(g))]), pair));
    v.push(k("C09", "material_roles", Rand(1_500, 60_000, gen_scheme), role_tones));
    v.push(k("C10", "dynamic_history", Rand(400, 10_000, |g| {
        let n = g.r.range(1, 9);
        let x: Vec<i64> = (0..n).map(|_| g.r.range(0, 143)).collect();
        let l: Vec<f64> = (0..n).map(|_| g.level()).collect();
        let q = (0..g.r.range(1, 24)).map(|_| g.r.range(0, n - 1)).collect();
        vec![V::I(g.r.range(0, 54)), V::IL(x), V::FL(l), V::IL(q)]
    }), dyn_history));
    v.push(k("C10", "dynamic_near", Rand(1_500, 40_000, |g| {
        // schemes that differ in little: contrast level by a hair, or darkness, variant or source alone
        let (i, l) = (g.r.range(0, 143), g.level());
        let mut x = vec![i; 4];
        let mut ls = vec![l; 4];
        for n in 1..4 {
            match g.r.below(6) {
                0 => x[n] = (i + 72) % 144,
                1 => x[n] = i / 9 * 9 + g.r.range(0, 8),
                2 => x[n] = (i + 9 * g.r.range(1, 7)) % 144,
                _ => ls[n] = l + *g.r.pick(&[1e-1, 1e-2, 4e-3, 1e-3, 4e-4, 1e-5, -1e-3, -1e-2, -4e-3]),
            }
        }
        let q = (0..8).map(|_| g.r.range(0, 3)).collect();
        vec![V::I(g.r.range(0, 54)), V::IL(x), V::FL(ls), V::IL(q)]
    }), dyn_history));
    v.push(k("C12", "hct", Rand(200_000, 5_000_000, |g| vec![V::I(g.argb()), V::F(g.hue()), V::F(g.chroma()), V::F(g.tone())]), eq_hct));
    v.push(k("C12", "variant", All(81, |i| vec![V::I((i % 9) as i64), V::I((i / 9) as i64)]), eq_var));
    v.push(k("C12", "palette", Rand(8_000, 100_000, |g| {
        let mut p = vec![g.hue(), g.chroma()];
        match g.r.below(5) {
            0 => p.extend([p[0], p[1]]),
            1 => p.extend([p[0], g.chroma()]),
            2 => p.extend([g.hue(), p[1]]),
            3 => p.extend([nudge(p[0], 1), p[1]]),
            _ => {
                let z = if g.r.coin() { 0.0 } else { -0.0 };
                p[1] = z;
                p.extend([p[0], -z]);
            }
        }
        vec![V::FL(p), V::IL(tones_list(g)), V::IL(tones_list(g))]
    }), eq_pal));
    v.push(k("C12", "list_palette", Rand(4_000, 80_000, |g| {
        let l: Vec<i64> = (0..13).map(|_| g.argb()).collect();
        let mut m = l.clone();
        if g.r.coin() {
            let i = g.r.below(13) as usize;
            m[i] = g.argb();
        }
        vec![V::IL(l), V::IL(m), V::IL(tones_list(g))]
    }), eq_list));
    v.push(k("C12", "scheme", Rand(1_000, 20_000, gen_scheme), eq_scheme));
    v.push(k("C14", "palettes", Rand(6_000, 200_000, gen_scheme), palettes));
    v.push(k("C14", "palettes_hue", Rand(6_000, 200_000, |g| {
        let mut v = gen_scheme(g);
        v[1] = V::I(Hct::from(g.hue(), g.chroma(), g.tone()).to_int());
        v
    }), palettes));
    v.push(k("C14", "palettes_at", Replay, palettes_at));
    v.push(k("C15", "rotated_hue", Rand(400_000, 10_000_000, gen_bps), rotated));
    v.push(k("C17", "getters", Rand(600, 20_000, gen_scheme), getters));
    v.push(k("C17", "getters_custom", Rand(600, 20_000, gen_custom), getters));
    v.push(k("C18", "role_table", Rand(1_500, 40_000, gen_scheme), spec));
    v.push(k("C18", "role_table_custom", Rand(1_500, 40_000, gen_custom), spec_custom));
}
