use crate::core::*;
use crate::refs;
use material_color_utilities_rs::{
    contrast::contrast::Contrast,
    dynamiccolor::{dynamic_color::DynamicColor, src::contrast_curve::ContrastCurve},
    utils::{color_utils::ColorUtils as CU, math_utils::MathUtils as MU, string_utils::StringUtils as SU},
};

fn unpack(a: &[V]) -> R {
    let x = a[0].i();
    let b = |s: u32| ((x as u64) >> s & 255) as i64;
    ck(CU::alpha_from_argb(x) == b(24), || format!("alpha {}", CU::alpha_from_argb(x)))?;
    ck(CU::red_from_argb(x) == b(16), || format!("red {}", CU::red_from_argb(x)))?;
    ck(CU::green_from_argb(x) == b(8), || format!("green {}", CU::green_from_argb(x)))?;
    ck(CU::blue_from_argb(x) == b(0), || format!("blue {}", CU::blue_from_argb(x)))?;
    ck(CU::is_opaque(x) == (b(24) == 255), || "is_opaque".into())?;
    if opaque(x) {
        ck(CU::argb_from_rgb(b(16), b(8), b(0)) == x, || "repack".into())?;
    }
    Ok(())
}
fn pack(a: &[V]) -> R {
    let (r, g, b) = (a[0].i(), a[1].i(), a[2].i());
    let e = 0xff000000 + (r & 255) * 65536 + (g & 255) * 256 + (b & 255);
    let x = CU::argb_from_rgb(r, g, b);
    ck(x == e, || format!("argb_from_rgb = {:#x}, expected {:#x}", x, e))
}
fn sanitize(a: &[V]) -> R {
    let d = a[0].f();
    let x = MU::sanitize_degrees_double(d);
    ck(x >= 0.0 && x < 360.0, || format!("sanitize_degrees_double({:?}) = {:?} outside [0,360)", d, x))?;
    if d >= 0.0 && d < 360.0 {
        ck(x == d, || format!("changed an angle in range to {:?}", x))?;
    }
    let rem = d % 360.0;
    let e = if rem < 0.0 { rem + 360.0 } else { rem };
    ck(hdist(x, e) <= 1e-9, || format!("not congruent: {:?} vs {:?}", x, e))
}
fn sanitize_i(a: &[V]) -> R {
    let d = a[0].i();
    let x = MU::sanitize_degrees_int(d);
    ck(x == d.rem_euclid(360), || format!("sanitize_degrees_int = {}", x))
}
fn clampi(a: &[V]) -> R {
    let (lo, hi, x) = (a[0].i(), a[1].i(), a[2].i());
    let r = MU::clamp_int(lo, hi, x);
    ck(r == x.max(lo).min(hi), || format!("clamp_int = {}", r))
}
fn clampf(a: &[V]) -> R {
    let (lo, hi, x) = (a[0].f(), a[1].f(), a[2].f());
    let r = MU::clamp_double(lo, hi, x);
    ck(r == x.max(lo).min(hi), || format!("clamp_double = {:?}", r))
}
fn signum(a: &[V]) -> R {
    let x = a[0].f();
    let e = if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 };
    ck(MU::signum(x) == e, || format!("signum = {}", MU::signum(x)))
}
fn lerp(a: &[V]) -> R {
    let (s, e, t) = (a[0].f(), a[1].f(), a[2].f());
    ck(close(MU::lerp(s, e, 0.0), s, 1e-12) && close(MU::lerp(s, e, 1.0), e, 1e-12), || "lerp end points".into())?;
    let x = MU::lerp(s, e, t);
    let y = (1.0 - t) * s + t * e;
    let tol = 1e-9 * (1.0 + s.abs() + e.abs()) * (1.0 + t.abs());
    ck((x - y).abs() <= tol, || format!("lerp = {:?} expected {:?}", x, y))
}
fn diff(a: &[V]) -> R {
    let (p, q) = (a[0].f(), a[1].f());
    let x = MU::difference_degrees(p, q);
    ck((x - hdist(p, q)).abs() <= 1e-9, || format!("difference_degrees = {:?}, shorter arc {:?}", x, hdist(p, q)))?;
    ck((x - MU::difference_degrees(q, p)).abs() <= 1e-9, || "asymmetric".into())?;
    ck((-1e-9..=180.0 + 1e-9).contains(&x), || format!("range {:?}", x))
}
fn rotdir(a: &[V]) -> R {
    let (p, q) = (a[0].f(), a[1].f());
    let inc = refs::norm(q - p);
    let x = MU::rotation_direction(p, q);
    ck(x == 1.0 || x == -1.0, || format!("rotation_direction = {:?}", x))?;
    let exact = inc <= 180.0;
    if (inc - 180.0).abs() > 1e-9 && inc < 360.0 - 1e-9 && inc > 1e-9 || inc == 180.0 || inc == 0.0 {
        ck((x == 1.0) == exact, || format!("rotation_direction({:?},{:?}) = {:?}, increasing difference {:?}", p, q, x, inc))?;
    }
    Ok(())
}
fn matmul(a: &[V]) -> R {
    let (r, m) = (a[0].fl(), a[1].fl());
    let mm: Vec<Vec<f64>> = m.chunks(3).map(|c| c.to_vec()).collect();
    let o = MU::matrix_multiply(r.clone(), mm.clone());
    ck(o.len() == 3, || "length".into())?;
    for i in 0..3 {
        let e = r[0] * mm[i][0] + r[1] * mm[i][1] + r[2] * mm[i][2];
        let mag: f64 = (0..3).map(|j| (r[j] * mm[i][j]).abs()).sum();
        ck((o[i] - e).abs() <= 1e-12 * mag + 1e-300, || format!("row {} = {:?}, expected {:?}", i, o[i], e))?;
    }
    Ok(())
}

// ---- C04
fn lstar_y(a: &[V]) -> R {
    let l = a[0].f();
    let y = CU::y_from_lstar(l);
    ck(y >= 0.0 && y <= 100.0 + 1e-9, || format!("y_from_lstar = {:?}", y))?;
    ck((y - refs::y_of(l)).abs() <= 1e-9, || format!("y_from_lstar = {:?}, CIE {:?}", y, refs::y_of(l)))?;
    let b = CU::lstar_from_y(y);
    ck((b - l).abs() <= 1e-9, || format!("back to L* {:?}", b))?;
    let l2 = a[1].f();
    let (lo, hi) = if l <= l2 { (l, l2) } else { (l2, l) };
    ck(CU::y_from_lstar(lo) <= CU::y_from_lstar(hi) + 1e-12, || format!("y_from_lstar not monotone at {:?} {:?}", lo, hi))
}
fn y_lstar(a: &[V]) -> R {
    let y = a[0].f();
    let l = CU::lstar_from_y(y);
    ck(l >= -1e-9 && l <= 100.0 + 1e-9, || format!("lstar_from_y = {:?}", l))?;
    ck((l - refs::l_of(y)).abs() <= 1e-9, || format!("lstar_from_y = {:?}, CIE {:?}", l, refs::l_of(y)))?;
    let b = CU::y_from_lstar(l);
    ck((b - y).abs() <= 1e-9, || format!("back to Y {:?}", b))?;
    let y2 = a[1].f();
    let (lo, hi) = if y <= y2 { (y, y2) } else { (y2, y) };
    ck(CU::lstar_from_y(lo) <= CU::lstar_from_y(hi) + 1e-9, || "lstar_from_y not monotone".into())
}
fn channel(a: &[V]) -> R {
    let c = a[0].i();
    let x = CU::linearized(c);
    ck((x - refs::lin(c)).abs() <= 1e-9 && x >= 0.0 && x <= 100.0, || format!("linearized = {:?}", x))?;
    if c > 0 {
        ck(CU::linearized(c - 1) < x, || "linearized not increasing".into())?;
    }
    ck(CU::delinearized(x) == c, || format!("delinearized(linearized({})) = {}", c, CU::delinearized(x)))
}
fn delin(a: &[V]) -> R {
    let x = a[0].f();
    let d = CU::delinearized(x);
    ck((0..=255).contains(&d), || format!("delinearized = {}", d))?;
    let n = x / 100.0;
    let t = if n <= 0.0031308 { n * 12.92 } else { 1.055 * n.powf(1.0 / 2.4) - 0.055 };
    let v = refs::clamp(t * 255.0, 0.0, 255.0);
    ck((d as f64 - v).abs() <= 0.5 + 1e-6, || format!("delinearized = {}, sRGB {:?}", d, v))
}
fn argb_conv(a: &[V]) -> R {
    let x = a[0].i();
    let l = CU::lstar_from_argb(x);
    ck((0.0..=100.0).contains(&l) && (l - refs::lstar_argb(x)).abs() <= 1e-9, || format!("lstar_from_argb = {:?}, expected {:?}", l, refs::lstar_argb(x)))?;
    let xyz = CU::xyz_from_argb(x);
    ck((xyz[1] - refs::y_of(refs::lstar_argb(x))).abs() <= 1e-9, || format!("Y {:?}", xyz[1]))?;
    let b = CU::argb_from_xyz(xyz[0], xyz[1], xyz[2]);
    ck(b == x, || format!("argb_from_xyz(xyz_from_argb) = {:#x}", b))?;
    let lab = CU::lab_from_argb(x);
    ck((lab[0] - l).abs() <= 1e-9, || format!("lab L {:?}", lab[0]))?;
    let b = CU::argb_from_lab(lab[0], lab[1], lab[2]);
    ck(b == x, || format!("argb_from_lab(lab_from_argb) = {:#x}", b))
}
fn lin_rgb(a: &[V]) -> R {
    let x = a[0].i();
    let v = vec![refs::lin(x >> 16 & 255), refs::lin(x >> 8 & 255), refs::lin(x & 255)];
    let b = CU::argb_from_linrgb(v);
    ck(b == x, || format!("argb_from_linrgb = {:#x}", b))
}
fn grey(a: &[V]) -> R {
    let l = a[0].f();
    let x = CU::argb_from_lstar(l);
    ck(opaque(x) && (x >> 16 & 255) == (x & 255) && (x >> 8 & 255) == (x & 255), || format!("argb_from_lstar = {:#x}", x))?;
    ck((refs::lstar_argb(x) - l).abs() <= 0.5, || format!("L* of grey = {:?}", refs::lstar_argb(x)))
}
// ---- C05..C08
fn ratio(a: &[V]) -> R {
    let (p, q) = (a[0].f(), a[1].f());
    let r = Contrast::ratio_of_tones(p, q);
    ck(close(r, refs::ratio(p, q), 1e-9), || format!("ratio_of_tones = {:?}, WCAG {:?}", r, refs::ratio(p, q)))?;
    ck(close(r, Contrast::ratio_of_tones(q, p), 1e-9), || "asymmetric".into())?;
    ck(r >= 1.0 - 1e-9 && r <= 21.0 + 1e-9, || format!("range {:?}", r))?;
    ck(Contrast::ratio_of_tones(p, p) == 1.0, || "equal tones".into())
}
fn lighter(a: &[V]) -> R {
    let (t, r) = (a[0].f(), a[1].f());
    let x = Contrast::lighter(t, r);
    let u = Contrast::lighter_unsafe(t, r);
    ck(u == if x < 0.0 { 100.0 } else { x }, || format!("lighter {:?} lighter_unsafe {:?}", x, u))?;
    if t < 0.0 || t > 100.0 {
        return ck(x == -1.0, || format!("lighter of a tone out of range = {:?}", x));
    }
    let e = refs::exact_lighter(t, r) + 0.4;
    if x == -1.0 {
        ck(e > 100.0 - 1e-6, || format!("lighter = -1 although {:?} would do", e))
    } else {
        ck((0.0..=100.0).contains(&x) && x >= t - 1e-9, || format!("lighter = {:?}", x))?;
        ck(refs::ratio(x, t) >= r - 1e-9, || format!("contrast {:?}", refs::ratio(x, t)))?;
        ck(x - (e - 0.4) <= 0.41, || format!("lighter = {:?}, exact {:?}", x, e - 0.4))
    }
}
fn darker(a: &[V]) -> R {
    let (t, r) = (a[0].f(), a[1].f());
    let x = Contrast::darker(t, r);
    let u = Contrast::darker_unsafe(t, r);
    ck(u == if x < 0.0 { 0.0 } else { x }, || format!("darker {:?} darker_unsafe {:?}", x, u))?;
    if t < 0.0 || t > 100.0 {
        return ck(x == -1.0, || format!("darker of a tone out of range = {:?}", x));
    }
    let e = refs::exact_darker(t, r) - 0.4;
    if x == -1.0 {
        ck(e < 1e-6, || format!("darker = -1 although {:?} would do", e))
    } else {
        ck((0.0..=100.0).contains(&x) && x <= t + 1e-9, || format!("darker = {:?}", x))?;
        ck(refs::ratio(x, t) >= r - 1e-9, || format!("contrast {:?}", refs::ratio(x, t)))?;
        ck((e + 0.4) - x <= 0.41, || format!("darker = {:?}, exact {:?}", x, e + 0.4))
    }
}
fn ccurve(a: &[V]) -> R {
    let k = a[0].fl();
    let l = a[1].f();
    let c = ContrastCurve::new(k[0], k[1], k[2], k[3]);
    ck(c.low == k[0] && c.normal == k[1] && c.medium == k[2] && c.high == k[3], || "knots".into())?;
    for (l, e) in [(-1.0, k[0]), (0.0, k[1]), (0.5, k[2]), (1.0, k[3]), (-1e9, k[0]), (1e9, k[3])] {
        ck(c.get(l) == e, || format!("get({}) = {:?}", l, c.get(l)))?;
    }
    let e = refs::curve([k[0], k[1], k[2], k[3]], l);
    let x = c.get(l);
    let mag = k.iter().fold(1.0f64, |m, v| m.max(v.abs()));
    ck((x - e).abs() <= 1e-9 * mag, || format!("get({:?}) = {:?}, expected {:?}", l, x, e))
}
fn foreground(a: &[V]) -> R {
    let (bg, r) = (a[0].f(), a[1].f());
    let x = DynamicColor::foreground_tone(bg, r);
    ck((0.0..=100.0).contains(&x), || format!("foreground_tone = {:?}", x))?;
    let (w, b) = (refs::ratio(100.0, bg), refs::ratio(0.0, bg));
    let g = refs::ratio(x, bg);
    if w >= r + 1e-9 || b >= r + 1e-9 {
        ck(g >= r - 1e-9, || format!("foreground_tone({:?},{:?}) = {:?} contrast {:?}; white {:?} black {:?}", bg, r, x, g, w, b))?;
    }
    if w < r - 1e-9 && b < r - 1e-9 {
        ck(x == 0.0 || x == 100.0, || format!("unattainable, but {:?}", x))?;
        ck(g >= w.max(b) - 0.1 - 1e-9, || format!("contrast {:?} of best {:?}", g, w.max(b)))?;
    }
    let near = (bg.fract() - 0.5).abs() < 1e-9;
    if !near {
        if refs::prefers_light(bg) && w >= r + 1e-9 {
            ck(x > bg - 1e-9, || format!("light foreground expected, got {:?} on {:?}", x, bg))?;
        }
        if !refs::prefers_light(bg) && b >= r + 1e-9 {
            ck(x < bg + 1e-9, || format!("dark foreground expected, got {:?} on {:?}", x, bg))?;
        }
    }
    Ok(())
}
fn light_fg(a: &[V]) -> R {
    let t = a[0].f();
    let (p, al) = (t.round() < 60.0, t.round() <= 49.0);
    ck(DynamicColor::tone_prefers_light_foreground(t) == p, || "prefers".into())?;
    ck(DynamicColor::tone_allows_light_foreground(t) == al, || "allows".into())?;
    let e = if p && !al { 49.0 } else { t };
    ck(DynamicColor::enable_light_foreground(t) == e, || format!("enable_light_foreground = {:?}", DynamicColor::enable_light_foreground(t)))
}
// ---- C28
fn hex(a: &[V]) -> R {
    let x = a[0].i();
    let e = format!("{:06X}", x & 0xffffff);
    for (flag, want) in [(None, format!("#{}", e)), (Some(true), format!("#{}", e)), (Some(false), e.clone())] {
        let s = SU::hex_from_argb(x, flag);
        ck(s == want, || format!("hex_from_argb({:?}) = {:?}, expected {:?}", flag, s, want))?;
        ck(SU::argb_from_hex(s.clone()) == Some(x & 0xffffff), || format!("argb_from_hex({:?}) = {:?}", s, SU::argb_from_hex(s.clone())))?;
    }
    Ok(())
}
fn parse_hex(a: &[V]) -> R {
    let s = a[0].s();
    let r = SU::argb_from_hex(s.to_string());
    let t = s.trim_start_matches('#');
    let digits = !t.is_empty() && t.chars().all(|c| c.is_ascii_hexdigit());
    if digits && t.len() <= 15 {
        let e = t.chars().fold(0i64, |v, c| v * 16 + c.to_digit(16).unwrap() as i64);
        ck(r == Some(e), || format!("argb_from_hex({:?}) = {:?}, expected {}", s, r, e))
    } else if !digits && !t.starts_with('+') && !t.starts_with('-') {
        ck(r.is_none(), || format!("argb_from_hex({:?}) = {:?}", s, r))
    } else {
        Ok(())
    }
}

pub fn kinds(v: &mut Vec<Kind>) {
    use Src::*;
    v.push(k("C01", "unpack", Rand(300_000, 20_000_000, |g| vec![V::I(g.anyint())]), unpack));
    v.push(k("C01", "unpack_all", Strided(1 << 32, 8_000_000, |i| vec![V::I(i as i64)]), unpack));
    v.push(k("C01", "pack", Rand(500_000, 20_000_000, |g| vec![V::I(g.anyint()), V::I(g.anyint()), V::I(g.anyint())]), pack));
    v.push(k("C01", "pack_bytes", Strided(1 << 24, 1 << 22, |i| vec![V::I(i as i64 >> 16 & 255), V::I(i as i64 >> 8 & 255), V::I(i as i64 & 255)]), pack));
    v.push(k("C03", "sanitize", Rand(3_000_000, 100_000_000, |g| vec![V::F(g.any())]), sanitize));
    v.push(k("C03", "sanitize_int", Rand(500_000, 20_000_000, |g| vec![V::I(g.anyint())]), sanitize_i));
    v.push(k("C03", "sanitize_int_small", All(20001, |i| vec![V::I(i as i64 - 10000)]), sanitize_i));
    v.push(k("C03", "clamp_int", Rand(300_000, 10_000_000, |g| {
        let (a, b) = (g.anyint(), g.anyint());
        vec![V::I(a.min(b)), V::I(a.max(b)), V::I(g.anyint())]
    }), clampi));
    v.push(k("C03", "clamp_double", Rand(300_000, 10_000_000, |g| {
        let (a, b) = (g.any(), g.any());
        vec![V::F(a.min(b)), V::F(a.max(b)), V::F(g.any())]
    }), clampf));
    v.push(k("C03", "signum", Rand(200_000, 5_000_000, |g| vec![V::F(g.any())]), signum));
    v.push(k("C03", "lerp", Rand(500_000, 20_000_000, |g| vec![V::F(g.fin(-1e4, 1e4)), V::F(g.fin(-1e4, 1e4)), V::F(g.fin(-2.0, 2.0))]), lerp));
    v.push(k("C03", "difference", Rand(1_000_000, 50_000_000, |g| vec![V::F(g.hue()), V::F(g.hue())]), diff));
    v.push(k("C03", "rotation", Rand(1_000_000, 50_000_000, |g| {
        if g.r.coin() {
            vec![V::F(g.hue()), V::F(g.hue())]
        } else {
            vec![V::F(g.fin(-720.0, 720.0)), V::F(g.fin(-720.0, 720.0))]
        }
    }), rotdir));
    v.push(k("C03", "matrix", Rand(200_000, 5_000_000, |g| vec![V::FL((0..3).map(|_| g.fin(-200.0, 200.0)).collect()), V::FL((0..9).map(|_| g.fin(-10.0, 10.0)).collect())]), matmul));
    v.push(k("C04", "lstar_y", Rand(3_000_000, 100_000_000, |g| {
        let l = g.tone();
        let l2 = if g.r.coin() { g.tone() } else { refs::clamp(nudge(l, g.r.range(-9, 9)), 0.0, 100.0) };
        vec![V::F(l), V::F(l2)]
    }), lstar_y));
    v.push(k("C04", "y_lstar", Rand(3_000_000, 100_000_000, |g| {
        let l = g.tone();
        let l = if g.r.coin() { l } else { l * g.r.u() * g.r.u() };
        let l2 = if g.r.coin() { g.tone() } else { refs::clamp(nudge(l, g.r.range(-9, 9)), 0.0, 100.0) };
        vec![V::F(l), V::F(l2)]
    }), y_lstar));
    v.push(k("C04", "channel", All(256, |i| vec![V::I(i as i64)]), channel));
    v.push(k("C04", "delinearized", Rand(1_000_000, 50_000_000, |g| vec![V::F(if g.r.below(4) == 0 { g.any() } else { g.fin(-5.0, 110.0) })]), delin));
    v.push(k("C04", "colours", All(1 << 24, |i| vec![V::I(0xff000000 + i as i64)]), argb_conv));
    v.push(k("C04", "linear_rgb", Strided(1 << 24, 1 << 20, |i| vec![V::I(0xff000000 + i as i64)]), lin_rgb));
    v.push(k("C04", "grey", Rand(1_000_000, 50_000_000, |g| vec![V::F(g.tone())]), grey));
    v.push(k("C05", "ratio", Rand(5_000_000, 200_000_000, |g| match g.r.below(4) {
        0 => vec![V::F(g.any()), V::F(g.any())],
        1 => vec![V::F(g.fin(-20.0, 120.0)), V::F(g.fin(-20.0, 120.0))],
        2 => {
            let t = g.tone();
            let j = g.r.range(-5, 5);
            vec![V::F(t), V::F(nudge(t, j))]
        }
        _ => vec![V::F(g.tone()), V::F(g.tone())],
    }), ratio));
    v.push(k("C06", "lighter", Rand(3_000_000, 100_000_000, |g| vec![V::F(if g.r.below(8) == 0 { g.any() } else { g.tone() }), V::F(g.ratio())]), lighter));
    v.push(k("C06", "darker", Rand(3_000_000, 100_000_000, |g| vec![V::F(if g.r.below(8) == 0 { g.any() } else { g.tone() }), V::F(g.ratio())]), darker));
    v.push(k("C06", "lighter_edge", Rand(500_000, 10_000_000, |g| {
        // ratios around the largest attainable one
        let t = g.tone();
        let m = refs::ratio(100.0, t);
        vec![V::F(t), V::F(refs::clamp(m - g.r.u() * 0.3 + 0.05, 1.0, 21.0))]
    }), lighter));
    v.push(k("C06", "darker_edge", Rand(500_000, 10_000_000, |g| {
        let t = g.tone();
        let m = refs::ratio(0.0, t);
        vec![V::F(t), V::F(refs::clamp(m - g.r.u() * 0.3 + 0.05, 1.0, 21.0))]
    }), darker));
    v.push(k("C07", "curve", Rand(3_000_000, 100_000_000, |g| {
        let w = if g.r.coin() { (0.0, 100.0) } else { (-1000.0, 1000.0) };
        let k: Vec<f64> = (0..4).map(|_| g.fin(w.0, w.1)).collect();
        let l = if g.r.below(8) == 0 { g.any() } else { g.level() };
        vec![V::FL(k), V::F(l)]
    }), ccurve));
    v.push(k("C08", "foreground", Rand(3_000_000, 100_000_000, |g| vec![V::F(g.tone()), V::F(g.ratio())]), foreground));
    v.push(k("C08", "foreground_edge", Rand(500_000, 10_000_000, |g| {
        let t = g.tone();
        let m = if g.r.coin() { refs::ratio(0.0, t) } else { refs::ratio(100.0, t) };
        vec![V::F(t), V::F(refs::clamp(m - g.r.u() * 0.3 + 0.05, 1.0, 21.0))]
    }), foreground));
    v.push(k("C08", "light_foreground", Rand(500_000, 10_000_000, |g| vec![V::F(g.fin(-10.0, 110.0))]), light_fg));
    v.push(k("C28", "hex", Strided(1 << 24, 1 << 22, |i| vec![V::I(0xff000000 + i as i64)]), hex));
    v.push(k("C28", "hex_any", Rand(300_000, 10_000_000, |g| vec![V::I(g.anyint())]), hex));
    v.push(k("C28", "parse", Rand(200_000, 30_000_000, |g| {
        let n = g.r.below(17);
        let mut s = String::new();
        for _ in 0..*g.r.pick(&[0, 0, 1, 1, 2]) {
            s.push('#');
        }
        let bad = g.r.below(3) == 0;
        for _ in 0..n {
            let c = if bad && g.r.below(6) == 0 { *g.r.pick(&[' ', 'g', 'G', 'x', '_', '#', 'é', '.', '-']) } else { *g.r.pick(&"0123456789abcdefABCDEF".chars().collect::<Vec<_>>()) };
            s.push(c);
        }
        vec![V::S(s)]
    }), parse_hex));
}
