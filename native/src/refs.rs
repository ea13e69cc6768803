//! Reference formulas, written from the published definitions (CIE L*, sRGB,
//! WCAG contrast, Material's dynamic colour rules), not from the code under test.
pub const E: f64 = 216.0 / 24389.0;
pub const KAPPA: f64 = 24389.0 / 27.0;

pub fn y_of(l: f64) -> f64 {
    if l > 8.0 {
        100.0 * ((l + 16.0) / 116.0).powi(3)
    } else {
        100.0 * l / KAPPA
    }
}
pub fn l_of(y: f64) -> f64 {
    let t = y / 100.0;
    if t > E {
        116.0 * t.cbrt() - 16.0
    } else {
        KAPPA * t
    }
}
pub fn clamp(x: f64, a: f64, b: f64) -> f64 {
    if x < a {
        a
    } else if x > b {
        b
    } else {
        x
    }
}
pub fn ratio(a: f64, b: f64) -> f64 {
    let (ya, yb) = (y_of(clamp(a, 0.0, 100.0)), y_of(clamp(b, 0.0, 100.0)));
    (ya.max(yb) + 5.0) / (ya.min(yb) + 5.0)
}
pub fn lin(c: i64) -> f64 {
    let n = c as f64 / 255.0;
    if n <= 0.040449936 {
        n / 12.92 * 100.0
    } else {
        ((n + 0.055) / 1.055).powf(2.4) * 100.0
    }
}
pub fn lstar_argb(x: i64) -> f64 {
    let y = 0.2126 * lin((x >> 16) & 255) + 0.7152 * lin((x >> 8) & 255) + 0.0722 * lin(x & 255);
    l_of(y)
}
pub fn curve(c: [f64; 4], l: f64) -> f64 {
    let seg = |a: f64, b: f64, t: f64| a + (b - a) * t;
    if l <= -1.0 {
        c[0]
    } else if l < 0.0 {
        seg(c[0], c[1], l + 1.0)
    } else if l < 0.5 {
        seg(c[1], c[2], l / 0.5)
    } else if l < 1.0 {
        seg(c[2], c[3], (l - 0.5) / 0.5)
    } else {
        c[3]
    }
}
/// exact tone whose luminance makes `ratio` with `tone`, lighter side
pub fn exact_lighter(tone: f64, ratio: f64) -> f64 {
    l_of(ratio * (y_of(tone) + 5.0) - 5.0)
}
pub fn exact_darker(tone: f64, ratio: f64) -> f64 {
    let y = (y_of(tone) + 5.0) / ratio - 5.0;
    if y < 0.0 {
        KAPPA * y / 100.0
    } else {
        l_of(y)
    }
}
pub fn ref_lighter(tone: f64, ratio: f64) -> f64 {
    let v = exact_lighter(tone, ratio) + 0.4;
    if v > 100.0 {
        -1.0
    } else {
        v
    }
}
pub fn ref_darker(tone: f64, ratio: f64) -> f64 {
    let v = exact_darker(tone, ratio) - 0.4;
    if v < 0.0 {
        -1.0
    } else {
        v
    }
}
pub fn prefers_light(t: f64) -> bool {
    t.round() < 60.0
}
pub fn ref_foreground(bg: f64, r: f64) -> f64 {
    let l = ref_lighter(bg, r);
    let l = if l < 0.0 { 100.0 } else { l };
    let d = ref_darker(bg, r);
    let d = if d < 0.0 { 0.0 } else { d };
    let (lr, dr) = (ratio(l, bg), ratio(d, bg));
    if prefers_light(bg) {
        let negl = (lr - dr).abs() < 0.1 && lr < r && dr < r;
        if lr >= r || lr >= dr || negl {
            l
        } else {
            d
        }
    } else if dr >= r || dr >= lr {
        d
    } else {
        l
    }
}
pub fn norm(h: f64) -> f64 {
    let r = h.rem_euclid(360.0);
    if r >= 360.0 {
        0.0
    } else {
        r
    }
}
