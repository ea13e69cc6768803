use crate::core::*;
use material_color_utilities_rs::{hct::hct::Hct, temperature::temperature_cache::TemperatureCache as TC, utils::color_utils::ColorUtils as CU};

fn raw(h: &Hct) -> f64 {
    let lab = CU::lab_from_argb(h.to_int());
    let hue = crate::refs::norm(lab[2].atan2(lab[1]).to_degrees());
    let c = lab[1].hypot(lab[2]);
    -0.5 + 0.02 * c.powf(1.07) * (hue - 50.0).to_radians().cos()
}
fn table(h: &Hct) -> Vec<Hct> {
    (0..=360).map(|d| Hct::from(d as f64, h.get_chroma(), h.get_tone())).collect()
}
fn rawtemp(a: &[V]) -> R {
    let h = Hct::from_int(a[0].i());
    let (x, e) = (TC::raw_temperature(&h), raw(&h));
    ck((x - e).abs() <= 1e-9, || format!("raw temperature {:?}, Ou-Woodcock-Wright {:?}", x, e))
}
fn between(a: &[V]) -> R {
    let (x, p, q) = (a[0].f(), a[1].f(), a[2].f());
    if p == q {
        return Ok(());
    }
    // exact comparisons: the arc from p up to q, through 360 when p > q
    let e = if p < q { p <= x && x <= q } else { x >= p || x <= q };
    ck(TC::is_between(x, p, q) == e, || format!("is_between({:?},{:?},{:?}) = {}", x, p, q, !e))
}
// args: argb count divisions
fn temps(a: &[V]) -> R {
    let input = Hct::from_int(a[0].i());
    let (count, div) = (a[1].i(), a[2].i());
    let tab = table(&input);
    let mut all = tab.clone();
    all.push(input.clone());
    let ts: Vec<f64> = all.iter().map(TC::raw_temperature).collect();
    let (lo, hi) = (ts.iter().cloned().fold(f64::INFINITY, f64::min), ts.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
    let mut c = TC::new(input.clone());
    let analog = c.analogous(Some(count), Some(div));
    let comp = c.get_complement();
    let (cold, warm) = (TC::raw_temperature(&c.get_coldest()), TC::raw_temperature(&c.get_warmest()));
    ck(cold == lo && warm == hi, || format!("coldest {:?} of {:?}, warmest {:?} of {:?}", cold, lo, warm, hi))?;
    let range = hi - lo;
    let rel = |t: f64| if range == 0.0 { 0.5 } else { (t - lo) / range };
    for i in [0usize, 90, 180, 359, 360, 361] {
        let r = c.relative_temperature(&all[i]);
        ck((0.0..=1.0).contains(&r) && (r - rel(ts[i])).abs() <= 1e-9, || format!("relative temperature {:?} of {:#x}, expected {:?}", r, all[i].to_int(), rel(ts[i])))?;
    }
    let ri = c.get_input_relative_temperature();
    ck((ri - rel(ts[361])).abs() <= 1e-9, || format!("input relative temperature {:?}", ri))?;
    // sorted by temperature
    let bt = c.get_hcts_by_temp();
    ck(bt.windows(2).all(|w| TC::raw_temperature(&w[0]) <= TC::raw_temperature(&w[1])) && bt.len() == all.len(), || "colours by temperature".into())?;
    // analogous
    ck(analog.len() as i64 == count, || format!("{} analogous colours, {} asked", analog.len(), count))?;
    let mid = ((count - 1) / 2) as usize;
    ck(analog[mid] == input, || format!("index {} is {:#x}", mid, analog[mid].to_int()))?;
    for (i, h) in analog.iter().enumerate() {
        ck(i == mid || tab.contains(h), || format!("analogous colour {:#x} is not at a whole-degree hue", h.to_int()))?;
    }
    if let Some(seq) = steps(&input, &tab, div, &rel) {
        let n = seq.len() as i64;
        for (i, h) in analog.iter().enumerate() {
            let off = i as i64 - mid as i64;
            if off != 0 {
                let e = &tab[seq[off.rem_euclid(n) as usize]];
                ck(h == e, || format!("analogous colour {} is {:#x}, equal steps of temperature give {:#x}", i, h.to_int(), e.to_int()))?;
            }
        }
    }
    // complement
    ck(tab.contains(&comp), || format!("complement {:#x} is not at a whole-degree hue", comp.to_int()))?;
    let (ch, wh) = (c.get_coldest().get_hue(), c.get_warmest().get_hue());
    let btw = |x: f64, p: f64, q: f64| if p < q { p <= x && x <= q } else { p <= x || x <= q };
    let (s, e) = if btw(input.get_hue(), ch, wh) { (wh, ch) } else { (ch, wh) };
    if range > 0.0 {
        let err = |h: &Hct| (1.0 - ri - rel(TC::raw_temperature(h))).abs();
        let mut best = f64::INFINITY;
        for d in 0..360 {
            let hue = crate::refs::norm(s + d as f64);
            if btw(hue, s, e) {
                best = best.min(err(&tab[hue.round() as usize]));
            }
        }
        ck(best > 999.0 || (err(&comp) - best).abs() <= 1e-9, || format!("complement {:#x} misses the mirrored temperature by {:?}, best is {:?}", comp.to_int(), err(&comp), best))?;
    }
    // repeated queries
    ck(c.get_complement() == comp && c.analogous(Some(count), Some(div)) == analog, || "second query differs".into())?;
    let mut f = TC::new(input);
    ck(f.get_complement() == comp, || "complement depends on earlier queries".into())
}
/// hues at equal steps of accumulated temperature change, or None when rounding or repeats make it ambiguous
fn steps(input: &Hct, tab: &[Hct], div: i64, rel: &dyn Fn(f64) -> f64) -> Option<Vec<usize>> {
    let start = input.get_hue().round() as i64;
    let t = |h: i64| rel(TC::raw_temperature(&tab[h.rem_euclid(360) as usize]));
    let s0 = rel(TC::raw_temperature(&tab[start as usize]));
    let mut total = 0.0;
    let mut last = s0;
    for i in 0..360 {
        let x = t(start + i);
        total += (x - last).abs();
        last = x;
    }
    let step = total / div as f64;
    let mut out = vec![start as usize];
    let (mut acc, mut last) = (0.0, s0);
    for add in 1..=360 {
        if out.len() as i64 >= div {
            break;
        }
        let x = t(start + add);
        acc += (x - last).abs();
        last = x;
        let need = out.len() as f64 * step;
        if (acc - need).abs() < 1e-9 * (1.0 + total) {
            return None;
        }
        if acc > need {
            out.push((start + add).rem_euclid(360) as usize);
            if acc >= (out.len() as f64) * step * (1.0 - 1e-9) {
                return None;
            }
        }
    }
    if out.len() as i64 == div {
        Some(out)
    } else {
        None
    }
}
fn gen(g: &mut G) -> Vec<V> {
    vec![V::I(g.argb()), V::I(g.r.range(1, 12)), V::I(if g.r.coin() { *g.r.pick(&[6, 12, 1, 2, 3]) } else { g.r.range(1, 40) })]
}
fn total(a: &[V]) -> R {
    let mut c = TC::new(Hct::from_int(a[0].i()));
    c.get_complement();
    ck(c.analogous(None, None).len() == 5, || "default analogous".into())
}
fn cache(a: &[V]) -> R {
    let h = Hct::from_int(a[0].i());
    let mut c = TC::new(h.clone());
    let q = |c: &mut TC, i: i64| -> Vec<i64> {
        match i % 6 {
            0 => c.analogous(None, None).iter().map(|x| x.to_int()).collect(),
            1 => vec![c.get_complement().to_int()],
            2 => vec![c.get_coldest().to_int(), c.get_warmest().to_int()],
            3 => vec![c.get_input_relative_temperature().to_bits() as i64],
            4 => c.get_hcts_by_hue().iter().map(|x| x.to_int()).collect(),
            _ => c.get_hcts_by_temp().iter().map(|x| x.to_int()).collect(),
        }
    };
    for i in a[1].il() {
        let (x, y) = (q(&mut c, *i), q(&mut TC::new(h.clone()), *i));
        ck(x == y, || format!("query {} differs after a history: {:x?} / {:x?}", i % 6, x, y))?;
    }
    Ok(())
}
pub fn kinds(v: &mut Vec<Kind>) {
    use Src::*;
    v.push(k("C23", "raw", Strided(1 << 24, 1 << 19, |i| vec![V::I(0xff000000 + i as i64)]), rawtemp));
    v.push(k("C23", "between", Rand(300_000, 5_000_000, |g| vec![V::F(g.hue()), V::F(g.hue()), V::F(g.hue())]), between));
    v.push(k("C23", "queries", Rand(1_200, 40_000, gen), temps));
    v.push(k("C23", "total", Rand(300, 20_000, |g| {
        // hues next to 0/360, greys, extremes
        let x = if g.r.coin() { Hct::from(g.fin(358.5, 361.5) % 360.0, g.chroma(), g.tone()).to_int() } else { g.argb() };
        vec![V::I(x)]
    }), total));
    v.push(k("C10", "temperature_cache", Rand(150, 5_000, |g| vec![V::I(g.argb()), V::IL((0..g.r.range(1, 6)).map(|_| g.r.range(0, 5)).collect())]), cache));
}
