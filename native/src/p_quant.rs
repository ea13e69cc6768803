use crate::core::*;
use crate::refs::norm;
use material_color_utilities_rs::{
    hct::hct::Hct,
    quantize::{
        quantizer::{Quantizer, QuantizerResult},
        quantizer_celebi::QuantizerCelebi,
        quantizer_map::QuantizerMap,
        quantizer_wsmeans::QuantizerWsmeans,
        quantizer_wu::QuantizerWu,
    },
    score::score::Score,
};
use std::collections::HashMap;

fn count(px: &[i64]) -> HashMap<i64, i64> {
    let mut m = HashMap::new();
    for p in px {
        if (*p as u64 >> 24) & 255 == 255 {
            *m.entry(*p).or_insert(0) += 1;
        }
    }
    m
}
// ---- C19
fn map(a: &[V]) -> R {
    let px = a[0].il();
    let r = QuantizerMap {}.quantize(px, a[1].i(), None).color_to_count;
    let e = count(px);
    ck(r == e, || format!("counted {} colours, {} expected; e.g. {:?}", r.len(), e.len(), r.iter().find(|(k, v)| e.get(k) != Some(v)).or(e.iter().find(|(k, v)| r.get(k) != Some(v)))))?;
    let mut q = px.clone();
    q.reverse();
    ck(QuantizerMap {}.quantize(&q, a[1].i() + 7, Some(true)).color_to_count == e, || "order or maximum matters".into())
}
// ---- C20 through the Quantizer interface
// one histogram cell: weight, red, green, blue, squares
type Cell = ([i64; 3], [i128; 5]);
fn tot(b: &[Cell]) -> [i128; 5] {
    let mut t = [0; 5];
    for (_, s) in b {
        for i in 0..5 {
            t[i] += s[i];
        }
    }
    t
}
fn norm2(t: &[i128; 5]) -> i128 {
    t[1] * t[1] + t[2] * t[2] + t[3] * t[3]
}
// greedy splitting of the histogram, in exact arithmetic up to the comparisons; None where two choices are too
// close to tell apart
fn greedy(c: &HashMap<i64, i64>, max: i64) -> Option<Vec<i64>> {
    let mut cells: HashMap<[i64; 3], [i128; 5]> = HashMap::new();
    for (p, n) in c {
        let ch = [p >> 16 & 255, p >> 8 & 255, p & 255];
        let e = cells.entry([ch[0] / 8, ch[1] / 8, ch[2] / 8]).or_insert([0; 5]);
        let n = *n as i128;
        let sq: i64 = ch.iter().map(|x| x * x).sum();
        for (i, x) in [1, ch[0], ch[1], ch[2], sq].iter().enumerate() {
            e[i] += n * *x as i128;
        }
    }
    let mut first: Vec<Cell> = cells.into_iter().collect();
    first.sort();
    let mut boxes: Vec<Vec<Cell>> = vec![first];
    let close2 = |a: f64, b: f64, s: f64| (a - b).abs() <= 1e-9 * s + 1e-6;
    while (boxes.len() as i64) < max {
        // only boxes with several cells can be split
        let mut cand: Vec<(f64, f64, usize)> = vec![];
        for (i, b) in boxes.iter().enumerate() {
            if b.len() > 1 {
                let t = tot(b);
                cand.push(((t[4] * t[0] - norm2(&t)) as f64 / t[0] as f64, t[4] as f64, i));
            }
        }
        if cand.is_empty() {
            break;
        }
        cand.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap());
        // the order matters only if the boxes run out before the splits do
        let cells: usize = boxes.iter().map(|b| b.len()).sum();
        if cells as i64 > max && cand.len() > 1 && close2(cand[0].0, cand[1].0, cand[0].1.max(cand[1].1)) {
            return None;
        }
        let b = boxes[cand[0].2].clone();
        let t = tot(&b);
        let mut best: Vec<(f64, Vec<Cell>, Vec<Cell>)> = vec![];
        for d in 0..3 {
            for p in 0..32 {
                let (lo, hi): (Vec<Cell>, Vec<Cell>) = b.iter().cloned().partition(|x| x.0[d] <= p);
                if lo.is_empty() || hi.is_empty() {
                    continue;
                }
                let (lo, hi) = if lo < hi { (lo, hi) } else { (hi, lo) };
                let (x, y) = (tot(&lo), tot(&hi));
                let v = norm2(&x) as f64 / x[0] as f64 + norm2(&y) as f64 / y[0] as f64;
                if !best.iter().any(|q| q.1 == lo) {
                    best.push((v, lo, hi));
                }
            }
        }
        best.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap());
        if best.len() > 1 && close2(best[0].0, best[1].0, t[4] as f64) {
            return None;
        }
        let (_, lo, hi) = best.swap_remove(0);
        boxes[cand[0].2] = lo;
        boxes.push(hi);
    }
    let mut out: Vec<i64> = boxes
        .iter()
        .map(|b| {
            let t = tot(b);
            let m = |i: usize| ((2 * t[i] + t[0]) / (2 * t[0])) as i64;
            0xff000000 | m(1) << 16 | m(2) << 8 | m(3)
        })
        .collect();
    out.sort();
    out.dedup();
    Some(out)
}
fn wu(a: &[V]) -> R {
    let (px, max) = (a[0].il(), a[1].i());
    let c = count(px);
    let mut w = QuantizerWu::new();
    let r = w.quantize(px, max, None).color_to_count;
    ck(r.len() as i64 <= max, || format!("{} colours", r.len()))?;
    ck(c.is_empty() == r.is_empty(), || format!("{} colours from {} distinct opaque pixels", r.len(), c.len()))?;
    let ch = |x: i64, s: u32| x >> s & 255;
    for k in r.keys() {
        ck(opaque(*k), || format!("colour {:#x}", k))?;
        for s in [0, 8, 16] {
            let (lo, hi) = (c.keys().map(|p| ch(*p, s)).min().unwrap(), c.keys().map(|p| ch(*p, s)).max().unwrap());
            ck((lo..=hi).contains(&ch(*k, s)), || format!("colour {:#x} outside the channel range {}..{} of the pixels", k, lo, hi))?;
        }
    }
    if max == 1 && !c.is_empty() {
        let k = *r.keys().next().unwrap();
        let n: i64 = c.values().sum();
        for s in [0, 8, 16] {
            let t: i64 = c.iter().map(|(p, m)| ch(*p, s) * m).sum();
            ck((2 * t - 2 * n * ch(k, s)).abs() <= n, || format!("one box: {:#x} is not the rounded mean {}", k, t as f64 / n as f64))?;
        }
    }
    if c.len() == 1 {
        ck(r.keys().next() == c.keys().next(), || "single colour".into())?;
    }
    if !c.is_empty() {
        if let Some(e) = greedy(&c, max) {
            let mut g: Vec<i64> = r.keys().cloned().collect();
            g.sort();
            ck(g == e, || format!("colours {:x?}, greedy splitting gives {:x?}", g, e))?;
        }
    }
    let r2 = w.quantize(px, max, None).color_to_count;
    ck(r2 == r, || "second run on the same quantizer differs".into())
}
#[cfg(feature = "wb")]
mod wb {
    use super::*;
    use material_color_utilities_rs::quantize::quantizer_wu::{Box as B, Direction};
    fn cell(p: i64) -> [i64; 3] {
        [(p >> 16 & 255) / 8 + 1, (p >> 8 & 255) / 8 + 1, (p & 255) / 8 + 1]
    }
    fn inside(b: &B, p: i64) -> bool {
        let c = cell(p);
        b.r0 < c[0] && c[0] <= b.r1 && b.g0 < c[1] && c[1] <= b.g1 && b.b0 < c[2] && c[2] <= b.b1
    }
    fn sums<'a>(it: impl Iterator<Item = (&'a i64, &'a i64)>) -> [i64; 4] {
        let mut s = [0; 4];
        for (p, n) in it {
            s[0] += n;
            s[1] += n * (p >> 16 & 255);
            s[2] += n * (p >> 8 & 255);
            s[3] += n * (p & 255);
        }
        s
    }
    // colours, counts, max, probe box (r0 r1 g0 g1 b0 b1 pos)
    pub fn moments(a: &[V]) -> R {
        let m: HashMap<i64, i64> = a[0].il().iter().cloned().zip(a[1].il().iter().cloned()).collect();
        let (max, q) = (a[2].i(), a[3].il());
        let mut w = QuantizerWu::new();
        w.construct_histogram(m.clone());
        w.compute_moments();
        let bx = B { r0: q[0], r1: q[1], g0: q[2], g1: q[3], b0: q[4], b1: q[5], vol: 0 };
        let vol = |w: &QuantizerWu, b: &B| [QuantizerWu::volume(b.clone(), w.weights.clone()), QuantizerWu::volume(b.clone(), w.moments_r.clone()), QuantizerWu::volume(b.clone(), w.moments_g.clone()), QuantizerWu::volume(b.clone(), w.moments_b.clone())];
        let e = sums(m.iter().filter(|(p, _)| inside(&bx, **p)));
        ck(vol(&w, &bx) == e, || format!("volume of box {:?}: {:?}, pixels in it {:?}", q, vol(&w, &bx), e))?;
        // top(position) + bottom is the part of the box up to position
        for (i, d) in [Direction::Red, Direction::Green, Direction::Blue].iter().enumerate() {
            let (lo, hi) = (q[2 * i], q[2 * i + 1]);
            if lo + 1 > hi {
                continue;
            }
            let pos = (lo + 1 + q[6] % (hi - lo)).min(hi);
            let mut part = bx.clone();
            match i {
                0 => part.r1 = pos,
                1 => part.g1 = pos,
                _ => part.b1 = pos,
            }
            let e = sums(m.iter().filter(|(p, _)| inside(&part, **p)));
            for (j, v) in [&w.weights, &w.moments_r, &w.moments_g, &w.moments_b].iter().enumerate() {
                let x = QuantizerWu::bottom(bx.clone(), d.clone(), v.to_vec()) + QuantizerWu::top(bx.clone(), d.clone(), pos, v.to_vec());
                ck(x == e[j], || format!("bottom+top({}) direction {} moment {}: {}, pixels {}", pos, i, j, x, e[j]))?;
            }
        }
        let total: f64 = m.iter().map(|(p, n)| (*n * ((p >> 16 & 255) * (p >> 16 & 255) + (p >> 8 & 255) * (p >> 8 & 255) + (p & 255) * (p & 255))) as f64).sum();
        ck(close(*w.moments.last().unwrap(), total, 1e-9), || format!("second moment {} expected {}", w.moments.last().unwrap(), total))?;
        // boxes partition the histogram and colours are their means
        let cb = w.create_boxes(max);
        ck(cb.result_count >= 1 && cb.result_count <= max, || format!("{} boxes", cb.result_count))?;
        let cubes = &w.cubes[..cb.result_count as usize];
        for p in m.keys() {
            let n = cubes.iter().filter(|b| inside(b, *p)).count();
            ck(n == 1, || format!("pixel {:#x} lies in {} boxes", p, n))?;
        }
        for (i, x) in cubes.iter().enumerate() {
            for y in &cubes[..i] {
                let ov = |a0: i64, a1: i64, b0: i64, b1: i64| a0.max(b0) < a1.min(b1);
                ck(!(ov(x.r0, x.r1, y.r0, y.r1) && ov(x.g0, x.g1, y.g0, y.g1) && ov(x.b0, x.b1, y.b0, y.b1)), || "boxes overlap".into())?;
            }
        }
        let res = w.create_result(cb.result_count);
        let mut want = vec![];
        for b in cubes {
            let s = sums(m.iter().filter(|(p, _)| inside(b, **p)));
            if s[0] > 0 {
                want.push(s);
            }
        }
        ck(res.len() == want.len(), || format!("{} colours from {} non-empty boxes", res.len(), want.len()))?;
        for (x, s) in res.iter().zip(&want) {
            ck(opaque(*x), || format!("{:#x}", x))?;
            for (i, sh) in [16, 8, 0].iter().enumerate() {
                let d = 2 * s[i + 1] - 2 * s[0] * (x >> sh & 255);
                ck(d.abs() <= s[0] + 2, || format!("channel of {:#x} is not the rounded mean of its box: sum {} weight {}", x, s[i + 1], s[0]))?;
            }
        }
        Ok(())
    }
    pub fn kinds(v: &mut Vec<Kind>) {
        v.push(k("C20", "moments", Src::Rand(600, 20_000, |g| {
            let n = g.r.range(1, 40);
            let cs: Vec<i64> = colours(g, n as usize);
            let cap = *g.r.pick(&[3, 100, 1 << 20, (1 << 31) / n]);
            let ns = cs.iter().map(|_| g.r.range(1, cap)).collect();
            let mut q = vec![];
            for _ in 0..3 {
                let (a, b) = (g.r.range(0, 32), g.r.range(0, 32));
                q.push(a.min(b));
                q.push(a.max(b));
            }
            q.push(g.r.range(0, 31));
            vec![V::IL(cs), V::IL(ns), V::I(*g.r.pick(&[1, 2, 3, 5, 8, 16, 64])), V::IL(q)]
        }), moments));
    }
}
fn colours(g: &mut G, n: usize) -> Vec<i64> {
    let mode = g.r.below(4);
    let base = g.argb();
    let mut v: Vec<i64> = (0..n)
        .map(|_| match mode {
            0 => g.argb(),
            1 => {
                let v = g.r.range(0, 255);
                0xff000000 | v << 16 | v << 8 | v
            }
            2 => {
                let mut c = |s: u32| ((base >> s & 255) + g.r.range(-9, 9)).clamp(0, 255);
                0xff000000 | c(16) << 16 | c(8) << 8 | c(0)
            }
            _ => 0xff000000 | *g.r.pick(&[0xff0000, 0xff00, 0xff, 0xffffff, 0, 0x800000, 0x070707, 0x080808]),
        })
        .collect();
    v.sort();
    v.dedup();
    v
}
fn pixels(g: &mut G) -> Vec<i64> {
    let n = g.r.range(1, 24) as usize;
    let cs = colours(g, n);
    let m = g.r.range(1, 120);
    (0..m)
        .map(|_| {
            let c = *g.r.pick(&cs);
            match g.r.below(12) {
                0 => c & 0xffffff | g.r.range(0, 254) << 24,
                _ => c,
            }
        })
        .collect()
}
fn opaque_pixels(g: &mut G) -> Vec<i64> {
    pixels(g).into_iter().map(|p| p | 0xff000000).collect()
}
// ---- C21
fn ws_laws(px: &[i64], max: i64, r: &QuantizerResult, mapped: bool) -> R {
    let mut cnt: HashMap<i64, i64> = HashMap::new();
    for p in px {
        *cnt.entry(*p).or_insert(0) += 1;
    }
    let k = max.min(cnt.len() as i64);
    let out = &r.color_to_count;
    ck(!out.is_empty() && out.len() as i64 <= k, || format!("{} colours, at most {}", out.len(), k))?;
    ck(out.iter().all(|(c, n)| opaque(*c) && *n > 0), || "transparent colour or empty population".into())?;
    let sum: i64 = out.values().sum();
    ck(sum <= px.len() as i64, || format!("populations {} of {} pixels", sum, px.len()))?;
    if out.len() as i64 == k {
        ck(sum == px.len() as i64, || format!("{} distinct clusters hold {} of {} pixels", k, sum, px.len()))?;
    }
    if mapped {
        let m = &r.input_pixel_to_cluster_pixel;
        ck(m.len() == cnt.len(), || format!("{} of {} pixels mapped", m.len(), cnt.len()))?;
        let mut tot: HashMap<i64, i64> = HashMap::new();
        for (p, n) in &cnt {
            match m.get(p) {
                Some(c) if out.contains_key(c) => *tot.entry(*c).or_insert(0) += n,
                x => return Err(format!("pixel {:#x} maps to {:x?}", p, x)),
            }
        }
        for (c, n) in out {
            let t = tot.get(c).cloned().unwrap_or(0);
            ck(*n <= t, || format!("population of {:#x} is {}, mapped {}", c, n, t))?;
            if out.len() as i64 == k {
                ck(*n == t, || format!("population of {:#x} is {}, mapped {}", c, n, t))?;
            }
        }
    }
    Ok(())
}
fn ws(a: &[V]) -> R {
    let (px, max, st, it) = (a[0].il(), a[1].i(), a[2].il(), a[3].i());
    let run = |m: bool| QuantizerWsmeans::quantize(px, max, if st.is_empty() { None } else { Some(st) }, None, if it == 0 { None } else { Some(it) }, Some(m));
    let (x, y) = (run(true), run(true));
    ws_laws(px, max, &x, true)?;
    ck(x.color_to_count == y.color_to_count && x.input_pixel_to_cluster_pixel == y.input_pixel_to_cluster_pixel, || "two runs differ".into())?;
    ck(run(false).color_to_count == x.color_to_count, || "asking for the map changes the colours".into())
}
/// colours repeated many times, dealt round robin in runs
fn populous(a: &[V]) -> Vec<i64> {
    a[0].il().iter().zip(a[1].il()).flat_map(|(c, n)| std::iter::repeat(*c).take(*n as usize)).collect()
}
fn gen_populous(g: &mut G) -> Vec<V> {
    let n = g.r.range(1, 4) as usize;
    let cs = colours(g, n).into_iter().map(|c| c | 0xff000000).collect::<Vec<_>>();
    let ns = cs.iter().map(|_| *g.r.pick(&[1, 255, 256, 257, 32768, 65535, 65536, 65537, 100_003, 300_000])).collect();
    vec![V::IL(cs), V::IL(ns), V::I(*g.r.pick(&[1, 2, 3, 8, 32]))]
}
fn ws_populous(a: &[V]) -> R {
    let px = populous(a);
    ws_laws(&px, a[2].i(), &QuantizerWsmeans::quantize(&px, a[2].i(), None, None, None, Some(true)), true)
}
fn map_populous(a: &[V]) -> R {
    map(&[V::IL(populous(a)), a[2].clone()])
}
fn wu_populous(a: &[V]) -> R {
    wu(&[V::IL(populous(a)), a[2].clone()])
}
fn celebi(a: &[V]) -> R {
    let (px, max) = (a[0].il(), a[1].i());
    let run = |m: bool| QuantizerCelebi {}.quantize(px, max, Some(m));
    let x = run(true);
    ws_laws(px, max, &x, true)?;
    for _ in 0..3 {
        let y = run(true);
        ck(x.color_to_count == y.color_to_count && x.input_pixel_to_cluster_pixel == y.input_pixel_to_cluster_pixel, || "two runs differ".into())?;
    }
    ck(run(false).color_to_count == x.color_to_count, || "asking for the map changes the colours".into())?;
    let mut d: Vec<i64> = px.clone();
    d.sort();
    d.dedup();
    if d.len() == 1 {
        ck(x.color_to_count.get(&d[0]) == Some(&(px.len() as i64)), || "single colour".into())?;
    }
    Ok(())
}
// ---- C22
struct Ref {
    hct: Hct,
    share: f64,
    score: f64,
}
fn score(a: &[V]) -> R {
    let pop: HashMap<i64, i64> = a[0].il().iter().cloned().zip(a[1].il().iter().cloned()).collect();
    let (desired, filter, fb) = (a[2].i(), a[3].b(), 0xff010203i64);
    let got = Score::score(&pop, Some(desired), Some(fb), Some(filter));
    let total: i64 = pop.values().sum();
    let mut huepop = [0i64; 360];
    let hs: Vec<Hct> = pop.keys().map(|k| Hct::from_int(*k)).collect();
    for h in &hs {
        huepop[h.get_hue().floor() as usize] += pop[&h.to_int()];
    }
    let mut amb = false;
    let mut refs: Vec<Ref> = hs
        .into_iter()
        .map(|h| {
            let c = (h.get_hue().round() as i64).rem_euclid(360);
            // share of the population at hues within 15 below to 14 above
            let s: i64 = (-15..=14).map(|d| huepop[(c + d).rem_euclid(360) as usize]).sum();
            let share = s as f64 / total as f64;
            let ch = h.get_chroma();
            let score = share * 70.0 + (ch - 48.0) * if ch < 48.0 { 0.1 } else { 0.3 };
            Ref { hct: h, share, score }
        })
        .filter(|r| {
            if filter && ((r.hct.get_chroma() - 5.0).abs() < 1e-9 || (r.share - 0.01).abs() < 1e-9) {
                amb = true;
            }
            !filter || (r.hct.get_chroma() >= 5.0 && r.share > 0.01)
        })
        .collect();
    refs.sort_by(|a, b| b.score.partial_cmp(&a.score).unwrap().then(a.hct.to_int().cmp(&b.hct.to_int())));
    ck(!got.is_empty() && got.len() as i64 <= desired, || format!("{} colours", got.len()))?;
    if amb {
        return Ok(());
    }
    if refs.is_empty() {
        return ck(got == vec![fb], || format!("no eligible colour, got {:x?}", got));
    }
    let find = |x: &i64| refs.iter().find(|r| r.hct.to_int() == *x);
    for (i, x) in got.iter().enumerate() {
        let r = match find(x) {
            None => return Err(format!("{:#x} is not an eligible input colour (eligible {})", x, refs.len())),
            Some(r) => r,
        };
        for y in &got[..i] {
            let q = find(y).unwrap();
            ck(hdist(r.hct.get_hue(), q.hct.get_hue()) >= 15.0 - 1e-9, || format!("hues {:?} {:?} closer than 15", r.hct.get_hue(), q.hct.get_hue()))?;
            ck(q.score >= r.score - 1e-9, || format!("{:#x} (score {}) before {:#x} (score {})", y, q.score, x, r.score))?;
        }
    }
    ck(find(&got[0]).unwrap().score >= refs[0].score - 1e-9, || format!("first colour scores {}, best {}", find(&got[0]).unwrap().score, refs[0].score))?;
    ck(Score::score(&pop.clone().into_iter().collect(), Some(desired), Some(fb), Some(filter)) == got, || "result depends on map order".into())?;
    // greedy choice at the largest minimum hue distance that fills the list
    let mut want: Vec<i64> = vec![];
    for d in (15..=90).rev() {
        want.clear();
        let mut hues: Vec<f64> = vec![];
        for r in &refs {
            let h = r.hct.get_hue();
            if hues.iter().any(|q| (hdist(*q, h) - d as f64).abs() < 1e-9) {
                return Ok(());
            }
            if hues.iter().all(|q| hdist(*q, h) >= d as f64) {
                hues.push(h);
                want.push(r.hct.to_int());
            }
            if want.len() as i64 >= desired {
                break;
            }
        }
        if want.len() as i64 >= desired {
            break;
        }
    }
    let tie = refs.windows(2).any(|w| (w[0].score - w[1].score).abs() < 1e-9);
    ck(tie || want == got, || format!("got {:x?}, specified {:x?}", got, want))
}
fn score_default(a: &[V]) -> R {
    let pop: HashMap<i64, i64> = a[0].il().iter().cloned().zip(a[1].il().iter().cloned()).collect();
    let x = Score::score(&pop, None, None, None);
    let y = Score::score(&pop, Some(4), Some(0xff4285f4), Some(true));
    ck(x == y, || "defaults".into())?;
    ck(Score::score(&HashMap::new(), None, None, None) == vec![0xff4285f4], || "empty population".into())
}
fn gen_score(g: &mut G) -> Vec<V> {
    let n = g.r.range(1, 30) as usize;
    let mode = g.r.below(4);
    let base = g.hue();
    let mut cs: Vec<i64> = match mode {
        0 => colours(g, n),
        1 => (0..n).map(|_| Hct::from(norm(base + g.fin(-40.0, 40.0)), g.fin(0.0, 60.0), g.fin(10.0, 95.0)).to_int()).collect(),
        _ => (0..n).map(|_| Hct::from(g.hue(), g.fin(0.0, 90.0), g.fin(10.0, 95.0)).to_int()).collect(),
    };
    cs.sort();
    cs.dedup();
    let cap = *g.r.pick(&[1, 3, 100, 100000, 1 << 40]);
    let ps = cs.iter().map(|_| g.r.range(1, cap)).collect();
    vec![V::IL(cs), V::IL(ps), V::I(g.r.range(1, 8)), V::I(g.r.range(0, 1))]
}
pub fn kinds(v: &mut Vec<Kind>) {
    use Src::*;
    v.push(k("C19", "counts", Rand(100_000, 2_000_000, |g| {
        let p = if g.r.below(20) == 0 { vec![] } else { pixels(g) };
        vec![V::IL(p), V::I(g.r.range(-1, 256))]
    }), map));
    v.push(k("C19", "wide_ints", Rand(50_000, 1_000_000, |g| vec![V::IL((0..g.r.range(0, 20)).map(|_| g.anyint()).collect()), V::I(g.r.range(1, 256))]), map));
    v.push(k("C20", "wu", Rand(3_000, 100_000, |g| vec![V::IL(pixels(g)), V::I(*g.r.pick(&[1, 1, 2, 3, 5, 16, 128]))]), wu));
    #[cfg(feature = "wb")]
    wb::kinds(v);
    v.push(k("C21", "wsmeans", Rand(20_000, 500_000, |g| {
        let p = opaque_pixels(g);
        let st = match g.r.below(3) {
            0 => vec![],
            1 => colours(g, 3),
            _ => (0..g.r.range(1, 6)).map(|_| *g.r.pick(&p)).collect(),
        };
        vec![V::IL(p), V::I(*g.r.pick(&[1, 2, 3, 5, 8, 32, 256])), V::IL(st), V::I(g.r.range(0, 6))]
    }), ws));
    v.push(k("C21", "celebi", Rand(1_500, 40_000, |g| vec![V::IL(opaque_pixels(g)), V::I(*g.r.pick(&[1, 2, 3, 5, 8, 32]))]), celebi));
    v.push(k("C19", "populous", Rand(40, 400, gen_populous), map_populous));
    v.push(k("C19", "many", All(1, |_| vec![V::IL(vec![0xff123456]), V::IL(vec![(1 << 24) + 3]), V::I(1)]), map_populous));
    v.push(k("C20", "populous", Rand(40, 400, gen_populous), wu_populous));
    v.push(k("C21", "populous", Rand(40, 400, gen_populous), ws_populous));
    v.push(k("C22", "score", Rand(100_000, 3_000_000, gen_score), score));
    v.push(k("C22", "defaults", Rand(2_000, 50_000, gen_score), score_default));
}
