//! Case machinery: values, generators, kinds.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub enum V {
    F(f64),
    I(i64),
    FL(Vec<f64>),
    IL(Vec<i64>),
    S(String),
}
impl V {
    pub fn f(&self) -> f64 {
        match self {
            V::F(x) => *x,
            V::I(x) => *x as f64,
            _ => panic!("case: float expected"),
        }
    }
    pub fn i(&self) -> i64 {
        match self {
            V::I(x) => *x,
            _ => panic!("case: int expected"),
        }
    }
    pub fn b(&self) -> bool {
        self.i() != 0
    }
    pub fn fl(&self) -> &Vec<f64> {
        match self {
            V::FL(x) => x,
            _ => panic!("case: float list expected"),
        }
    }
    pub fn il(&self) -> &Vec<i64> {
        match self {
            V::IL(x) => x,
            _ => panic!("case: int list expected"),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            V::S(x) => x,
            _ => panic!("case: string expected"),
        }
    }
    pub fn enc(&self) -> String {
        match self {
            V::F(x) => format!("f:{:016x}", x.to_bits()),
            V::I(x) => format!("i:{}", x),
            V::FL(x) => format!("F:{}", x.iter().map(|y| format!("{:016x}", y.to_bits())).collect::<Vec<_>>().join(",")),
            V::IL(x) => format!("I:{}", x.iter().map(|y| y.to_string()).collect::<Vec<_>>().join(",")),
            V::S(x) => format!("s:{}", x.bytes().map(|b| format!("{:02x}", b)).collect::<String>()),
        }
    }
    pub fn dec(s: &str) -> V {
        let (k, r) = s.split_at(2);
        let pf = |t: &str| -> f64 {
            if t.len() == 16 && t.chars().all(|c| c.is_ascii_hexdigit()) {
                f64::from_bits(u64::from_str_radix(t, 16).unwrap())
            } else {
                t.parse().unwrap()
            }
        };
        match k {
            "f:" => V::F(pf(r)),
            "i:" => V::I(r.parse().unwrap()),
            "F:" => V::FL(if r.is_empty() { vec![] } else { r.split(',').map(pf).collect() }),
            "I:" => V::IL(if r.is_empty() { vec![] } else { r.split(',').map(|t| t.parse().unwrap()).collect() }),
            "s:" => V::S(String::from_utf8((0..r.len() / 2).map(|i| u8::from_str_radix(&r[2 * i..2 * i + 2], 16).unwrap()).collect()).unwrap()),
            _ => panic!("bad value {}", s),
        }
    }
    pub fn show(&self) -> String {
        match self {
            V::F(x) => format!("{:?}", x),
            V::I(x) => {
                if *x >= 0xff000000 && *x <= 0xffffffff {
                    format!("0x{:08x}", x)
                } else {
                    x.to_string()
                }
            }
            V::FL(x) => format!("{:?}", x),
            V::IL(x) => {
                if x.len() > 40 {
                    format!("[{} ints: {:?}..]", x.len(), &x[..20])
                } else {
                    format!("{:?}", x)
                }
            }
            V::S(x) => format!("{:?}", x),
        }
    }
}
pub type R = Result<(), String>;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        for _ in 0..3 {
            r.n();
        }
        r
    }
    pub fn n(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn u(&mut self) -> f64 {
        (self.n() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn below(&mut self, k: u64) -> u64 {
        self.n() % k
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.n() % ((b - a + 1) as u64)) as i64
    }
    pub fn coin(&mut self) -> bool {
        self.n() & 1 == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[(self.n() % v.len() as u64) as usize]
    }
}

/// Generator state: seeded RNG plus the dictionary of numeric literals mined
/// from the MIR of the code under test.
pub struct G<'a> {
    pub r: Rng,
    pub df: &'a [f64],
    pub di: &'a [i64],
}
pub fn nudge(x: f64, k: i64) -> f64 {
    if !x.is_finite() {
        return x;
    }
    let b = x.to_bits() as i64;
    let m = if b < 0 { i64::MIN.wrapping_sub(b) } else { b };
    let m = m.saturating_add(k);
    let b = if m < 0 { i64::MIN.wrapping_sub(m) } else { m };
    let y = f64::from_bits(b as u64);
    if y.is_finite() {
        y
    } else {
        x
    }
}
impl<'a> G<'a> {
    fn jitter(&mut self, x: f64) -> f64 {
        match self.r.below(8) {
            0 | 1 => x,
            2 => nudge(x, 1),
            3 => nudge(x, -1),
            4 => x + (self.r.u() - 0.5) * 1e-6,
            5 => x + (self.r.u() - 0.5) * 1e-2,
            6 => x + (self.r.u() - 0.5),
            _ => nudge(x, self.r.range(-4, 4)),
        }
    }
    /// A float in [lo,hi], biased to end points, small integers, halves and dictionary values.
    pub fn fin(&mut self, lo: f64, hi: f64) -> f64 {
        let x = match self.r.below(10) {
            0 => {
                let e = *self.r.pick(&[lo, hi]);
                self.jitter(e)
            }
            1 | 2 => {
                if self.df.is_empty() {
                    lo + self.r.u() * (hi - lo)
                } else {
                    let d = *self.r.pick(self.df);
                    self.jitter(d)
                }
            }
            3 => {
                let k = (lo + self.r.u() * (hi - lo)).round();
                self.jitter(k)
            }
            4 => {
                let k = (lo + self.r.u() * (hi - lo)).floor() + 0.5;
                self.jitter(k)
            }
            _ => lo + self.r.u() * (hi - lo),
        };
        if x >= lo && x <= hi {
            x
        } else {
            lo + self.r.u() * (hi - lo)
        }
    }
    /// Any finite float: specials, wide magnitudes, dictionary.
    pub fn any(&mut self) -> f64 {
        match self.r.below(12) {
            0 => *self.r.pick(&[0.0, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, 1e-20, -1e-20, 1e20, -1e20, 360.0, 720.0, -360.0, 180.0, 100.0, 1e9, -1e9, 9.3e18, 1e300, -1e300]),
            1 | 2 => {
                let s = if self.r.coin() { 1.0 } else { -1.0 };
                let e = self.r.u() * 40.0 - 20.0;
                s * 10f64.powf(e)
            }
            3 => {
                let b = self.r.n();
                let x = f64::from_bits(b);
                if x.is_finite() {
                    x
                } else {
                    0.0
                }
            }
            4 => self.fin(-1000.0, 1000.0),
            5 => {
                let s = if self.r.coin() { 1.0 } else { -1.0 };
                s * 10f64.powf(-self.r.u() * 300.0)
            }
            6 => {
                let k = self.r.range(-40, 40) as f64 * 45.0;
                self.jitter(k)
            }
            _ => self.fin(-400.0, 400.0),
        }
    }
    pub fn special(&mut self) -> f64 {
        if self.r.below(3) == 0 {
            *self.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])
        } else {
            self.any()
        }
    }
    pub fn tone(&mut self) -> f64 {
        self.fin(0.0, 100.0)
    }
    pub fn ratio(&mut self) -> f64 {
        match self.r.below(6) {
            0 => *self.r.pick(&[1.0, 1.5, 3.0, 4.5, 7.0, 11.0, 21.0]),
            _ => self.fin(1.0, 21.0),
        }
    }
    pub fn hue(&mut self) -> f64 {
        let h = self.fin(0.0, 360.0);
        if h >= 360.0 {
            0.0
        } else {
            h
        }
    }
    pub fn chroma(&mut self) -> f64 {
        match self.r.below(3) {
            0 => self.fin(0.0, 20.0),
            1 => self.fin(0.0, 60.0),
            _ => self.fin(0.0, 150.0),
        }
    }
    pub fn level(&mut self) -> f64 {
        match self.r.below(4) {
            0 => *self.r.pick(&[-1.0, -0.5, 0.0, 0.5, 1.0, -0.0, 0.25, 0.75, 2.0, -2.0]),
            1 => self.fin(-3.0, 3.0),
            _ => self.fin(-1.0, 1.0),
        }
    }
    pub fn argb(&mut self) -> i64 {
        let x = match self.r.below(10) {
            0 => {
                let mut c = || *self.r.pick(&[0i64, 1, 2, 10, 11, 127, 128, 254, 255]);
                (c() << 16) | (c() << 8) | c()
            }
            1 => {
                let v = self.r.range(0, 255);
                (v << 16) | (v << 8) | v
            }
            2 => {
                // near grey
                let v = self.r.range(2, 253);
                let mut c = || v + self.r.range(-2, 2);
                (c() << 16) | (c() << 8) | c()
            }
            3 => {
                if self.di.is_empty() {
                    self.r.range(0, 0xffffff)
                } else {
                    self.r.pick(self.di) & 0xffffff
                }
            }
            _ => self.r.range(0, 0xffffff),
        };
        0xff000000 | x
    }
    pub fn anyint(&mut self) -> i64 {
        match self.r.below(8) {
            0 => *self.r.pick(&[0, 1, -1, i64::MAX, i64::MIN, 255, 256, -256, 359, 360, 361, -359, -360, -361, 0xff000000, 0xffffffff, i64::MIN + 1]),
            1 => self.r.n() as i64,
            2 => self.r.range(-1000, 1000),
            3 => {
                if self.di.is_empty() {
                    0
                } else {
                    let d = *self.r.pick(self.di);
                    d.wrapping_add(self.r.range(-2, 2))
                }
            }
            4 => 1i64.wrapping_shl(self.r.below(64) as u32).wrapping_add(self.r.range(-1, 1)),
            5 => self.r.range(0, 300),
            _ => self.argb(),
        }
    }
}

pub enum Src {
    /// (quick count, thorough count, generator)
    Rand(u64, u64, fn(&mut G) -> Vec<V>),
    /// all values of an index range; (len, map index -> case)
    All(u64, fn(u64) -> Vec<V>),
    /// exhaustive in thorough, sampled with stride in quick
    Strided(u64, u64, fn(u64) -> Vec<V>),
    /// only replayed (counterexamples from the verifier)
    Replay,
}
pub struct Kind {
    pub prop: &'static str,
    pub name: &'static str,
    pub src: Src,
    pub check: fn(&[V]) -> R,
}
pub fn k(prop: &'static str, name: &'static str, src: Src, check: fn(&[V]) -> R) -> Kind {
    Kind { prop, name, src, check }
}

pub fn hash_case(v: &[V]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for x in v {
        match x {
            V::F(f) => f.to_bits().hash(&mut h),
            V::I(i) => i.hash(&mut h),
            V::FL(l) => l.iter().for_each(|f| f.to_bits().hash(&mut h)),
            V::IL(l) => l.hash(&mut h),
            V::S(s) => s.hash(&mut h),
        }
    }
    h.finish()
}
pub struct Out {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub fails: Vec<(Vec<V>, String)>,
    pub samples: Vec<String>,
}

pub fn ck(c: bool, m: impl FnOnce() -> String) -> R {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a == b) || (a - b).abs() <= tol * (1.0f64).max(a.abs()).max(b.abs())
}
/// distance of two hues on the circle
pub fn hdist(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(360.0);
    d.min(360.0 - d)
}
pub fn opaque(x: i64) -> bool {
    (0xff000000..=0xffffffff).contains(&x)
}
