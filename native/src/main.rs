mod core;
mod p_dyn;
mod p_hct;
mod p_pal;
mod p_quant;
mod p_temp;
mod p_utils;
mod refs;
use crate::core::*;
use std::collections::HashSet;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

fn kinds() -> Vec<Kind> {
    let mut v = vec![];
    p_utils::kinds(&mut v);
    p_hct::kinds(&mut v);
    p_pal::kinds(&mut v);
    p_dyn::kinds(&mut v);
    p_quant::kinds(&mut v);
    p_temp::kinds(&mut v);
    v
}
thread_local!(static LAST: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
fn run_check(f: fn(&[V]) -> R, a: &[V]) -> R {
    match panic::catch_unwind(panic::AssertUnwindSafe(|| f(a))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
            let loc = LAST.with(|l| l.borrow().clone());
            Err(format!("panicked: {} at {}", m, loc))
        }
    }
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
fn main() {
    panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|x| *x.borrow_mut() = l);
    }));
    let args: Vec<String> = std::env::args().collect();
    let ks = kinds();
    match args[1].as_str() {
        // native case PROP KIND V...
        "case" => {
            let kd = ks.iter().find(|x| x.prop == args[2] && x.name == args[3]).expect("unknown kind");
            let vs: Vec<V> = args[4..].iter().map(|s| V::dec(s)).collect();
            match run_check(kd.check, &vs) {
                Ok(()) => println!("OK {} {} ({})", args[2], args[3], vs.iter().map(|v| v.show()).collect::<Vec<_>>().join(", ")),
                Err(m) => {
                    println!("FAIL {} {} ({}): {}", args[2], args[3], vs.iter().map(|v| v.show()).collect::<Vec<_>>().join(", "), m);
                    std::process::exit(1)
                }
            }
        }
        // read cases "KIND V V .." on stdin, one per line; print OK/FAIL per line
        "cases" => {
            use std::io::BufRead;
            for l in std::io::stdin().lock().lines() {
                let l = l.unwrap();
                let p: Vec<&str> = l.split(' ').collect();
                if p.is_empty() || p[0].is_empty() {
                    continue;
                }
                let r = match ks.iter().find(|x| x.prop == args[2] && x.name == p[0]) {
                    None => Err("?kind".to_string()),
                    Some(kd) => run_check(kd.check, &p[1..].iter().map(|s| V::dec(s)).collect::<Vec<_>>()),
                };
                match r {
                    Ok(()) => println!("OK"),
                    Err(m) => println!("FAIL {}", m.replace('\n', " ")),
                }
            }
        }
        "list" => {
            for x in &ks {
                println!("{} {}", x.prop, x.name);
            }
        }
        // native run PROP SEED TIER DICT
        "run" => {
            let prop = &args[2];
            let seed: u64 = args[3].parse().unwrap();
            let thorough = args[4] == "thorough";
            let (mut df, mut di) = (vec![], vec![]);
            if let Some(p) = args.get(5) {
                for t in std::fs::read_to_string(p).unwrap_or_default().split_whitespace() {
                    let v = V::dec(t);
                    match v {
                        V::F(x) => df.push(x),
                        V::I(x) => {
                            di.push(x);
                            if x.abs() < 1 << 40 {
                                df.push(x as f64)
                            }
                        }
                        _ => {}
                    }
                }
            }
            let scale: f64 = std::env::var("NATIVE_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let case_limit: f64 = std::env::var("NATIVE_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60.0);
            let budget: f64 = std::env::var("NATIVE_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(1e9);
            let trace = std::env::var("NATIVE_TRACE").ok();
            let start = std::time::Instant::now();
            let nk = ks.iter().filter(|x| x.prop == prop).count() as f64;
            let mut done_k = 0.0;
            let mut js: Vec<String> = vec![];
            for kd in ks.iter().filter(|x| x.prop == prop) {
                let t0 = std::time::Instant::now();
                let n = match &kd.src {
                    Src::Rand(q, t, _) => ((if thorough { *t } else { *q }) as f64 * scale).ceil() as u64,
                    Src::All(n, _) => *n,
                    Src::Strided(n, q, _) => {
                        if thorough {
                            *n
                        } else {
                            (*q).min(*n)
                        }
                    }
                    Src::Replay => continue,
                };
                let next = AtomicU64::new(0);
                let stop = AtomicBool::new(false);
                let tot = Mutex::new(Out { evals: 0, distinct: HashSet::new(), fails: vec![], samples: vec![] });
                let chunk = (n / 256).clamp(1, 4096);
                // watchdog: the case each worker is on and since when
                let slots: Vec<Mutex<Option<(std::time::Instant, Vec<V>)>>> = (0..8).map(|_| Mutex::new(None)).collect();
                let live = AtomicU64::new(8);
                let kind_budget = (budget - start.elapsed().as_secs_f64()).max(1.0) / (nk - done_k);
                done_k += 1.0;
                std::thread::scope(|sc| {
                    let (slots, live, stop, js, trace) = (&slots, &live, &stop, &js, &trace);
                    sc.spawn(move || {
                        while live.load(Ordering::Relaxed) > 0 {
                            std::thread::sleep(std::time::Duration::from_millis(if t0.elapsed().as_secs() < 1 { 2 } else { 50 }));
                            if t0.elapsed().as_secs_f64() > kind_budget {
                                stop.store(true, Ordering::Relaxed);
                            }
                            for s in slots.iter() {
                                let g = s.lock().unwrap();
                                if let Some((t, vs)) = &*g {
                                    if t.elapsed().as_secs_f64() > case_limit {
                                        let mut all: Vec<String> = js.clone();
                                        all.push(format!(
                                            "{{\"kind\":\"{}\",\"evaluations\":1,\"distinct\":1,\"exhaustive\":false,\"seconds\":0,\"samples\":[],\"fails\":[{{\"args\":[{}],\"shown\":\"{}\",\"why\":\"did not return within {} s\"}}]}}",
                                            kd.name,
                                            vs.iter().map(|x| format!("\"{}\"", x.enc())).collect::<Vec<_>>().join(","),
                                            esc(&vs.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
                                            case_limit
                                        ));
                                        println!("[{}]", all.join(",\n"));
                                        std::process::exit(0);
                                    }
                                }
                            }
                        }
                    });
                    for w in 0..8usize {
                        let (next, tot, df, di) = (&next, &tot, &df, &di);
                        sc.spawn(move || {
                            let mut o = Out { evals: 0, distinct: HashSet::new(), fails: vec![], samples: vec![] };
                            while !stop.load(Ordering::Relaxed) {
                                let a = next.fetch_add(chunk, Ordering::Relaxed);
                                if a >= n {
                                    break;
                                }
                                for i in a..(a + chunk).min(n) {
                                    let vs = match &kd.src {
                                        Src::Rand(_, _, g) => {
                                            let mut gg = G { r: Rng::new(seed.wrapping_mul(1000003) ^ (i << 8) ^ kd.name.len() as u64), df, di };
                                            g(&mut gg)
                                        }
                                        Src::All(_, m) => m(i),
                                        Src::Strided(len, _, m) => {
                                            if thorough {
                                                m(i)
                                            } else {
                                                // a stride coprime to the range visits distinct cases
                                                let off = seed.wrapping_mul(7919);
                                                m((((i as u128) * 0x9E3779B1u128 + off as u128) % (*len as u128)) as u64)
                                            }
                                        }
                                        Src::Replay => unreachable!(),
                                    };
                                    o.evals += 1;
                                    if o.distinct.len() < 200_000 && !matches!(kd.src, Src::All(..)) {
                                        o.distinct.insert(hash_case(&vs));
                                    }
                                    if o.samples.len() < 2 {
                                        o.samples.push(vs.iter().map(|v| v.show()).collect::<Vec<_>>().join(", "));
                                    }
                                    if let Some(p) = trace {
                                        let _ = std::fs::write(format!("{}.{}", p, w), format!("{} {}", kd.name, vs.iter().map(|v| v.enc()).collect::<Vec<_>>().join(" ")));
                                    }
                                    *slots[w].lock().unwrap() = Some((std::time::Instant::now(), vs.clone()));
                                    if let Err(m) = run_check(kd.check, &vs) {
                                        o.fails.push((vs, m));
                                        if o.fails.len() >= 3 {
                                            stop.store(true, Ordering::Relaxed);
                                            break;
                                        }
                                    }
                                }
                            }
                            *slots[w].lock().unwrap() = None;
                            live.fetch_sub(1, Ordering::Relaxed);
                            let mut t = tot.lock().unwrap();
                            t.evals += o.evals;
                            t.distinct.extend(o.distinct);
                            t.fails.extend(o.fails);
                            t.samples.extend(o.samples);
                        });
                    }
                });
                let t = tot.into_inner().unwrap();
                let dist = if matches!(kd.src, Src::All(..)) { t.evals } else { t.distinct.len() as u64 };
                let fails: Vec<String> = t
                    .fails
                    .iter()
                    .take(5)
                    .map(|(v, m)| format!("{{\"args\":[{}],\"shown\":\"{}\",\"why\":\"{}\"}}", v.iter().map(|x| format!("\"{}\"", x.enc())).collect::<Vec<_>>().join(","), esc(&v.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")), esc(m)))
                    .collect();
                js.push(format!(
                    "{{\"kind\":\"{}\",\"evaluations\":{},\"distinct\":{},\"exhaustive\":{},\"seconds\":{:.2},\"samples\":[{}],\"fails\":[{}]}}",
                    kd.name,
                    t.evals,
                    dist,
                    matches!(kd.src, Src::All(..)) || (thorough && matches!(kd.src, Src::Strided(..))),
                    t0.elapsed().as_secs_f64(),
                    t.samples.iter().take(2).map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
                    fails.join(",")
                ));
            }
            println!("[{}]", js.join(",\n"));
        }
        _ => panic!("usage"),
    }
}
