mod fw;
mod ops;
use fw::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// Smaller arguments that still fail.
fn shrink(op: &Op, mut args: Vec<A>, mut msg: String) -> (Vec<A>, String) {
    use refnum::{N, Z};
    let end = Instant::now() + Duration::from_secs(5);
    let mut progress = true;
    while progress && Instant::now() < end {
        progress = false;
        for i in 0..args.len() {
            let mut cands: Vec<A> = vec![];
            let small = |n: &N| -> Vec<N> {
                let mut v = vec![];
                let l = n.bit_len();
                if l > 0 {
                    v.push(N::zero());
                    v.push(n.shr(l / 2));
                    v.push(n.shr(WB.min(l)));
                    v.push(n.sub(&n.shr(l / 2).shl(l / 2)));
                    v.push(n.shr(1));
                    if n.0.len() < 40 {
                        for k in 0..n.0.len() {
                            if n.0[k] != 0 {
                                let mut t = n.clone();
                                t.0[k] = 0;
                                v.push(t.norm());
                            }
                        }
                    }
                }
                v
            };
            match &args[i] {
                A::N(n) => cands.extend(small(n).into_iter().map(A::N)),
                A::Z(z) => {
                    if z.neg {
                        cands.push(A::Z(z.neg()));
                    }
                    cands.extend(small(&z.mag).into_iter().map(|m| A::Z(Z::new(z.neg, m))));
                }
                A::U(u) if *u > 0 => cands.extend([A::U(u / 2), A::U(u - 1)]),
                _ => {}
            }
            for c in cands {
                if c == args[i] || Instant::now() > end {
                    continue;
                }
                let mut t = args.clone();
                t[i] = c;
                if let Some(m) = run_case(op, &t) {
                    args = t;
                    msg = m;
                    progress = true;
                    break;
                }
            }
        }
    }
    (args, msg)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let prop = arg("--property").expect("--property");
    if prop == "C05" {
        STRICT.with(|s| s.set(true));
    }
    let ops = ops::ops(&prop);
    assert!(!ops.is_empty(), "unknown property");
    if let Some(name) = arg("--op") {
        // replay one case: --op NAME --args "A B C"
        let op = ops.iter().find(|o| o.name == name).expect("op");
        let args: Vec<A> = arg("--args").unwrap_or_else(|| std::fs::read_to_string(arg("--args-file").expect("--args or --args-file")).unwrap()).trim().split(' ').filter(|s| !s.is_empty()).map(A::dec).collect();
        match run_case(op, &args) {
            None => println!("OK"),
            Some(m) => {
                println!("FAIL {m}");
                std::process::exit(1);
            }
        }
        return;
    }
    let secs: f64 = arg("--seconds").unwrap().parse().unwrap();
    let seed: u64 = arg("--seed").unwrap().parse().unwrap();
    let threads: usize = arg("--threads").unwrap().parse().unwrap();
    let skip: HashSet<String> = arg("--known").map(|s| s.split(';').map(|x| x.to_string()).collect()).unwrap_or_default();
    let trace = arg("--trace");
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(String, Vec<A>, String)>> = Mutex::new(None);
    let stats = Mutex::new((0u64, HashSet::<u64>::new(), Vec::<String>::new()));
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (ops, stop, found, stats, prop, skip, trace) = (&ops, &stop, &found, &stats, &prop, &skip, &trace);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    if prop == "C05" {
                        STRICT.with(|s| s.set(true));
                    }
                    let mut g = G::new(seed.wrapping_mul(1000003).wrapping_add(t as u64 + 1).wrapping_add((W as u64) << 32));
                    let total: u32 = ops.iter().map(|o| o.weight).sum();
                    let mut n = 0;
                    let mut set = HashSet::new();
                    let mut samples = vec![];
                    while !stop.load(Ordering::Relaxed) && Instant::now() < end {
                        let mut k = g.below(total as usize) as u32;
                        let op = ops.iter().find(|o| { if k < o.weight { true } else { k -= o.weight; false } }).unwrap();
                        g.max = 40;
                        let args = (op.gen)(&mut g);
                        n += 1;
                        if !args.iter().all(|a| a.trivial()) && set.len() < 4_000_000 {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            op.name.hash(&mut h);
                            args.hash(&mut h);
                            set.insert(h.finish());
                            if samples.len() < 2 {
                                let mut s = format!("{} {}", op.name, args.iter().map(|a| a.enc()).collect::<Vec<_>>().join(" "));
                                s.truncate(300);
                                samples.push(s);
                            }
                        }
                        if let Some(d) = &trace {
                            let _ = std::fs::write(format!("{d}/{t}"), format!("{}\n{}", op.name, args.iter().map(|a| a.enc()).collect::<Vec<_>>().join(" ")));
                        }
                        if let Some(m) = run_case(op, &args) {
                            if skip.contains(op.name) {
                                continue;
                            }
                            let (args, m) = shrink(op, args, m);
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some((op.name.to_string(), args, m));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    let mut s = stats.lock().unwrap();
                    s.0 += n;
                    s.1.extend(set);
                    s.2.extend(samples);
                })
                .unwrap();
        }
    });
    let s = stats.into_inner().unwrap();
    let f = found.into_inner().unwrap();
    let j = serde_json::json!({
        "word_bits": W,
        "evaluations": s.0,
        "distinct_nontrivial": s.1.len(),
        "samples": s.2.into_iter().take(4).collect::<Vec<_>>(),
        "failure": f.as_ref().map(|(o, a, m)| serde_json::json!({"op": o, "args": a.iter().map(|x| x.enc()).collect::<Vec<_>>().join(" "), "message": m})),
    });
    println!("{j}");
    if f.is_some() {
        std::process::exit(1);
    }
}
