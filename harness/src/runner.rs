use std::panic::{catch_unwind, set_hook, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use i256_contracts::src::{Skip, Src};
use i256_contracts::{contracts, Contract};

enum Outcome {
    Held,
    Skipped,
    Failed(String),
}

fn run(c: &Contract, s: &mut Src) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| (c.1)(s))) {
        Ok(()) => Outcome::Held,
        Err(e) => {
            if e.is::<Skip>() {
                Outcome::Skipped
            } else if let Some(m) = e.downcast_ref::<&str>() {
                Outcome::Failed(m.to_string())
            } else if let Some(m) = e.downcast_ref::<String>() {
                Outcome::Failed(m.clone())
            } else {
                Outcome::Failed("panic".to_string())
            }
        },
    }
}

fn values(log: &[u128]) -> String {
    log.iter().map(|v| format!("{:#x}", v)).collect::<Vec<_>>().join(",")
}

/// What a thread is running, and since when.
#[derive(Default)]
struct Slot {
    since: AtomicU64,
    contract: AtomicUsize,
    drawn: Arc<Mutex<Vec<u128>>>,
}

/// A contract takes microseconds: it does not return if it takes this long.
const ENDLESS_MS: u64 = 20_000;

fn main() {
    set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let all = contracts();
    match args.first().map(|x| x.as_str()) {
        Some("list") => {
            for c in &all {
                println!("{}", c.0);
            }
        },
        Some("given") => {
            let name = &args[1];
            let vals: Vec<u128> = args
                .get(2)
                .map(|x| x.as_str())
                .unwrap_or("")
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|x| u128::from_str_radix(x.trim_start_matches("0x"), 16).unwrap())
                .collect();
            let c = all.iter().find(|c| c.0 == name).expect("no such contract");
            let mut s = Src::given(vals.clone());
            let name = c.0;
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_millis(ENDLESS_MS));
                println!("FAIL {} | does not return | {}", name, values(&vals));
                std::process::exit(1);
            });
            match run(c, &mut s) {
                Outcome::Held => println!("HELD {}", c.0),
                Outcome::Skipped => println!("SKIPPED {}", c.0),
                Outcome::Failed(m) => {
                    println!("FAIL {} | {} | {}", c.0, m, values(&s.log));
                    std::process::exit(1);
                },
            }
        },
        Some("search") => {
            let seed: u64 = args[1].parse().unwrap();
            let secs: f64 = args[2].parse().unwrap();
            let only: Vec<&String> = args[3..].iter().collect();
            let sel: Vec<Contract> = all
                .into_iter()
                .filter(|c| only.is_empty() || only.iter().any(|o| c.0.contains(o.as_str())))
                .collect();
            let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);
            let end = Instant::now() + Duration::from_secs_f64(secs);
            let start = Instant::now();
            let slots: Arc<Vec<Slot>> = Arc::new((0..n).map(|_| Slot::default()).collect());
            let handles: Vec<_> = (0..n)
                .map(|t| {
                    let sel = sel.clone();
                    let slots = slots.clone();
                    std::thread::spawn(move || {
                        let mut failed = vec![false; sel.len()];
                        let mut held = vec![0u64; sel.len()];
                        let mut out = Vec::new();
                        let mut round = 0u64;
                        while Instant::now() < end {
                            for (i, c) in sel.iter().enumerate() {
                                if failed[i] {
                                    continue;
                                }
                                let mut k = 0;
                                while k < 64 {
                                    k += 1;
                                    let x = seed
                                        .wrapping_mul(0x2545_f491_4f6c_dd1d)
                                        .wrapping_add((t as u64) << 48)
                                        .wrapping_add(round << 8)
                                        .wrapping_add(k);
                                    let mut s = Src::new(x);
                                    slots[t].drawn.lock().unwrap().clear();
                                    s.shown = Some(slots[t].drawn.clone());
                                    slots[t].contract.store(i, Ordering::SeqCst);
                                    slots[t].since.store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                                    let outcome = run(c, &mut s);
                                    slots[t].since.store(0, Ordering::SeqCst);
                                    match outcome {
                                        Outcome::Held => held[i] += 1,
                                        Outcome::Skipped => {},
                                        Outcome::Failed(m) => {
                                            out.push(format!("FAIL {} | {} | {}", c.0, m, values(&s.log)));
                                            failed[i] = true;
                                            break;
                                        },
                                    }
                                    if k % 8 == 0 && Instant::now() >= end {
                                        break;
                                    }
                                }
                            }
                            round += 1;
                        }
                        (out, held)
                    })
                })
                .collect();
            while handles.iter().any(|h| !h.is_finished()) {
                std::thread::sleep(Duration::from_millis(20));
                for s in slots.iter() {
                    let since = s.since.load(Ordering::SeqCst);
                    if since != 0 && start.elapsed().as_millis() as u64 > since + ENDLESS_MS {
                        let c = &sel[s.contract.load(Ordering::SeqCst)];
                        println!("FAIL {} | does not return | {}", c.0, values(&s.drawn.lock().unwrap()));
                        std::process::exit(1);
                    }
                }
            }
            let mut seen = std::collections::HashSet::new();
            let mut total = vec![0u64; sel.len()];
            let mut bad = false;
            for h in handles {
                let (out, held) = h.join().unwrap();
                for (i, x) in held.iter().enumerate() {
                    total[i] += x;
                }
                for l in out {
                    bad = true;
                    let key: String = l.split('|').take(2).collect();
                    if seen.insert(key) {
                        println!("{}", l);
                    }
                }
            }
            for (i, c) in sel.iter().enumerate() {
                println!("RAN {} {}", c.0, total[i]);
            }
            if bad {
                std::process::exit(1);
            }
        },
        _ => {
            eprintln!("usage: replay list | given | search");
            std::process::exit(2);
        },
    }
}
