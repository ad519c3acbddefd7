//! Runtime monitors for embedded-audio-tools. One process run = one property in one build mode.
//!
//! monitor --prop C07 --mode release --seed 1 --tier quick [--case K] [--shard I/N] [--threads T]
//!         [--max-seconds S] [--scale X]
//!
//! Prints one line `RESULT <json>` (observations and violations). Exit 0 whenever the run finished.
mod conc;
mod core;
mod env;
mod fx;
#[cfg(not(miri))]
mod giant;
#[cfg(all(not(miri), target_arch = "x86_64"))]
mod irq;
mod long;
mod mem;
mod met;
mod num;
mod osc;
#[cfg(not(miri))]
mod rt;
mod sys;

use crate::core::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    /// cases of a quick release-mode run; other modes and tiers scale it
    pub cases: u64,
    /// systematic cases (index below this) that every run must contain
    pub systematic: u64,
    /// cases per Miri shard
    pub miri: u64,
    /// run on one thread (the property makes its own threads)
    pub serial: bool,
    /// what makes a case non-trivial
    pub rule: &'static str,
    /// observations without which the run is inconclusive: (label, modes: n = native, m = miri)
    pub required: &'static [&'static str],
}

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(mem::props());
    v.extend(fx::props());
    v.extend(env::props());
    v.extend(osc::props());
    v.extend(num::props());
    v.extend(conc::props());
    v.extend(sys::props());
    v.extend(met::props());
    #[cfg(not(miri))]
    v.extend(rt::props());
    #[cfg(all(not(miri), target_arch = "x86_64"))]
    v.extend(irq::props());
    v
}

/// cases take milliseconds; one that takes this long is not going to return
const HANG_MS: u64 = 90_000;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// run one case, turning a panic that escapes the library into a violation
fn one(p: &Prop, c: &mut Ctx, k: u64) {
    c.begin(k);
    c.obs.cases += 1;
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(c)));
    let v = match r {
        Ok(Ok(())) => return,
        Ok(Err(v)) => v,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if m.contains("harness:") || m.contains("src/main.rs") {
                eprintln!("HARNESS-ERROR case={k}: {m}");
                std::process::exit(3);
            }
            viol("panic", format!("panicked: {m}; {}", c.trace()))
        }
    };
    c.obs.viols.push((k, v));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    if args.iter().any(|a| a == "--list") {
        for p in props() {
            println!("{}", p.id);
        }
        return;
    }
    let id = opt("--prop").expect("--prop");
    let mode = if cfg!(miri) {
        Mode::Miri
    } else {
        match opt("--mode").expect("--mode").as_str() {
            "release" => Mode::Release,
            "checked" => Mode::Checked,
            "asan" => Mode::Asan,
            "tsan" => Mode::Tsan,
            m => panic!("harness: unknown mode {m}"),
        }
    };
    let seed: u64 = opt("--seed").map_or(1, |s| s.parse().unwrap());
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let ps = props();
    let p: &'static Prop = Box::leak(Box::new(ps.into_iter().find(|p| p.id == id).expect("harness: unknown property")));
    let (shard, shards) = opt("--shard").map_or((0u64, 1u64), |s| {
        let (a, b) = s.split_once('/').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    });
    let max = Duration::from_secs_f64(opt("--max-seconds").map_or(300.0, |s| s.parse().unwrap()));
    let scale: f64 = opt("--scale").map_or(1.0, |s| s.parse().unwrap());
    let total = match mode {
        Mode::Miri => p.miri * shards,
        _ => p.systematic.max((p.cases as f64 * scale) as u64),
    };
    let threads = if mode == Mode::Miri || p.serial { 1 } else { opt("--threads").map_or(8, |s| s.parse().unwrap()) };
    install_panic_hook();
    install_crash_handler(mode);

    let single: Option<u64> = opt("--case").map(|s| s.parse().unwrap());
    let start = Instant::now();
    let mut all = Obs::default();
    let mut capped = false;
    if let Some(k) = single {
        let mut c = Ctx::new(p.id, seed, mode, thorough);
        one(p, &mut c, k);
        all.merge(c.obs);
    } else if mode == Mode::Miri {
        let mut c = Ctx::new(p.id, seed, mode, thorough);
        for i in 0..p.miri {
            let k = i * shards + shard;
            eprintln!("case={k}");
            one(p, &mut c, k);
            if !c.obs.viols.is_empty() {
                break;
            }
            if start.elapsed() > max {
                capped = true;
                break;
            }
        }
        all.merge(c.obs);
    } else {
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let cap = AtomicBool::new(false);
        let sum = Mutex::new(Obs::default());
        // a case that does not return: library code that hangs
        let slots: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect();
        let finished = AtomicBool::new(false);
        let left = AtomicU64::new(threads);
        std::thread::scope(|s| {
            let (slots, finished, left) = (&slots, &finished, &left);
            s.spawn(move || {
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = start.elapsed().as_millis() as u64;
                    for (case, since) in slots {
                        let (k, t) = (case.load(Ordering::Relaxed), since.load(Ordering::Relaxed));
                        if k > 0 && case.load(Ordering::Relaxed) == k && now > t + HANG_MS {
                            // one that waits for another's lock may be among them
                            for (case, since) in slots {
                                let (k, t) = (case.load(Ordering::Relaxed), since.load(Ordering::Relaxed));
                                if k > 0 && now > t + HANG_MS / 2 {
                                    eprintln!("\nHANG case={}", k - 1);
                                }
                            }
                            std::process::exit(4);
                        }
                    }
                }
            });
            for slot in slots {
                let (next, stop, cap, sum) = (&next, &stop, &cap, &sum);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut c = Ctx::new(p.id, seed, mode, thorough);
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let k = next.fetch_add(1, Ordering::Relaxed);
                            if k >= total {
                                break;
                            }
                            slot.1.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                            slot.0.store(k + 1, Ordering::Relaxed);
                            one(p, &mut c, k);
                            slot.0.store(0, Ordering::Relaxed);
                            if c.obs.viols.iter().filter(|(_, v)| !v.key.starts_with("finding:")).count() >= 3 {
                                stop.store(true, Ordering::Relaxed);
                            }
                            // the systematic part is never cut short
                            if k >= p.systematic && start.elapsed() > max {
                                cap.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        sum.lock().unwrap().merge(c.obs);
                        if left.fetch_sub(1, Ordering::Relaxed) == 1 {
                            finished.store(true, Ordering::Relaxed);
                        }
                    })
                    .expect("harness: thread");
            }
        });
        all = sum.into_inner().unwrap();
        capped = cap.load(Ordering::Relaxed);
    }

    // one line per listed-finding key, after everything else
    all.viols.sort_by_key(|(k, v)| (v.key.starts_with("finding:"), *k));
    let mut seen = std::collections::HashSet::new();
    all.viols.retain(|(_, v)| !v.key.starts_with("finding:") || seen.insert(v.key.clone()));
    let distinct = all.distinct.len() as u64 + all.enumerated;
    let missing: Vec<&str> = if mode == Mode::Miri || single.is_some() {
        vec![]
    } else {
        p.required.iter().copied().filter(|l| all.cov.get(l).copied().unwrap_or(0) == 0).collect()
    };
    let mut o = String::from("{");
    o += &format!("\"prop\":{},\"mode\":\"{:?}\",\"seed\":{seed},\"cases\":{},\"evaluations\":{},\"distinct\":{distinct},", js(p.id), mode, all.cases, all.evals);
    o += &format!("\"enumerated\":{},\"distinct_set_full\":{},\"panics_allowed\":{},\"time_capped\":{capped},", all.enumerated, all.distinct_overflow > 0, all.panics_allowed);
    o += &format!("\"rule\":{},", js(p.rule));
    o += "\"observed\":{";
    o += &all.cov.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",");
    o += "},\"maxima\":{";
    o += &all.maxima.iter().map(|(k, v)| format!("{}:{}", js(k), if v.is_finite() { format!("{v:e}") } else { "null".into() })).collect::<Vec<_>>().join(",");
    o += "},\"missing\":[";
    o += &missing.iter().map(|m| js(m)).collect::<Vec<_>>().join(",");
    o += "],\"samples\":[";
    o += &all.samples.iter().take(6).map(|m| js(m)).collect::<Vec<_>>().join(",");
    o += "],\"violations\":[";
    o += &all.viols.iter().take(12).map(|(k, v)| format!("{{\"case\":{k},\"key\":{},\"msg\":{}}}", js(&v.key), js(&v.msg))).collect::<Vec<_>>().join(",");
    o += "]}";
    println!("RESULT {o}");
}
