//! builds --seed S --from A --to B     one line "case digest words" per case
//! builds --seed S --case K            one line "what value" per result of the case
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use work::*;

struct Log(Vec<(&'static str, u32)>);
impl Sink for Log {
    fn word(&mut self, what: &'static str, v: u32) {
        self.0.push((what, v))
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].parse::<u64>().unwrap());
    if std::env::var_os("SHOW").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let seed = num("--seed").unwrap();
    PLACE.store(num("--place").unwrap_or(0) as usize, std::sync::atomic::Ordering::Relaxed);
    let out = std::io::stdout();
    if let Some(k) = num("--case") {
        let mut l = Log(vec![]);
        let ok = catch_unwind(AssertUnwindSafe(|| run(seed, k as u32, &mut l))).is_ok();
        let mut o = out.lock();
        for (w, v) in l.0 {
            writeln!(o, "{w}\t{v:08x}").unwrap();
        }
        writeln!(o, "{}", if ok { "end" } else { "panic" }).unwrap();
        return;
    }
    let (from, to) = (num("--from").unwrap() as u32, num("--to").unwrap() as u32);
    let threads = num("--threads").unwrap_or(1) as u32;
    let mut parts: Vec<String> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                s.spawn(move || {
                    let n = to - from;
                    let (lo, hi) = (from + (n as u64 * t as u64 / threads as u64) as u32, from + (n as u64 * (t + 1) as u64 / threads as u64) as u32);
                    let mut o = String::new();
                    for k in lo..hi {
                        let mut d = Digest::new();
                        match catch_unwind(AssertUnwindSafe(|| run(seed, k, &mut d))) {
                            Ok(()) => o += &format!("{k} {:016x} {}\n", d.hash, d.words),
                            Err(_) => o += &format!("{k} panic 0\n"),
                        }
                    }
                    o
                })
            })
            .collect();
        for h in hs {
            parts.push(h.join().unwrap());
        }
    });
    let mut o = out.lock();
    for p in parts {
        o.write_all(p.as_bytes()).unwrap();
    }
}
