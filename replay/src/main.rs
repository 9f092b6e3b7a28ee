//! Replays and searches for concrete failing inputs of the listed properties through the crate's
//! public interface. Used only to turn a failed proof obligation into a concrete witness.
//!
//!   replay run  PROP SEED MILLIS [WORD...]   explore; WORDs are interesting integers
//!   replay case PROP CASE [WORD...]          run one case again
//!   replay selftest                          print reference digests (compared with hashlib)
//!   replay ct N | feat ...                   see ct.rs, feat.rs
mod cases;
mod ct;
mod feat;
mod refimpl;

use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(pub u64, pub std::sync::Arc<Vec<u64>>);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    /// an integer biased to boundaries
    pub fn int(&mut self) -> u64 {
        let d = self.1.len() as u64;
        let base = match self.below(6) {
            0 => self.next(),
            1 => self.next() >> self.below(64),
            2 => (1u64 << self.below(64)).wrapping_sub(self.below(3)),
            3 => !0u64 << self.below(64),
            4 if d > 0 => {
                let i = self.below(d) as usize;
                self.1[i].wrapping_add(self.below(5)).wrapping_sub(2)
            }
            5 if d > 0 => {
                let i = self.below(d) as usize;
                self.1[i]
            }
            _ => self.below(300),
        };
        base
    }
    /// a length biased to block boundaries
    pub fn len(&mut self, max: usize) -> usize {
        let d = self.1.len() as u64;
        let v = match self.below(9) {
            0 => 0,
            1 => self.below(66),
            2 | 3 => (64 * self.below(36) + self.below(3)).wrapping_sub(1),
            4 => (512 * self.below(6) + self.below(3)).wrapping_sub(1),
            5 => 448 + 512 * self.below(4) + self.below(68),
            6 if d > 0 => {
                let i = self.below(d) as usize;
                self.1[i].wrapping_add(self.below(5)).wrapping_sub(2)
            }
            7 if d > 0 => {
                let i = self.below(d) as usize;
                self.1[i]
            }
            _ => self.below(max as u64 + 1),
        };
        if v > max as u64 && v <= 1 << 25 && self.chance(1, (v >> 14) + 4) {
            v as usize // a long input suggested by the code or a counterexample
        } else if v > max as u64 {
            self.below(max as u64 + 1) as usize
        } else {
            v as usize
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        let mode = self.below(8);
        while v.len() < n {
            let x = match mode {
                0 => 0,
                1 => !0,
                _ => self.next(),
            };
            v.extend_from_slice(&x.to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

fn mix(seed: u64, i: u64) -> u64 {
    let mut r = Rng(seed ^ i.wrapping_mul(0xD1342543DE82EF95), Default::default());
    r.next()
}

/// Runs a case: None if the property held, otherwise what failed.
fn run_case(prop: &str, case: u64, dict: &std::sync::Arc<Vec<u64>>) -> Option<String> {
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| {
        let mut rng = Rng(case, dict.clone());
        cases::run(prop, &mut rng)
    }));
    verdict(prop, r)
}

fn verdict(prop: &str, r: std::thread::Result<Result<(), String>>) -> Option<String> {
    match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => {
            if prop == "C11" {
                None
            } else {
                Some(e)
            }
        }
        Err(p) => {
            let s = if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".to_string()
            };
            Some(format!("unexpected panic: {}\nin the case: {}", s, cases::describe()))
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dict = |from: usize| -> std::sync::Arc<Vec<u64>> {
        std::sync::Arc::new(a.iter().skip(from).filter_map(|x| x.parse::<u64>().ok()).collect())
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("selftest") => cases::selftest(),
        Some("ct") => ct::main(&a[2..]),
        Some("feat") => feat::main(&a[2..]),
        Some("case") => {
            cases::set_verbose();
            let prop = &a[2];
            let r = if let Some(n) = a[3].strip_prefix("big") {
                let n: u32 = n.parse().unwrap();
                verdict(prop, panic::catch_unwind(panic::AssertUnwindSafe(|| cases::big(prop, n).unwrap_or(Ok(())))))
            } else {
                run_case(prop, a[3].parse().unwrap(), &dict(4))
            };
            match r {
                Some(e) => {
                    println!("FAILS: {}", e);
                    std::process::exit(1);
                }
                None => println!("holds"),
            }
        }
        Some("run") => {
            panic::set_hook(Box::new(|_| {}));
            let prop = a[2].clone();
            let seed: u64 = a[3].parse().unwrap();
            let ms: u64 = a[4].parse().unwrap();
            let dict = dict(5);
            let stop = AtomicBool::new(false);
            let done = AtomicU64::new(0);
            let found: Mutex<Option<(String, String)>> = Mutex::new(None);
            let end = Instant::now() + Duration::from_millis(ms);
            let threads = std::env::var("REPLAY_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8u64);
            std::thread::scope(|s| {
                for t in 0..threads {
                    let (prop, dict, stop, done, found) = (&prop, dict.clone(), &stop, &done, &found);
                    s.spawn(move || {
                        let mut i = t;
                        while !stop.load(Ordering::Relaxed) && Instant::now() < end {
                            let c = mix(seed, i);
                            if std::env::var("REPLAY_ECHO").is_ok() {
                                println!("case {}", c);
                            }
                            if let Some(e) = run_case(prop, c, &dict) {
                                let mut f = found.lock().unwrap();
                                if f.is_none() {
                                    *f = Some((c.to_string(), e));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                            done.fetch_add(1, Ordering::Relaxed);
                            i += threads;
                        }
                    });
                }
            });
            let f = found.lock().unwrap();
            println!("EXPLORED {}", done.load(Ordering::Relaxed));
            if let Some((c, e)) = &*f {
                println!("WITNESS {}\n{}", c, e);
                std::process::exit(1);
            }
            drop(f);
            if std::env::var("REPLAY_BIG").is_ok() {
                for n in 0.. {
                    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| cases::big(&prop, n)));
                    let r = match r {
                        Ok(None) => break,
                        Ok(Some(x)) => Ok(x),
                        Err(e) => Err(e),
                    };
                    println!("EXPLORED 1");
                    if let Some(e) = verdict(&prop, r) {
                        println!("WITNESS big{}\n{}", n, e);
                        std::process::exit(1);
                    }
                }
            }
        }
        _ => std::process::exit(2),
    }
}
