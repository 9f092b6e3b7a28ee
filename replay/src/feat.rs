//! What runs when run-time detection reports no AVX2: the cached feature word of std is replaced
//! and the entry of every function compiled for extra CPU features becomes a trap.
//!   replay feat CACHE_ADDR NAME=ADDR...     addresses as linked
use crate::{cases, Rng};

pub extern "C" fn anchor() {}

extern "C" {
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
}

extern "C" fn trap(_: i32) {
    let m = b"TRAP: code compiled for AVX2 or SSE4.1 ran although the CPU does not report it\n";
    unsafe {
        write(1, m.as_ptr(), m.len());
        _exit(1)
    }
}

pub fn main(a: &[String]) {
    let base = {
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
        let exe = std::env::current_exe().unwrap();
        let l = maps.lines().find(|l| l.ends_with(exe.to_str().unwrap())).unwrap().to_string();
        usize::from_str_radix(l.split('-').next().unwrap(), 16).unwrap()
    };
    let at = |s: &str| base + usize::from_str_radix(s, 16).unwrap();
    // detection result without AVX2 / SSE4.1
    let _ = std::arch::is_x86_feature_detected!("avx2");
    if a[0] != "-" {
        let keep: u64 = a[1].parse().unwrap();
        let c = at(&a[0]) as *mut u64;
        unsafe {
            let v = c.read_volatile();
            c.write_volatile(v & keep);
        }
    }
    for n in &a[2..] {
        let p = at(n);
        unsafe {
            let page = p & !4095;
            mprotect(page as *mut u8, 8192, 7);
            (p as *mut u8).write_volatile(0xcc);
            mprotect(page as *mut u8, 8192, 5);
        }
    }
    unsafe {
        signal(5, trap as *const () as usize);
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut bad = 0;
    for i in 0..4000u64 {
        for prop in ["C01", "C03", "C06", "C08", "C09", "C10"] {
            let mut rng = Rng(i.wrapping_mul(7919) + 1, Default::default());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cases::run(prop, &mut rng)));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) => {
                    println!("WITNESS {} {}", prop, e);
                    bad = 1;
                }
                Err(_) => {
                    println!("WITNESS {} panic in {}", prop, cases::describe());
                    bad = 1;
                }
            }
            if bad != 0 {
                std::process::exit(1);
            }
        }
    }
    println!("EXPLORED 24000");
}
