//! Constant-time comparison under valgrind: the digest bytes are marked undefined (memcheck client
//! requests), so a branch or address that depends on them is reported by memcheck.
use std::arch::asm;

fn request(r: usize, p: *const u8, n: usize) {
    let args: [usize; 6] = [r, p as usize, n, 0, 0, 0];
    unsafe {
        asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rax") args.as_ptr() => _, inout("rdx") 0usize => _, inout("rdi") 0usize => _,
        );
    }
}
const UNDEFINED: usize = 0x4d43_0001;
const DEFINED: usize = 0x4d43_0002;

pub fn main(a: &[String]) {
    let start: usize = a.get(0).and_then(|x| x.parse().ok()).unwrap_or(1);
    let end: usize = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(32);
    for n in start..=end {
        let x = blake2s_simd::Params::new().hash_length(n).to_state().update(b"a").finalize();
        let other: Vec<u8> = vec![7u8; n];
        let mut y = blake2s_simd::Params::new().hash_length(n).to_state().update(b"b").finalize();
        for h in [&x, &y] {
            request(UNDEFINED, h.as_bytes().as_ptr(), n);
        }
        request(UNDEFINED, other.as_ptr(), n);
        let mut r = [false; 2];
        r[0] = std::hint::black_box(&x) == std::hint::black_box(&y);
        r[1] = *std::hint::black_box(&x) == *std::hint::black_box(&other[..]);
        request(DEFINED, r.as_ptr() as *const u8, 2);
        request(DEFINED, other.as_ptr(), n);
        std::hint::black_box(&mut y);
        println!("n={} {:?}", n, r);
    }
}
