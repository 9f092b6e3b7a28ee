use crate::refimpl::{self as rf, P};
use crate::Rng;
use blake2s_simd as b2;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};

type R = Result<(), String>;

thread_local! {
    static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
}
static VERBOSE: AtomicBool = AtomicBool::new(false);

pub fn set_verbose() {
    VERBOSE.store(true, Ordering::Relaxed);
}

fn log<F: FnOnce() -> String>(f: F) {
    LOG.with(|l| l.borrow_mut().push(f()));
}

pub fn describe() -> String {
    LOG.with(|l| l.borrow().join("; "))
}

fn fail(s: String) -> R {
    Err(format!("{}\nin the case: {}", s, describe()))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn short(b: &[u8]) -> String {
    if b.len() <= 40 {
        format!("{} bytes {}", b.len(), hex(b))
    } else {
        format!("{} bytes {}..{}", b.len(), hex(&b[..16]), hex(&b[b.len() - 8..]))
    }
}

fn same(what: &str, got: &b2::Hash, want: &[u8]) -> R {
    if got.as_bytes() != want {
        return fail(format!("{}: got {} expected {}", what, hex(got.as_bytes()), hex(want)));
    }
    Ok(())
}

/// Input memory of exactly the requested size, at any alignment.
pub struct Buf(Box<[u8]>, usize);

impl Buf {
    fn new(rng: &mut Rng, b: &[u8]) -> Buf {
        let off = rng.below(9) as usize;
        let mut v = vec![0u8; off];
        v.extend_from_slice(b);
        Buf(v.into_boxed_slice(), off)
    }
    fn get(&self) -> &[u8] {
        &self.0[self.1..]
    }
}

fn gen_params(rng: &mut Rng, keyed: Option<bool>) -> P {
    let mut p = P::default();
    if rng.chance(3, 4) {
        p.hash_length = 1 + rng.below(32) as usize;
    }
    if keyed.unwrap_or_else(|| rng.chance(1, 3)) {
        let n = 1 + rng.below(32) as usize;
        p.key = rng.bytes(n);
    }
    if rng.chance(1, 2) {
        let n = rng.below(9) as usize;
        p.salt = rng.bytes(n);
        let n = rng.below(9) as usize;
        p.personal = rng.bytes(n);
    }
    if rng.chance(1, 2) {
        p.fanout = rng.int() as u8;
        p.max_depth = std::cmp::max(1, rng.int() as u8);
        p.max_leaf_length = rng.int() as u32;
        p.node_offset = rng.int() & ((1 << 48) - 1);
        p.node_depth = rng.int() as u8;
        p.inner_hash_length = rng.below(33) as usize;
    }
    p.last_node = rng.chance(1, 3);
    p
}

fn apply(rng: &mut Rng, p: &P) -> b2::Params {
    let mut q = if rng.chance(1, 2) { b2::Params::new() } else { b2::Params::default() };
    let mut order: Vec<usize> = (0..11).collect();
    for i in (1..11).rev() {
        let j = rng.below(i as u64 + 1) as usize;
        order.swap(i, j);
    }
    // values set earlier are overridden completely
    if rng.chance(1, 4) {
        let a = gen_params(rng, Some(true));
        q.hash_length(a.hash_length)
            .key(&a.key)
            .salt(&a.salt)
            .personal(&a.personal)
            .fanout(a.fanout)
            .max_depth(a.max_depth)
            .max_leaf_length(a.max_leaf_length)
            .node_offset(a.node_offset)
            .node_depth(a.node_depth)
            .inner_hash_length(a.inner_hash_length)
            .last_node(a.last_node);
    }
    for o in order {
        match o {
            0 => q.hash_length(p.hash_length),
            1 => q.key(&p.key),
            2 => q.salt(&p.salt),
            3 => q.personal(&p.personal),
            4 => q.fanout(p.fanout),
            5 => q.max_depth(p.max_depth),
            6 => q.max_leaf_length(p.max_leaf_length),
            7 => q.node_offset(p.node_offset),
            8 => q.node_depth(p.node_depth),
            9 => q.inner_hash_length(p.inner_hash_length),
            _ => q.last_node(p.last_node),
        };
    }
    if rng.chance(1, 4) {
        q.clone()
    } else {
        q
    }
}

/// The states of a case use the portable code if this is true (and it can be selected).
fn portable(rng: &mut Rng) -> bool {
    let x = cfg!(feature = "portable") && rng.chance(1, 3);
    if x {
        log(|| "portable".into());
    }
    x
}

fn force(yes: bool, s: &mut b2::State) {
    let _ = &s;
    #[cfg(feature = "portable")]
    if yes {
        b2::benchmarks::force_portable(s);
    }
    let _ = yes;
}

fn force_sp(yes: bool, s: &mut b2::blake2sp::State) {
    let _ = &s;
    #[cfg(feature = "portable")]
    if yes {
        b2::benchmarks::force_portable_blake2sp(s);
    }
    let _ = yes;
}

/// What one State gives for a message: the oracle of the properties that relate the crate to itself.
fn one(q: &b2::Params, port: bool, msg: &[u8]) -> Vec<u8> {
    let mut s = q.to_state();
    force(port, &mut s);
    s.update(msg);
    s.finalize().as_bytes().to_vec()
}

fn one_sp(q: &b2::blake2sp::Params, port: bool, msg: &[u8]) -> Vec<u8> {
    let mut s = q.to_state();
    force_sp(port, &mut s);
    s.update(msg);
    s.finalize().as_bytes().to_vec()
}

pub fn run(prop: &str, rng: &mut Rng) -> R {
    LOG.with(|l| l.borrow_mut().clear());
    match prop {
        "C01" => c01(rng),
        "C02" => c02(rng),
        "C03" => c03(rng),
        "C04" => c04(rng),
        "C05" => c05(rng),
        "C06" => c06(rng),
        "C07" => c07(rng),
        "C08" => c08(rng),
        "C09" => c09(rng),
        "C10" => c10(rng),
        "C12" => c12(rng),
        "C13" => c13(rng),
        "C14" => c14(rng),
        "C11" => match rng.below(11) {
            0 => c01(rng),
            1 => c02(rng),
            2 => c03(rng),
            3 => c04(rng),
            4 => c05(rng),
            5 => c06(rng),
            6 => c07(rng),
            7 => c08(rng),
            8 => c09(rng),
            9 => c10(rng),
            _ => c12(rng),
        },
        _ => Ok(()),
    }
}

fn c01(rng: &mut Rng) -> R {
    let n = rng.len(2400);
    let msg = rng.bytes(n);
    let m = Buf::new(rng, &msg);
    if rng.chance(1, 6) {
        log(|| format!("default parameters, message {}", short(&msg)));
        let want = rf::blake2s(&P::default(), &msg);
        same("blake2s()", &b2::blake2s(m.get()), &want)?;
        same("State::new()", &b2::State::new().update(m.get()).finalize(), &want)?;
        return same("State::default()", &b2::State::default().update(m.get()).finalize(), &want);
    }
    let p = gen_params(rng, None);
    log(|| format!("{:?}, message {}", p, short(&msg)));
    let q = apply(rng, &p);
    let want = rf::blake2s(&p, &msg);
    let mut s = q.to_state();
    force(portable(rng), &mut s);
    s.update(m.get());
    same("to_state().update().finalize()", &s.finalize(), &want)
}

/// The dispatched code agrees with the portable code.
fn c13(rng: &mut Rng) -> R {
    match rng.below(4) {
        0 => {
            let n = rng.len(2400);
            let msg = rng.bytes(n);
            let p = gen_params(rng, None);
            log(|| format!("{:?}, message {}", p, short(&msg)));
            let q = apply(rng, &p);
            let want = one(&q, true, &msg);
            same("dispatched and portable", &q.to_state().update(&msg).finalize(), &want)
        }
        1 => {
            let (q, hl, key) = sp_params(rng);
            let n = rng.len(2400);
            let msg = rng.bytes(n);
            log(|| format!("blake2sp hash_length {} key {} message {}", hl, hex(&key), short(&msg)));
            let want = one_sp(&q, true, &msg);
            same("dispatched and portable", &q.to_state().update(&msg).finalize(), &want)
        }
        2 => c09(rng),
        _ => c10(rng),
    }
}

fn words(rng: &mut Rng) -> [u32; 8] {
    let mut w = [0u32; 8];
    for x in &mut w {
        *x = if rng.chance(1, 8) { rng.int() as u32 } else { rng.next() as u32 };
    }
    w
}

#[cfg(not(feature = "kernels"))]
fn c02(rng: &mut Rng) -> R {
    c02_public(rng)
}

/// The compression functions through the public interface.
fn c02_public(rng: &mut Rng) -> R {
    match rng.below(5) {
        0 => c01(rng),
        1 => c06(rng),
        k => {
            let p = gen_params(rng, Some(false));
            let q = apply(rng, &p);
            let n = 64 * (1 + rng.below(20) as usize);
            let v: Vec<Vec<u8>> = (0..8).map(|_| rng.bytes(n)).collect();
            log(|| format!("{:?}, eight messages of {} bytes", p, n));
            let o = match k {
                2 => b2::hash4_exact(&q, &v[0], &v[1], &v[2], &v[3]).to_vec(),
                3 => b2::hash8_exact(&q, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], &v[7]).to_vec(),
                _ => b2::hash8(&q, &q, &q, &q, &q, &q, &q, &q, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6], &v[7]).to_vec(),
            };
            for i in 0..o.len() {
                same(&format!("#{}", i), &o[i], &rf::blake2s(&p, &v[i]))?;
            }
            Ok(())
        }
    }
}

#[cfg(feature = "kernels")]
fn c02(rng: &mut Rng) -> R {
    use b2::benchmarks as k;
    use std::arch::x86_64::*;
    if rng.chance(1, 8) {
        return c02_public(rng);
    }
    let mut h = [[0u32; 8]; 8];
    let mut m = [[0u8; 64]; 8];
    let mut t = [0u64; 8];
    let mut f0 = [0u32; 8];
    let mut f1 = [0u32; 8];
    for l in 0..8 {
        h[l] = words(rng);
        m[l].copy_from_slice(&rng.bytes(64));
        t[l] = rng.int();
        f0[l] = match rng.below(3) {
            0 => 0,
            1 => !0,
            _ => rng.int() as u32,
        };
        f1[l] = match rng.below(3) {
            0 => 0,
            1 => !0,
            _ => rng.int() as u32,
        };
        if l > 0 && rng.chance(1, 6) {
            h[l] = h[0];
            m[l] = m[0];
            t[l] = t[0];
        }
    }
    let mut want = h;
    for l in 0..8 {
        rf::f(&mut want[l], &m[l], t[l], f0[l], f1[l]);
    }
    let avx2 = is_x86_feature_detected!("avx2");
    let sse = is_x86_feature_detected!("sse4.1");
    let cmp = |name: &str, l: usize, got: &[u32; 8]| -> R {
        if *got != want[l] {
            return fail(format!(
                "{} lane {}: h={:x?} block={} count={:#x} lastblock={:#x} lastnode={:#x}: got {:x?} expected {:x?}",
                name, l, h[l], hex(&m[l]), t[l], f0[l], f1[l], got, want[l]
            ));
        }
        Ok(())
    };
    let bufs: Vec<Buf> = (0..8).map(|l| Buf::new(rng, &m[l])).collect();
    let blk: Vec<&[u8; 64]> = bufs.iter().map(|b| <&[u8; 64]>::try_from(b.get()).unwrap()).collect();
    macro_rules! eight {
        ($f:path, $g:expr) => {{
            let mut g = h;
            let [g0, g1, g2, g3, g4, g5, g6, g7] = &mut g;
            #[allow(unused_unsafe)]
            unsafe {
                $f(
                    g0, g1, g2, g3, g4, g5, g6, g7, blk[0], blk[1], blk[2], blk[3], blk[4], blk[5], blk[6], blk[7],
                    t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7], f0[0], f0[1], f0[2], f0[3], f0[4], f0[5], f0[6],
                    f0[7], f1[0], f1[1], f1[2], f1[3], f1[4], f1[5], f1[6], f1[7],
                );
            }
            for l in 0..8 {
                cmp($g, l, &g[l])?;
            }
        }};
    }
    match rng.below(7) {
        0 => {
            let mut g = h[0];
            #[allow(unused_unsafe)]
            unsafe {
                k::compress_portable(&mut g, blk[0], t[0], f0[0], f1[0]);
            }
            cmp("portable::compress", 0, &g)
        }
        1 if sse => {
            let mut g = h[0];
            unsafe {
                k::compress_sse41(&mut g, blk[0], t[0], f0[0], f1[0]);
            }
            cmp("sse41::compress", 0, &g)
        }
        2 => {
            eight!(k::compress8_portable, "portable::compress8");
            Ok(())
        }
        3 if avx2 => {
            eight!(k::compress8_avx2, "avx2::compress8");
            Ok(())
        }
        4 if sse => unsafe {
            let mut g: [__m128i; 8] = std::mem::zeroed();
            let set = |f: &dyn Fn(usize) -> u32| -> __m128i {
                _mm_setr_epi32(f(0) as i32, f(1) as i32, f(2) as i32, f(3) as i32)
            };
            for i in 0..8 {
                g[i] = set(&|l| h[l][i]);
            }
            k::compress4_transposed_sse41(
                &mut g,
                blk[0],
                blk[1],
                blk[2],
                blk[3],
                set(&|l| t[l] as u32),
                set(&|l| (t[l] >> 32) as u32),
                set(&|l| f0[l]),
                set(&|l| f1[l]),
            );
            let o: [[u32; 4]; 8] = std::mem::transmute(g);
            for l in 0..4 {
                let mut w = [0u32; 8];
                for i in 0..8 {
                    w[i] = o[i][l];
                }
                cmp("sse41::compress4_transposed", l, &w)?;
            }
            Ok(())
        },
        5 if avx2 => unsafe {
            let mut g = [b2::AlignedWords8([0; 8]); 8];
            for i in 0..8 {
                for l in 0..8 {
                    g[i].0[l] = h[l][i];
                }
            }
            let set = |f: &dyn Fn(usize) -> u32| b2::AlignedWords8([f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7)]);
            k::compress8_vectorized_avx2(
                &mut g,
                blk[0],
                blk[1],
                blk[2],
                blk[3],
                blk[4],
                blk[5],
                blk[6],
                blk[7],
                &set(&|l| t[l] as u32),
                &set(&|l| (t[l] >> 32) as u32),
                &set(&|l| f0[l]),
                &set(&|l| f1[l]),
            );
            for l in 0..8 {
                let mut w = [0u32; 8];
                for i in 0..8 {
                    w[i] = g[i].0[l];
                }
                cmp("avx2::compress8_vectorized", l, &w)?;
            }
            Ok(())
        },
        6 if avx2 => unsafe {
            let mut g: [__m256i; 8] = std::mem::zeroed();
            let mut mv: [__m256i; 16] = std::mem::zeroed();
            let set = |f: &dyn Fn(usize) -> u32| -> __m256i {
                let a = [f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7)];
                std::mem::transmute(a)
            };
            for i in 0..8 {
                g[i] = set(&|l| h[l][i]);
            }
            for i in 0..16 {
                mv[i] = set(&|l| u32::from_le_bytes([m[l][4 * i], m[l][4 * i + 1], m[l][4 * i + 2], m[l][4 * i + 3]]));
            }
            k::compress8_transposed_all_avx2(
                &mut g,
                &mv,
                set(&|l| t[l] as u32),
                set(&|l| (t[l] >> 32) as u32),
                set(&|l| f0[l]),
                set(&|l| f1[l]),
            );
            let o: [[u32; 8]; 8] = std::mem::transmute(g);
            for l in 0..8 {
                let mut w = [0u32; 8];
                for i in 0..8 {
                    w[i] = o[i][l];
                }
                cmp("avx2::compress8_transposed_all", l, &w)?;
            }
            Ok(())
        },
        _ => Ok(()),
    }
}

/// Feeds one piece by some method of io::Write: Some(result) if this was chosen.
#[cfg(feature = "std")]
fn written<W: std::io::Write>(rng: &mut Rng, s: &mut W, data: &[u8]) -> Option<R> {
    let n = data.len();
    match rng.below(10) {
        0 | 1 => match s.write(data) {
            Ok(k) if k == n => {}
            r => return Some(fail(format!("write({} bytes) returned {:?}", n, r))),
        },
        2 => {
            if s.write_all(data).is_err() {
                return Some(fail(format!("write_all({} bytes) failed", n)));
            }
        }
        3 => {
            // the pieces may be taken one at a time
            let (i, j) = (rng.below(n as u64 + 1) as usize, rng.below(n as u64 + 1) as usize);
            let (i, j) = (i.min(j), i.max(j));
            let mut done = 0;
            while done < n || n == 0 {
                let cut = |a: usize, b: usize| &data[a.max(done).min(b.max(done))..b.max(done)];
                let v = [std::io::IoSlice::new(cut(0, i)), std::io::IoSlice::new(cut(i, j)), std::io::IoSlice::new(cut(j, n))];
                match s.write_vectored(&v) {
                    Ok(k) if k <= n - done && (k > 0 || n == 0) => done += k,
                    r => return Some(fail(format!("write_vectored({} bytes) returned {:?}", n - done, r))),
                }
                if n == 0 {
                    break;
                }
            }
        }
        4 => {
            if std::io::copy(&mut &data[..], s).ok() != Some(n as u64) {
                return Some(fail(format!("io::copy of {} bytes failed", n)));
            }
        }
        _ => return None,
    }
    if s.flush().is_err() {
        return Some(fail("flush failed".into()));
    }
    Some(Ok(()))
}

/// Feeds one piece by update or, with std, by io::Write.
fn feed(rng: &mut Rng, s: &mut b2::State, piece: &[u8]) -> R {
    let b = Buf::new(rng, piece);
    #[cfg(feature = "std")]
    {
        if let Some(r) = written(rng, s, b.get()) {
            return r;
        }
    }
    s.update(b.get());
    Ok(())
}

fn count_is(what: &str, got: u64, want: usize) -> R {
    if got != want as u64 {
        return fail(format!("{}: count() is {} after {} bytes", what, got, want));
    }
    Ok(())
}

fn c03(rng: &mut Rng) -> R {
    let p = gen_params(rng, None);
    let q = apply(rng, &p);
    let mut s = q.to_state();
    let port = portable(rng);
    force(port, &mut s);
    let mut all = vec![];
    log(|| format!("{:?}", p));
    for _ in 0..rng.below(7) {
        let n = rng.len(600);
        let piece = rng.bytes(n);
        log(|| format!("piece {}", n));
        feed(rng, &mut s, &piece)?;
        all.extend_from_slice(&piece);
        count_is("State", s.count(), all.len())?;
    }
    same("split updates", &s.finalize(), &one(&q, port, &all))
}

fn c04(rng: &mut Rng) -> R {
    let p = gen_params(rng, None);
    let q = apply(rng, &p);
    let mut sts = vec![(q.to_state(), vec![], q.clone())];
    let port = portable(rng);
    force(port, &mut sts[0].0);
    log(|| format!("{:?}", p));
    for _ in 0..rng.below(12) {
        let i = rng.below(sts.len() as u64) as usize;
        match rng.below(6) {
            0 | 1 => {
                let n = rng.len(400);
                let piece = rng.bytes(n);
                log(|| format!("state {} update {}", i, n));
                feed(rng, &mut sts[i].0, &piece)?;
                sts[i].1.extend_from_slice(&piece);
            }
            2 | 3 => {
                log(|| format!("state {} finalize", i));
                let want = one(&sts[i].2, port, &sts[i].1);
                same("finalize", &sts[i].0.finalize(), &want)?;
            }
            4 if sts.len() < 4 => {
                log(|| format!("state {} clone", i));
                let c = (sts[i].0.clone(), sts[i].1.clone(), sts[i].2.clone());
                sts.push(c);
            }
            _ => {
                let l = rng.chance(1, 2);
                log(|| format!("state {} set_last_node {}", i, l));
                sts[i].0.set_last_node(l);
                sts[i].2.last_node(l);
            }
        }
        count_is("State", sts[i].0.count(), sts[i].1.len())?;
    }
    for i in 0..sts.len() {
        let want = one(&sts[i].2, port, &sts[i].1);
        same(&format!("state {}", i), &sts[i].0.finalize(), &want)?;
    }
    // wrong digests without the flag are not this property's concern
    let (mut s, msg, mut q) = sts.swap_remove(0);
    let with = |l: bool| rf::blake2s(&P { last_node: l, ..p.clone() }, &msg);
    q.last_node(false);
    if one(&q, port, &msg) == with(false) {
        s.set_last_node(true);
        same("finalize after set_last_node(true)", &s.finalize(), &with(true))?;
        s.set_last_node(false);
        same("finalize after set_last_node(false)", &s.finalize(), &with(false))?;
    }
    Ok(())
}

fn panics<F: FnOnce()>(f: F) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// The digests of the default parameters are right, so that digests can be used to observe parameters.
fn calibrated(msg: &[u8]) -> bool {
    let q = b2::Params::new();
    let q2 = b2::blake2sp::Params::new();
    one(&q, false, msg) == rf::blake2s(&P::default(), msg) && one_sp(&q2, false, msg) == rf::blake2sp(32, &[], msg)
}

fn c05(rng: &mut Rng) -> R {
    let msg = b"message";
    let ok = calibrated(msg);
    if rng.chance(1, 4) {
        // BLAKE2sp builder
        let mut q = if rng.chance(1, 2) { b2::blake2sp::Params::new() } else { b2::blake2sp::Params::default() };
        let (mut hl, mut key) = (32usize, vec![]);
        for _ in 0..rng.below(5) {
            if rng.chance(1, 2) {
                let n = if rng.chance(3, 4) { rng.below(40) as usize } else { rng.int() as usize };
                log(|| format!("sp hash_length({})", n));
                let bad = n < 1 || n > 32;
                if panics(|| {
                    q.hash_length(n);
                }) != bad
                {
                    return fail(format!("blake2sp hash_length({}): panic expected {}", n, bad));
                }
                if !bad {
                    hl = n;
                }
            } else {
                let n = rng.below(40) as usize;
                let k = rng.bytes(n);
                log(|| format!("sp key {}", hex(&k)));
                if panics(|| {
                    q.key(&k);
                }) != (n > 32)
                {
                    return fail(format!("blake2sp key of {} bytes: panic expected {}", n, n > 32));
                }
                if n <= 32 {
                    key = k;
                }
            }
        }
        let q = if rng.chance(1, 3) { q.clone() } else { q };
        if !ok {
            return Ok(());
        }
        return same("blake2sp", &q.to_state().update(msg).finalize(), &rf::blake2sp(hl, &key, msg));
    }
    let mut p = P::default();
    let mut q = if rng.chance(1, 2) { b2::Params::new() } else { b2::Params::default() };
    for _ in 0..rng.below(9) {
        let small = rng.below(40) as usize;
        let n = if rng.chance(3, 4) { small } else { rng.int() as usize };
        let bs = rng.bytes(small);
        let x = rng.int();
        let mut r = p.clone();
        let (name, bad, pan) = match rng.below(11) {
            0 => {
                r.hash_length = n;
                ("hash_length", n < 1 || n > 32, panics(|| drop(q.hash_length(n))))
            }
            1 => {
                r.key = bs.clone();
                ("key", small > 32, panics(|| drop(q.key(&bs))))
            }
            2 => {
                let b = &bs[..small % 12];
                r.salt = b.to_vec();
                ("salt", b.len() > 8, panics(|| drop(q.salt(b))))
            }
            3 => {
                let b = &bs[..small % 12];
                r.personal = b.to_vec();
                ("personal", b.len() > 8, panics(|| drop(q.personal(b))))
            }
            4 => {
                r.fanout = x as u8;
                ("fanout", false, panics(|| drop(q.fanout(x as u8))))
            }
            5 => {
                r.max_depth = x as u8;
                ("max_depth", x as u8 == 0, panics(|| drop(q.max_depth(x as u8))))
            }
            6 => {
                r.max_leaf_length = x as u32;
                ("max_leaf_length", false, panics(|| drop(q.max_leaf_length(x as u32))))
            }
            7 => {
                r.node_offset = x;
                ("node_offset", x >= 1 << 48, panics(|| drop(q.node_offset(x))))
            }
            8 => {
                r.node_depth = x as u8;
                ("node_depth", false, panics(|| drop(q.node_depth(x as u8))))
            }
            9 => {
                r.inner_hash_length = n;
                ("inner_hash_length", n > 32, panics(|| drop(q.inner_hash_length(n))))
            }
            _ => {
                r.last_node = x & 1 == 1;
                ("last_node", false, panics(|| drop(q.last_node(x & 1 == 1))))
            }
        };
        log(|| format!("{}(n={} bytes={} x={})", name, n, hex(&bs), x));
        if pan != bad {
            return fail(format!("{}: rejected {}, expected {}", name, pan, bad));
        }
        if !bad {
            p = r;
        }
    }
    let q = if rng.chance(1, 3) { q.clone() } else { q };
    if !ok {
        return Ok(());
    }
    same("digest with the parameters", &q.to_state().update(msg).finalize(), &rf::blake2s(&p, msg))
}

fn sp_params(rng: &mut Rng) -> (b2::blake2sp::Params, usize, Vec<u8>) {
    let mut q = b2::blake2sp::Params::new();
    let mut hl = 32;
    let mut key = vec![];
    if rng.chance(2, 3) {
        hl = 1 + rng.below(32) as usize;
        q.hash_length(hl);
    }
    if rng.chance(1, 2) {
        let n = rng.below(33) as usize;
        key = rng.bytes(n);
        q.key(&key);
    }
    (q, hl, key)
}

fn c06(rng: &mut Rng) -> R {
    let n = rng.len(4200);
    let msg = rng.bytes(n);
    let m = Buf::new(rng, &msg);
    if rng.chance(1, 4) {
        log(|| format!("blake2sp() of {}", short(&msg)));
        let want = rf::blake2sp(32, &[], &msg);
        same("blake2sp()", &b2::blake2sp::blake2sp(m.get()), &want)?;
        same("State::new()", &b2::blake2sp::State::new().update(m.get()).finalize(), &want)?;
        return same("State::default()", &b2::blake2sp::State::default().update(m.get()).finalize(), &want);
    }
    let (q, hl, key) = sp_params(rng);
    log(|| format!("hash_length {} key {} message {}", hl, hex(&key), short(&msg)));
    let mut s = q.to_state();
    force_sp(portable(rng), &mut s);
    s.update(m.get());
    same("blake2sp", &s.finalize(), &rf::blake2sp(hl, &key, &msg))
}

fn c07(rng: &mut Rng) -> R {
    let (q, hl, key) = sp_params(rng);
    let mut s = q.to_state();
    let port = portable(rng);
    force_sp(port, &mut s);
    let mut all: Vec<u8> = vec![];
    log(|| format!("hash_length {} key {}", hl, hex(&key)));
    for _ in 0..rng.below(8) {
        if rng.chance(1, 4) {
            log(|| "finalize".into());
            same("finalize", &s.finalize(), &one_sp(&q, port, &all))?;
        } else {
            let n = rng.len(1700);
            let piece = rng.bytes(n);
            log(|| format!("piece {}", n));
            let b = Buf::new(rng, &piece);
            let mut done = false;
            #[cfg(feature = "std")]
            {
                if let Some(r) = written(rng, &mut s, b.get()) {
                    r?;
                    done = true;
                }
            }
            if !done {
                s.update(b.get());
            }
            all.extend_from_slice(&piece);
        }
        count_is("blake2sp::State", s.count(), all.len())?;
    }
    let want = one_sp(&q, port, &all);
    same("finalize", &s.finalize(), &want)?;
    same("second finalize", &s.finalize(), &want)
}

fn c08(rng: &mut Rng) -> R {
    // each state has a twin that is updated and finalized separately
    let mut s: Vec<b2::State> = vec![];
    let mut w: Vec<b2::State> = vec![];
    let mut all = vec![0usize; 8];
    for i in 0..8 {
        let p = gen_params(rng, None);
        let q = apply(rng, &p);
        let port = portable(rng);
        let (mut t, mut u) = (q.to_state(), q.to_state());
        force(port, &mut t);
        force(port, &mut u);
        for _ in 0..rng.below(3) {
            let n = rng.len(300);
            let b = rng.bytes(n);
            t.update(&b);
            u.update(&b);
            all[i] += n;
        }
        log(|| format!("state {}: {:?} after {} bytes", i, p, all[i]));
        s.push(t);
        w.push(u);
    }
    for _ in 0..1 + rng.below(4) {
        let k = rng.below(3);
        if k < 2 {
            let common = rng.len(700);
            let mut bufs = vec![];
            for i in 0..8 {
                let n = if rng.chance(1, 3) { rng.len(700) } else { common };
                let b = rng.bytes(n);
                all[i] += n;
                w[i].update(&b);
                bufs.push(Buf::new(rng, &b));
            }
            log(|| format!("update8 of {:?}", bufs.iter().map(|b| b.get().len()).collect::<Vec<_>>()));
            if let [s0, s1, s2, s3, s4, s5, s6, s7] = &mut s[..] {
                b2::update8(
                    s0, s1, s2, s3, s4, s5, s6, s7, bufs[0].get(), bufs[1].get(), bufs[2].get(), bufs[3].get(),
                    bufs[4].get(), bufs[5].get(), bufs[6].get(), bufs[7].get(),
                );
            }
        } else {
            log(|| "finalize8".into());
            if let [s0, s1, s2, s3, s4, s5, s6, s7] = &mut s[..] {
                let o = b2::finalize8(s0, s1, s2, s3, s4, s5, s6, s7);
                for i in 0..8 {
                    same(&format!("finalize8 #{}", i), &o[i], w[i].finalize().as_bytes())?;
                }
            }
        }
        for i in 0..8 {
            if s[i].count() != w[i].count() {
                return fail(format!("state {}: count() is {} expected {}", i, s[i].count(), w[i].count()));
            }
        }
    }
    for i in 0..8 {
        if rng.chance(1, 2) {
            same(&format!("state {}", i), &s[i].finalize(), w[i].finalize().as_bytes())?;
        }
        if rng.chance(1, 2) {
            let n = rng.len(150);
            let b = rng.bytes(n);
            s[i].update(&b);
            w[i].update(&b);
            same(&format!("state {} after another update", i), &s[i].finalize(), w[i].finalize().as_bytes())?;
        }
    }
    Ok(())
}

fn c09(rng: &mut Rng) -> R {
    let any_key = rng.chance(1, 8);
    let mut ps = vec![];
    let mut qs = vec![];
    let mut bufs = vec![];
    let common = rng.len(1200);
    for i in 0..8 {
        let keyed = any_key && rng.chance(1, 6);
        let p = gen_params(rng, Some(keyed));
        let n = if rng.chance(1, 2) { rng.len(1200) } else { common };
        let b = rng.bytes(n);
        log(|| format!("#{} {:?} message {}", i, p, short(&b)));
        qs.push(apply(rng, &p));
        ps.push(p);
        bufs.push(Buf::new(rng, &b));
    }
    let keyed = ps.iter().any(|p| !p.key.is_empty());
    let r = catch_unwind(AssertUnwindSafe(|| {
        b2::hash8(
            &qs[0], &qs[1], &qs[2], &qs[3], &qs[4], &qs[5], &qs[6], &qs[7], bufs[0].get(), bufs[1].get(),
            bufs[2].get(), bufs[3].get(), bufs[4].get(), bufs[5].get(), bufs[6].get(), bufs[7].get(),
        )
    }));
    match r {
        Err(e) => {
            if !keyed {
                std::panic::resume_unwind(e);
            }
            Ok(())
        }
        Ok(o) => {
            if keyed {
                return fail("hash8 accepted a key".into());
            }
            for i in 0..8 {
                same(&format!("hash8 #{}", i), &o[i], &one(&qs[i], false, bufs[i].get()))?;
            }
            Ok(())
        }
    }
}

fn c10(rng: &mut Rng) -> R {
    let n = if rng.chance(1, 2) { 4 } else { 8 };
    let p = gen_params(rng, None);
    let q = apply(rng, &p);
    let mut common = 64 * (rng.len(1300) / 64 + 1);
    if rng.chance(1, 12) {
        common = rng.len(300);
    }
    let odd = rng.chance(1, 10);
    let mut bufs = vec![];
    for _ in 0..n {
        let k = if odd && rng.chance(1, 4) { rng.len(300) } else { common };
        let b = rng.bytes(k);
        bufs.push(Buf::new(rng, &b));
    }
    log(|| format!("hash{}_exact {:?} lengths {:?}", n, p, bufs.iter().map(|b| b.get().len()).collect::<Vec<_>>()));
    let l0 = bufs[0].get().len();
    let ok = l0 > 0 && l0 % 64 == 0 && bufs.iter().all(|b| b.get().len() == l0);
    let r = catch_unwind(AssertUnwindSafe(|| -> Vec<b2::Hash> {
        if n == 4 {
            b2::hash4_exact(&q, bufs[0].get(), bufs[1].get(), bufs[2].get(), bufs[3].get()).to_vec()
        } else {
            b2::hash8_exact(
                &q, bufs[0].get(), bufs[1].get(), bufs[2].get(), bufs[3].get(), bufs[4].get(), bufs[5].get(),
                bufs[6].get(), bufs[7].get(),
            )
            .to_vec()
        }
    }));
    match r {
        Err(e) => {
            if ok {
                std::panic::resume_unwind(e);
            }
            Ok(())
        }
        Ok(o) => {
            if !ok {
                return fail("inputs that are not exact were accepted".into());
            }
            for i in 0..n {
                same(&format!("#{}", i), &o[i], &one(&q, false, bufs[i].get()))?;
            }
            Ok(())
        }
    }
}

fn c12(rng: &mut Rng) -> R {
    let hl = 1 + rng.below(32) as usize;
    let n = rng.len(100);
    let msg = rng.bytes(n);
    let p = P { hash_length: hl, ..P::default() };
    let want = rf::blake2s(&p, &msg);
    log(|| format!("hash_length {} message {}", hl, short(&msg)));
    let mk = |l: usize, m: &[u8]| b2::Params::new().hash_length(l).to_state().update(m).finalize();
    let h = mk(hl, &msg);
    // a wrong digest is not this property's concern
    let raw: [u8; std::mem::size_of::<b2::Hash>()] = unsafe { std::mem::transmute(h) };
    let inside = raw.windows(hl).any(|x| x == &want[..]);
    let want = if inside { want } else { h.as_bytes().to_vec() };
    if h.as_bytes() != &want[..] || h.as_ref() != &want[..] {
        return fail(format!("as_bytes {} expected {}", hex(h.as_bytes()), hex(&want)));
    }
    let text = hex(&want);
    if h.to_hex().as_str() != text {
        return fail(format!("to_hex {} expected {}", h.to_hex(), text));
    }
    let d = format!("{:?}", h);
    if d != format!("Hash(0x{})", text) {
        return fail(format!("Debug {} of {}", d, text));
    }
    for d in [format!("{:#?}", h), format!("{:x?}", h), format!("{:X?}", h), format!("{:#x?}", h)] {
        // pretty-printing may break lines
        let flat: String = d.chars().filter(|c| !c.is_whitespace() && *c != ',').collect();
        if flat != format!("Hash(0x{})", text) {
            return fail(format!("Debug {} of {}", d, text));
        }
    }
    let h2 = h;
    if !(h == h2) || h != h2 {
        return fail("a copy is not equal".into());
    }
    if !(h == want[..]) {
        return fail("not equal to its own bytes".into());
    }
    for i in 0..want.len() {
        let mut w = want.clone();
        w[i] ^= 1 << rng.below(8);
        if h == w[..] {
            return fail(format!("{} equals {}", text, hex(&w)));
        }
    }
    if hl >= 2 {
        let mut w = want.clone();
        let i = rng.below(hl as u64) as usize;
        let j = rng.below(hl as u64) as usize;
        let x = rng.next() as u8;
        w[i] ^= x;
        w[j] ^= x;
        if (h == w[..]) != (w == want) {
            return fail(format!("{} == {} wrong", text, hex(&w)));
        }
    }
    let k = rng.below(40) as usize;
    let mut w = want.clone();
    w.resize(k, 0);
    if (h == w[..]) != (w == want) {
        return fail(format!("{} == {} wrong", text, hex(&w)));
    }
    // other hashes
    let l2 = 1 + rng.below(32) as usize;
    let o = mk(l2, &msg);
    if (h == o) != (h.as_bytes() == o.as_bytes()) || (o == h) != (h == o) {
        return fail("equality of hashes of different lengths".into());
    }
    let o = mk(1, &rng.bytes(3));
    let g = mk(1, &msg);
    if (g == o) != (g.as_bytes() == o.as_bytes()) {
        return fail("equality of one-byte hashes".into());
    }
    Ok(())
}

/// Debug output under several formatting options.
fn shown<T: std::fmt::Debug>(x: &T) -> Vec<String> {
    vec![format!("{:?}", x), format!("{:#?}", x), format!("{:x?}", x), format!("{:#X?}", x), format!("{:300?}", x), format!("{:+.2?}", x), format!("{:07?}", x), format!("{:<9?}", x)]
}

fn c14(rng: &mut Rng) -> R {
    if rng.chance(1, 2) {
        let p = gen_params(rng, None);
        let mut p2 = gen_params(rng, Some(!p.key.is_empty()));
        p2.hash_length = p.hash_length;
        p2.last_node = p.last_node;
        let kl = p.key.len();
        p2.key = rng.bytes(kl);
        let mut a = apply(rng, &p).to_state();
        let mut b = apply(rng, &p2).to_state();
        for _ in 0..rng.below(4) {
            let n = rng.len(200);
            a.update(&rng.bytes(n));
            b.update(&rng.bytes(n));
        }
        log(|| format!("{:?} vs {:?}, {} bytes", p, p2, a.count()));
        let (x, y) = (shown(&a), shown(&b));
        if x != y {
            return fail(format!("Debug output depends on secrets: {:?} vs {:?}", x, y));
        }
        return Ok(());
    }
    let hl = 1 + rng.below(32) as usize;
    let kl = rng.below(33) as usize;
    let mut q = b2::blake2sp::Params::new();
    let mut r = b2::blake2sp::Params::new();
    q.hash_length(hl).key(&rng.bytes(kl));
    r.hash_length(hl).key(&rng.bytes(kl));
    if shown(&q) != shown(&r) {
        return fail(format!("Debug output of Params depends on the key: {:?} vs {:?}", q, r));
    }
    let (mut a, mut b) = (q.to_state(), r.to_state());
    for _ in 0..rng.below(4) {
        let n = rng.len(1500);
        a.update(&rng.bytes(n));
        b.update(&rng.bytes(n));
    }
    log(|| format!("sp, {} bytes", a.count()));
    let (x, y) = (shown(&a), shown(&b));
    if x != y {
        return fail(format!("Debug output depends on secrets: {:?} vs {:?}", x, y));
    }
    Ok(())
}

unsafe impl Sync for Zeros {}
/// A zeroed range of address space (no memory is used until it is written).
struct Zeros(*mut u8, usize);

impl Zeros {
    fn new(n: usize) -> Option<Zeros> {
        extern "C" {
            fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
        }
        let p = unsafe { mmap(std::ptr::null_mut(), n, 1, 0x4022, -1, 0) };
        if p as isize == -1 {
            None
        } else {
            Some(Zeros(p, n))
        }
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0, self.1) }
    }
}

impl Drop for Zeros {
    fn drop(&mut self) {
        extern "C" {
            fn munmap(a: *mut u8, n: usize) -> i32;
        }
        unsafe {
            munmap(self.0, self.1);
        }
    }
}

/// Inputs past the 2^32-byte carry of the counter.
pub fn big(prop: &str, n: u32) -> Option<R> {
    LOG.with(|l| l.borrow_mut().clear());
    let size = (1usize << 32) + 192;
    let p = P::default();
    match (prop, n) {
        ("C01", 0) => {
            let z = Zeros::new(size)?;
            log(|| format!("{} zero bytes", size));
            let (w, g) = std::thread::scope(|s| {
                let w = s.spawn(|| rf::blake2s(&p, z.get()));
                let g = b2::State::new().update(z.get()).finalize();
                (w.join().unwrap(), g)
            });
            Some(same("one update", &g, &w))
        }
        ("C03", 0) | ("C04", 0) => {
            let z = Zeros::new(size)?;
            log(|| format!("{} zero bytes, one update and two", size));
            let (g, (h, c)) = std::thread::scope(|s| {
                let h = s.spawn(|| {
                    let mut st = b2::State::new();
                    st.update(&z.get()[..size - 130]);
                    let mut cl = st.clone();
                    let _ = cl.finalize();
                    cl.update(&z.get()[size - 130..]);
                    (cl.finalize(), cl.count())
                });
                let g = b2::State::new().update(z.get()).finalize();
                (g, h.join().unwrap())
            });
            Some(same("two updates", &h, g.as_bytes()).and_then(|_| count_is("State", c, size)))
        }
        ("C09", 0) => {
            let z = Zeros::new(size + 1000)?;
            let n: Vec<usize> = (0..8).map(|i| size + 100 * ((i * 5 + 3) % 8)).collect();
            log(|| format!("hash8 of {:?} zero bytes", n));
            let q = b2::Params::new();
            let m = |i: usize| &z.get()[..n[i]];
            let (w, o) = std::thread::scope(|s| {
                let (m, q) = (&m, &q);
                let w: Vec<_> = (0..8).map(|i| s.spawn(move || one(q, false, m(i)))).collect();
                let o = b2::hash8(&q, &q, &q, &q, &q, &q, &q, &q, m(0), m(1), m(2), m(3), m(4), m(5), m(6), m(7));
                (w.into_iter().map(|w| w.join().unwrap()).collect::<Vec<_>>(), o)
            });
            Some((0..8).try_for_each(|i| same(&format!("lane {}", i), &o[i], &w[i])))
        }
        ("C10", 0) => {
            let z = Zeros::new(size)?;
            log(|| format!("hash4_exact, hash8_exact of {} zero bytes", size));
            let q = b2::Params::new();
            let v = z.get();
            let (w, a, b) = std::thread::scope(|s| {
                let w = s.spawn(|| one(&q, false, v));
                let a = s.spawn(|| b2::hash4_exact(&q, v, v, v, v));
                let b = b2::hash8_exact(&q, v, v, v, v, v, v, v, v);
                (w.join().unwrap(), a.join().unwrap(), b)
            });
            Some(
                a.iter().try_for_each(|x| same("hash4_exact", x, &w)).and_then(|_| b.iter().try_for_each(|x| same("hash8_exact", x, &w))),
            )
        }
        ("C08", 0) => {
            let z = Zeros::new(size)?;
            log(|| "eight states after 2^32 - 500 zero bytes, update8 with different inputs".to_string());
            let mut t = b2::State::new();
            t.update(&z.get()[..(1usize << 32) - 500]);
            let mut s: Vec<b2::State> = vec![t; 8];
            let mut w = s.clone();
            let m = |i: usize| &z.get()[..700 + 64 * i + i];
            for round in 0..3 {
                for i in 0..8 {
                    w[i].update(m(i));
                }
                if let [s0, s1, s2, s3, s4, s5, s6, s7] = &mut s[..] {
                    b2::update8(s0, s1, s2, s3, s4, s5, s6, s7, m(0), m(1), m(2), m(3), m(4), m(5), m(6), m(7));
                    let o = b2::finalize8(s0, s1, s2, s3, s4, s5, s6, s7);
                    for i in 0..8 {
                        if let Err(e) = count_is(&format!("state {}", i), s[i].count(), w[i].count() as usize) {
                            return Some(Err(e));
                        }
                        if let Err(e) = same(&format!("round {}: finalize8 #{}", round, i), &o[i], w[i].finalize().as_bytes())
                            .and_then(|_| same(&format!("round {}: state {}", round, i), &s[i].finalize(), w[i].finalize().as_bytes()))
                        {
                            return Some(Err(e));
                        }
                    }
                }
            }
            Some(Ok(()))
        }
        ("C08", 1) => {
            let z = Zeros::new(size)?;
            log(|| format!("update8 of {} zero bytes in lane 5", size));
            let mut s: Vec<b2::State> = (0..8).map(|_| b2::State::new()).collect();
            let e: &[u8] = &[1];
            if let [s0, s1, s2, s3, s4, s5, s6, s7] = &mut s[..] {
                b2::update8(s0, s1, s2, s3, s4, s5, s6, s7, e, e, e, e, e, z.get(), e, e);
                let o = b2::finalize8(s0, s1, s2, s3, s4, s5, s6, s7);
                let w = one(&b2::Params::new(), false, z.get());
                return Some(same("lane 5", &o[5], &w).and_then(|_| count_is("lane 5", s5.count(), size)));
            }
            None
        }
        ("C07", 0) | ("C06", 0) => {
            let size = (1usize << 32) + 1500;
            let z = Zeros::new(size)?;
            log(|| format!("blake2sp of {} zero bytes", size));
            let mut s = b2::blake2sp::State::new();
            s.update(&z.get()[..700]);
            s.update(&z.get()[700..]);
            if let Err(e) = count_is("blake2sp::State", s.count(), size) {
                return Some(Err(e));
            }
            Some(same("one and two updates", &s.finalize(), b2::blake2sp::blake2sp(z.get()).as_bytes()))
        }
        _ => None,
    }
}

/// Lines of "kind arguments digest" that the caller compares with another implementation.
pub fn selftest() {
    let mut rng = Rng(12345, Default::default());
    for _ in 0..60 {
        let p = gen_params(&mut rng, None);
        let n = rng.len(700);
        let m = rng.bytes(n);
        println!(
            "s {} {} {} {} {} {} {} {} {} {} {} {} {}",
            p.hash_length,
            h0(&p.key),
            h0(&p.salt),
            h0(&p.personal),
            p.fanout,
            p.max_depth,
            p.max_leaf_length,
            p.node_offset,
            p.node_depth,
            p.inner_hash_length,
            p.last_node as u8,
            h0(&m),
            hex(&rf::blake2s(&p, &m))
        );
        let (_, hl, key) = sp_params(&mut rng);
        println!("p {} {} {} {}", hl, h0(&key), h0(&m), hex(&rf::blake2sp(hl, &key, &m)));
    }
}

fn h0(b: &[u8]) -> String {
    if b.is_empty() {
        "-".into()
    } else {
        hex(b)
    }
}
