//! Reference BLAKE2s and BLAKE2sp, written from RFC 7693 and the BLAKE2 paper.
pub const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];
const S: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

pub fn f(h: &mut [u32; 8], block: &[u8], t: u64, f0: u32, f1: u32) {
    let mut m = [0u32; 16];
    for (i, w) in m.iter_mut().enumerate() {
        *w = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    let mut v = [0u32; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u32;
    v[13] ^= (t >> 32) as u32;
    v[14] ^= f0;
    v[15] ^= f1;
    macro_rules! g {
        ($a:expr, $b:expr, $c:expr, $d:expr, $x:expr, $y:expr) => {
            v[$a] = v[$a].wrapping_add(v[$b]).wrapping_add($x);
            v[$d] = (v[$d] ^ v[$a]).rotate_right(16);
            v[$c] = v[$c].wrapping_add(v[$d]);
            v[$b] = (v[$b] ^ v[$c]).rotate_right(12);
            v[$a] = v[$a].wrapping_add(v[$b]).wrapping_add($y);
            v[$d] = (v[$d] ^ v[$a]).rotate_right(8);
            v[$c] = v[$c].wrapping_add(v[$d]);
            v[$b] = (v[$b] ^ v[$c]).rotate_right(7);
        };
    }
    for r in 0..10 {
        let s = &S[r];
        g!(0, 4, 8, 12, m[s[0]], m[s[1]]);
        g!(1, 5, 9, 13, m[s[2]], m[s[3]]);
        g!(2, 6, 10, 14, m[s[4]], m[s[5]]);
        g!(3, 7, 11, 15, m[s[6]], m[s[7]]);
        g!(0, 5, 10, 15, m[s[8]], m[s[9]]);
        g!(1, 6, 11, 12, m[s[10]], m[s[11]]);
        g!(2, 7, 8, 13, m[s[12]], m[s[13]]);
        g!(3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct P {
    pub hash_length: usize,
    pub key: Vec<u8>,
    pub salt: Vec<u8>,
    pub personal: Vec<u8>,
    pub fanout: u8,
    pub max_depth: u8,
    pub max_leaf_length: u32,
    pub node_offset: u64,
    pub node_depth: u8,
    pub inner_hash_length: usize,
    pub last_node: bool,
}

impl Default for P {
    fn default() -> P {
        P {
            hash_length: 32,
            key: vec![],
            salt: vec![],
            personal: vec![],
            fanout: 1,
            max_depth: 1,
            max_leaf_length: 0,
            node_offset: 0,
            node_depth: 0,
            inner_hash_length: 0,
            last_node: false,
        }
    }
}

impl P {
    pub fn block(&self) -> [u8; 32] {
        let mut b = [0u8; 32];
        b[0] = self.hash_length as u8;
        b[1] = self.key.len() as u8;
        b[2] = self.fanout;
        b[3] = self.max_depth;
        b[4..8].copy_from_slice(&self.max_leaf_length.to_le_bytes());
        b[8..14].copy_from_slice(&self.node_offset.to_le_bytes()[..6]);
        b[14] = self.node_depth;
        b[15] = self.inner_hash_length as u8;
        b[16..16 + self.salt.len()].copy_from_slice(&self.salt);
        b[24..24 + self.personal.len()].copy_from_slice(&self.personal);
        b
    }
}

/// Digest words before truncation, for a parameter block, an optional key block and a message.
pub fn digest(block: &[u8; 32], key: &[u8], msg: &[u8], last_node: bool) -> [u8; 32] {
    let mut h = [0u32; 8];
    for i in 0..8 {
        h[i] = IV[i] ^ u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    let f1 = if last_node { !0 } else { 0 };
    let mut t = 0u64;
    if !key.is_empty() {
        let mut kb = [0u8; 64];
        kb[..key.len()].copy_from_slice(key);
        t = 64;
        f(&mut h, &kb, t, if msg.is_empty() { !0 } else { 0 }, if msg.is_empty() { f1 } else { 0 });
        if msg.is_empty() {
            return out(&h);
        }
    }
    let mut rest = msg;
    while rest.len() > 64 {
        t += 64;
        f(&mut h, &rest[..64], t, 0, 0);
        rest = &rest[64..];
    }
    let mut last = [0u8; 64];
    last[..rest.len()].copy_from_slice(rest);
    t += rest.len() as u64;
    f(&mut h, &last, t, !0, f1);
    out(&h)
}

fn out(h: &[u32; 8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}

pub fn blake2s(p: &P, msg: &[u8]) -> Vec<u8> {
    digest(&p.block(), &p.key, msg, p.last_node)[..p.hash_length].to_vec()
}

pub fn blake2sp(hash_length: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut leaf: Vec<Vec<u8>> = vec![vec![]; 8];
    for (i, c) in msg.chunks(64).enumerate() {
        leaf[i % 8].extend_from_slice(c);
    }
    let mut p = P {
        hash_length,
        key: key.to_vec(),
        fanout: 8,
        max_depth: 2,
        inner_hash_length: 32,
        ..P::default()
    };
    let mut cat = vec![];
    for i in 0..8 {
        p.node_offset = i as u64;
        p.last_node = i == 7;
        cat.extend_from_slice(&digest(&p.block(), key, &leaf[i], p.last_node));
    }
    p.node_offset = 0;
    p.node_depth = 1;
    p.last_node = true;
    digest(&p.block(), &[], &cat, true)[..hash_length].to_vec()
}
