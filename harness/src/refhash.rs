//! Reference implementations of SHA-512 (FIPS 180-4) and BLAKE2b (RFC 7693), written
//! from the standards. Choice, majority and the final exclusive or are written in other
//! (equal) forms than the usual ones, so that every comparison goes through the solver.
include!("refhash_consts.rs");

fn be(b: &[u8]) -> u64 {
    let mut x = 0u64;
    for i in 0..8 {
        x = (x << 8) | b[i] as u64;
    }
    x
}
fn le(b: &[u8]) -> u64 {
    let mut x = 0u64;
    for i in 0..8 {
        x |= (b[i] as u64) << (8 * i);
    }
    x
}
pub fn sha512_block(h: &mut [u64; 8], block: &[u8]) {
    let mut w = [0u64; 80];
    for t in 0..16 {
        w[t] = be(&block[8 * t..8 * t + 8]);
    }
    for t in 16..80 {
        let x = w[t - 2];
        let s1 = x.rotate_right(19) ^ x.rotate_right(61) ^ (x >> 6);
        let y = w[t - 15];
        let s0 = y.rotate_right(1) ^ y.rotate_right(8) ^ (y >> 7);
        w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
    }
    let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut hh] = *h;
    for t in 0..80 {
        let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
        let ch = g ^ (e & (f ^ g));
        let t1 = hh.wrapping_add(s1).wrapping_add(ch).wrapping_add(K512[t]).wrapping_add(w[t]);
        let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
        let maj = (a & b) | (c & (a | b));
        let t2 = s0.wrapping_add(maj);
        hh = g;
        g = f;
        f = e;
        e = d.wrapping_add(t1);
        d = c;
        c = b;
        b = a;
        a = t1.wrapping_add(t2);
    }
    for (x, y) in h.iter_mut().zip([a, b, c, d, e, f, g, hh]) {
        *x = x.wrapping_add(y);
    }
}
/// the digest of `done` bytes already absorbed into `h` (a multiple of 128) and the rest
pub fn sha512_finish(mut h: [u64; 8], rest: &[u8], total: u64) -> [u8; 64] {
    let mut m = rest.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 {
        m.push(0);
    }
    m.extend_from_slice(&[0; 8]); // total < 2^61
    m.extend_from_slice(&total.wrapping_mul(8).to_be_bytes());
    for b in m.chunks(128) {
        sha512_block(&mut h, b);
    }
    let mut o = [0u8; 64];
    for i in 0..8 {
        o[8 * i..8 * i + 8].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
pub fn sha512(m: &[u8]) -> [u8; 64] {
    sha512_finish(H512, m, m.len() as u64)
}

const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
fn mix(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
    v[d] = (v[d] ^ v[a]).rotate_right(32);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(24);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(63);
}
pub fn blake2b_block(h: &mut [u64; 8], block: &[u8], t: u128, last: bool) {
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&H512);
    v[12] ^= t as u64;
    v[13] ^= (t >> 64) as u64;
    if last {
        v[14] = !v[14];
    }
    let mut m = [0u64; 16];
    for i in 0..16 {
        m[i] = le(&block[8 * i..8 * i + 8]);
    }
    for i in 0..12 {
        let s = &SIGMA[i % 10];
        mix(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        mix(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        mix(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        mix(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        mix(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        mix(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        mix(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        mix(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 {
        let x = v[i] ^ v[i + 8];
        h[i] = (h[i] | x) & !(h[i] & x);
    }
}
pub fn blake2b_init(n: usize) -> [u64; 8] {
    let mut h = H512;
    h[0] ^= 0x01010000 ^ n as u64;
    h
}
/// `done`: bytes absorbed into `h` before (a multiple of 128; `rest` is nonempty unless it is 0)
pub fn blake2b_finish(mut h: [u64; 8], rest: &[u8], done: u128, n: usize) -> Vec<u8> {
    let mut t = done;
    let mut m = rest;
    while m.len() > 128 {
        t += 128;
        blake2b_block(&mut h, &m[..128], t, false);
        m = &m[128..];
    }
    let mut b = [0u8; 128];
    b[..m.len()].copy_from_slice(m);
    t += m.len() as u128;
    blake2b_block(&mut h, &b, t, true);
    let mut o = Vec::new();
    for i in 0..8 {
        o.extend_from_slice(&h[i].to_le_bytes());
    }
    o.truncate(n);
    o
}
pub fn blake2b(m: &[u8], n: usize) -> Vec<u8> {
    blake2b_finish(blake2b_init(n), m, 0, n)
}
