//! Kernel harnesses: hashes (C11, C12).
use crate::refhash as r;
use crate::sx;
use minisign::verif_hooks::{Blake2b, Sha512};

/// digest of the pieces by the code under test
fn code(which: usize, out: usize, pieces: &[&[u8]]) -> Vec<u8> {
    if which == 0 {
        let mut h = Sha512::new();
        for p in pieces {
            h.update(p);
        }
        h.finalize().to_vec()
    } else {
        let mut h = Blake2b::new(out);
        for p in pieces {
            h.update(p);
        }
        let mut o = vec![0u8; out];
        h.finalize(&mut o);
        o
    }
}
fn reference(which: usize, out: usize, m: &[u8]) -> Vec<u8> {
    if which == 0 {
        r::sha512(m).to_vec()
    } else {
        r::blake2b(m, out)
    }
}
const LENS: [&[usize]; 4] = [
    &[0, 1, 111, 112, 127, 128, 129, 255, 256, 257],
    &[1, 127, 128, 129, 256],
    &[0, 1, 2, 63, 64, 110, 111, 112, 113, 119, 120, 126, 127, 128, 129, 130, 191, 192, 239, 240, 241, 254, 255, 256, 257, 258, 300, 383, 384, 385],
    &[0, 1, 64, 112, 127, 128, 129, 255, 256, 257, 384],
];
/// param 0: 0 sha512, 1 blake2b (64 bytes); lengths from param 1 (inclusive) to param 2 (exclusive), fed at once
#[no_mangle]
pub extern "C" fn h_hash1() {
    let n = sx::param(1) + sx::choose(sx::param(2) - sx::param(1), "n");
    let m = sx::vec("m", n);
    let w = sx::param(0);
    sx::equiv(&code(w, 64, &[&m]), &reference(w, 64, &m), "digest of a message fed at once");
    sx::reach("done");
}
/// two pieces: lengths from list param 1 with index = param 3 mod param 4, and from list param 2
#[no_mangle]
pub extern "C" fn h_hash2() {
    let (a, b) = (LENS[sx::param(1)], LENS[sx::param(2)]);
    let mut k = sx::param(3);
    let mut own = Vec::new();
    while k < a.len() {
        own.push(a[k]);
        k += sx::param(4);
    }
    let n0 = sx::pick(&own, "n0");
    let n1 = sx::pick(b, "n1");
    let m = sx::vec("m", n0 + n1);
    let w = sx::param(0);
    sx::equiv(&code(w, 64, &[&m[..n0], &m[n0..]]), &reference(w, 64, &m), "digest of a message fed in two pieces");
    sx::reach("done");
}
/// three pieces; the first length is the param 2-th of list param 1
#[no_mangle]
pub extern "C" fn h_hash3() {
    let l = LENS[sx::param(1)];
    let n0 = l[sx::param(2)];
    let n1 = sx::pick(l, "n1");
    let n2 = sx::pick(l, "n2");
    let m = sx::vec("m", n0 + n1 + n2);
    let w = sx::param(0);
    sx::equiv(&code(w, 64, &[&m[..n0], &m[n0..n0 + n1], &m[n0 + n1..]]), &reference(w, 64, &m), "digest of a message fed in three pieces");
    sx::reach("done");
}
/// two pieces: first lengths from param 1 (inclusive) to param 2 (exclusive); param 3: 0 second
/// lengths that end around the places where blocks and padding end, 1 all up to 130
#[no_mangle]
pub extern "C" fn h_hash4() {
    let n0 = sx::param(1) + sx::choose(sx::param(2) - sx::param(1), "n0");
    let mut l = vec![1];
    if sx::param(3) == 1 {
        l = (0..131).collect();
    } else {
        for e in [111, 112, 127, 128, 129, 239, 240, 255, 256, 257] {
            if e > n0 + 1 {
                l.push(e - n0);
            }
        }
    }
    let n1 = sx::pick(&l, "n1");
    let m = sx::vec("m", n0 + n1);
    let w = sx::param(0);
    sx::equiv(&code(w, 64, &[&m[..n0], &m[n0..]]), &reference(w, 64, &m), "digest of a message fed in two pieces");
    sx::reach("done");
}
/// many pieces of one size
#[no_mangle]
pub extern "C" fn h_hashc() {
    let k = sx::pick(&[1, 3, 17, 63, 64, 65, 100, 127, 128, 129, 200], "k");
    let n = sx::param(1);
    let m = sx::vec("m", n);
    let p: Vec<&[u8]> = m.chunks(k).collect();
    let w = sx::param(0);
    sx::equiv(&code(w, 64, &p), &reference(w, 64, &m), "digest of a message fed in pieces of one size");
    sx::reach("done");
}
/// BLAKE2b output sizes
#[no_mangle]
pub extern "C" fn h_hasho() {
    let out = 1 + sx::choose(64, "out");
    let n = sx::pick(&[0, 1, 128, 129], "n");
    let m = sx::vec("m", n);
    sx::equiv(&code(1, out, &[&m]), &reference(1, out, &m), "BLAKE2b digest of every output size");
    sx::reach("done");
}
fn words<X>(x: &mut X) -> &mut [u64] {
    unsafe { std::slice::from_raw_parts_mut(x as *mut X as *mut u64, std::mem::size_of::<X>() / 8) }
}
/// replaces the only word of `x` that equals `v` (the byte count) by `by`
fn patch<X>(x: &mut X, v: u64, by: u64) -> bool {
    let w = words(x);
    let mut at = w.len();
    for i in 0..w.len() {
        let e = w[i] == v;
        if sx::is_const(e) && e {
            if at < w.len() {
                return false;
            }
            at = i;
        }
    }
    if at == w.len() {
        return false;
    }
    w[at] = by;
    true
}
/// long messages: the byte count found in the state is replaced by any multiple of 128
#[no_mangle]
pub extern "C" fn h_hashl() {
    let extra = sx::pick(&[0, 5, 112, 127], "extra");
    let more = sx::pick(&[0, 1, 124, 300], "more");
    let blocks = sx::u64_("blocks");
    sx::assume(sx::param(0) == 1 || blocks < 1 << 50);
    // (two forms: whichever stays a plain word in the code's own arithmetic)
    let big = if sx::param(0) == 0 { blocks.wrapping_mul(128) } else { (blocks >> 12) << 7 };
    let m = sx::vec("m", 128 * 7 + extra);
    let m2 = sx::vec("m2", more);
    if sx::param(0) == 0 {
        let mut h = Sha512::new();
        h.update(&m);
        if !patch(&mut h, m.len() as u64, big.wrapping_add(extra as u64)) {
            sx::reach("no byte count found");
            return;
        }
        h.update(&m2);
        let mut st = r::H512;
        for b in m.chunks_exact(128) {
            r::sha512_block(&mut st, b);
        }
        let mut rest = m[128 * 7..].to_vec();
        rest.extend_from_slice(&m2);
        let total = big.wrapping_add((extra + more) as u64);
        sx::equiv(&h.finalize(), &r::sha512_finish(st, &rest, total), "SHA-512 digest of a long message");
    } else {
        let mut h = Blake2b::new(64);
        h.update(&m);
        // between one and two blocks may still be buffered
        let (mut k, mut found) = (7, false);
        while k >= 4 && !found {
            found = patch(&mut h, 128 * k as u64, big);
            if found {
                break;
            }
            k -= 1;
        }
        if !found {
            sx::reach("no byte count found");
            return;
        }
        h.update(&m2);
        let mut o = [0u8; 64];
        h.finalize(&mut o);
        let mut st = r::blake2b_init(64);
        for i in 0..k {
            r::blake2b_block(&mut st, &m[128 * i..128 * i + 128], 128 * (i as u128 + 1), false);
        }
        let mut rest = m[128 * k..].to_vec();
        rest.extend_from_slice(&m2);
        sx::equiv(&o, &r::blake2b_finish(st, &rest, big as u128, 64), "BLAKE2b digest of a long message");
    }
    sx::reach("done");
}
/// the references agree with independently computed digests (Python hashlib)
#[no_mangle]
pub extern "C" fn h_hashv() {
    let m: Vec<u8> = (0..300usize).map(|i| (i * 7 + 3) as u8).collect();
    const V: [(usize, [u8; 64], [u8; 64]); 4] = [
        (0, [207, 131, 225, 53, 126, 239, 184, 189, 241, 84, 40, 80, 214, 109, 128, 7, 214, 32, 228, 5, 11, 87, 21, 220, 131, 244, 169, 33, 211, 108, 233, 206, 71, 208, 209, 60, 93, 133, 242, 176, 255, 131, 24, 210, 135, 126, 236, 47, 99, 185, 49, 189, 71, 65, 122, 129, 165, 56, 50, 122, 249, 39, 218, 62], [120, 106, 2, 247, 66, 1, 89, 3, 198, 198, 253, 133, 37, 82, 210, 114, 145, 47, 71, 64, 225, 88, 71, 97, 138, 134, 226, 23, 247, 31, 84, 25, 210, 94, 16, 49, 175, 238, 88, 83, 19, 137, 100, 68, 147, 78, 176, 75, 144, 58, 104, 91, 20, 72, 183, 85, 213, 111, 112, 26, 254, 155, 226, 206]),
        (111, [104, 207, 250, 109, 13, 118, 243, 9, 201, 206, 13, 53, 40, 9, 57, 248, 226, 89, 144, 196, 59, 123, 8, 108, 205, 247, 9, 190, 53, 176, 125, 77, 219, 165, 153, 84, 31, 242, 177, 193, 157, 52, 234, 73, 174, 175, 185, 101, 154, 219, 122, 195, 192, 176, 120, 187, 48, 162, 45, 87, 252, 102, 135, 239], [74, 45, 97, 222, 191, 178, 156, 236, 212, 28, 5, 191, 185, 139, 30, 192, 25, 138, 6, 115, 17, 142, 178, 198, 238, 185, 160, 156, 123, 230, 112, 123, 218, 67, 4, 226, 198, 23, 121, 4, 119, 220, 225, 102, 229, 16, 239, 11, 131, 78, 79, 166, 4, 121, 249, 172, 133, 223, 40, 249, 191, 54, 161, 77]),
        (128, [153, 177, 111, 23, 170, 11, 150, 154, 91, 143, 8, 243, 103, 113, 157, 81, 110, 51, 12, 205, 38, 96, 182, 240, 104, 142, 192, 49, 219, 199, 131, 222, 80, 161, 205, 24, 90, 37, 104, 219, 167, 80, 112, 162, 64, 61, 23, 212, 116, 29, 22, 53, 120, 81, 93, 253, 47, 247, 86, 221, 254, 77, 71, 177], [45, 158, 50, 159, 66, 175, 163, 96, 29, 100, 102, 146, 184, 28, 19, 232, 127, 202, 255, 91, 241, 89, 114, 233, 129, 61, 115, 115, 203, 109, 24, 31, 149, 153, 244, 213, 19, 212, 175, 79, 214, 235, 211, 116, 151, 172, 235, 41, 171, 165, 238, 35, 237, 118, 77, 133, 16, 181, 82, 189, 8, 136, 20, 251]),
        (300, [70, 229, 106, 211, 13, 185, 239, 80, 248, 182, 118, 43, 165, 88, 57, 115, 127, 63, 186, 52, 171, 71, 134, 60, 157, 175, 247, 179, 245, 143, 151, 254, 52, 101, 165, 45, 211, 100, 86, 13, 180, 127, 128, 41, 9, 206, 212, 144, 147, 50, 38, 33, 234, 10, 235, 248, 224, 105, 107, 133, 202, 143, 129, 240], [236, 143, 200, 203, 19, 67, 213, 184, 116, 74, 105, 113, 217, 174, 59, 84, 99, 120, 155, 174, 29, 244, 7, 218, 220, 101, 247, 120, 29, 22, 154, 113, 89, 107, 200, 127, 1, 105, 26, 129, 134, 143, 73, 172, 214, 221, 251, 253, 152, 116, 171, 25, 234, 232, 61, 64, 165, 5, 246, 202, 157, 182, 175, 159]),
    ];
    for (n, a, b) in V.iter() {
        sx::check(r::sha512(&m[..*n]) == *a, "reference SHA-512 vector");
        sx::check(r::blake2b(&m[..*n], 64) == b.to_vec(), "reference BLAKE2b vector");
    }
    sx::check(r::blake2b(&m[..128], 20) == [121, 174, 104, 69, 17, 200, 63, 222, 229, 240, 64, 199, 123, 183, 201, 163, 23, 211, 242, 222], "reference BLAKE2b vector, 20 bytes");
    sx::reach("done");
}
