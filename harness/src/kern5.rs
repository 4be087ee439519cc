//! The steps of the operations on secrets do not depend on them (C24).
use crate::sx;
use minisign::verif_hooks::{curve, ed25519, fixed_time_eq, sc_muladd, sc_reduce, Blake2b, Fe};
use minisign::{PublicKey, SecretKey};

const MSG: &[u8] = b"abc";

/// an element with limbs below 2^51
fn fe(x: &[u8]) -> Fe {
    let mut l = [0u64; 5];
    for i in 0..5 {
        let mut b = [0u8; 8];
        b.copy_from_slice(&x[8 * i..8 * i + 8]);
        l[i] = u64::from_le_bytes(b) & ((1 << 51) - 1);
    }
    Fe(l)
}
fn put(out: &mut [u8; 64], f: Fe) {
    for (i, l) in f.0.iter().enumerate() {
        out[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes());
    }
}
/// what is done with the secret x
#[inline(never)]
fn run(kind: usize, x: &[u8], sks: &[SecretKey], pks: &[PublicKey], out: &mut [u8; 64]) {
    match kind {
        0 => *out = ed25519::signature(MSG, &x[..64], Some(&x[64..])),
        1 => *out = ed25519::signature(MSG, &x[..64], None),
        2 => *out = ed25519::keypair(x).0,
        3 => out[0] = fixed_time_eq(&x[..x.len() / 2], &x[x.len() / 2..]) as u8,
        4 => out[0] = (sks[0] == sks[1]) as u8,
        5 => out[0] = (pks[0] == pks[1]) as u8,
        6 => {
            let mut s = Blake2b::new(32);
            s.update(x);
            s.finalize(&mut out[..32]);
        }
        7 => put(out, fe(x) * fe(&x[40..])),
        8 => {
            let p = curve::p3(fe(x), fe(&x[40..]), fe(&x[80..]), fe(&x[120..]));
            let [a, ..] = curve::p1p1_parts(&curve::p3_dbl(&p));
            put(out, a)
        }
        9 => {
            out.copy_from_slice(x);
            sc_reduce(out);
        }
        _ => sc_muladd(&mut out[..32], &x[..32], &x[32..64], &x[64..]),
    }
}
/// param 0: what; param 1: the number of secret bytes
#[no_mangle]
pub extern "C" fn h_ct() {
    let kind = sx::param(0);
    let n = sx::param(1);
    // symbolically one arbitrary secret; natively two, whose traces are compared
    let one = sx::vec("x", n);
    let two = if sx::symx() { vec![] } else { sx::vec("y", n) };
    let mut x = one.clone();
    let mut out = [0u8; 64];
    // (the first to settle what happens once, the second and third to be sure of that)
    let all = [one.clone(), one.clone(), one, two];
    for s in &all[..if sx::symx() { 1 } else { 4 }] {
        x.copy_from_slice(s);
        let sks: Vec<SecretKey> = if kind == 4 { x.chunks(158).map(|b| SecretKey::from_bytes(b).unwrap()).collect() } else { vec![] };
        let pks: Vec<PublicKey> = if kind == 5 { x.chunks(42).map(|b| PublicKey::from_bytes(b).unwrap()).collect() } else { vec![] };
        sx::secret(true);
        run(kind, &x, &sks, &pks, &mut out);
        sx::secret(false);
        // (the result is used)
        sx::check(out.len() == 64, "ended");
        std::hint::black_box(&out);
    }
    sx::reach("done");
}

// Stand-ins that return anything: what they replace is a run of its own (kinds 7 and on).
fn any(o: &mut [u64; 5]) {
    *o = fe(&sx::bytes::<40>("any")).0;
}
#[no_mangle]
pub fn st_any_mul(o: &mut [u64; 5], _a: &[u64; 5], _b: &[u64; 5]) {
    any(o)
}
#[no_mangle]
pub fn st_any_square(o: &mut [u64; 5], _a: &[u64; 5]) {
    any(o)
}
#[no_mangle]
pub fn st_any_reduce(s: &mut [u8]) {
    s[..32].copy_from_slice(&sx::bytes::<32>("any"));
}
#[no_mangle]
pub fn st_any_muladd(s: &mut [u8], _a: &[u8], _b: &[u8], _c: &[u8]) {
    s[..32].copy_from_slice(&sx::bytes::<32>("any"));
}
