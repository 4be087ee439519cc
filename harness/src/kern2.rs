//! Ed25519 scheme (C06, C07): verify, keypair and signature over ideal hash, scalar and point
//! kernels (those are the subject of C08..C11). Natively the real kernels run, and the results
//! are compared with a reference built on plain arithmetic (big.rs).
use crate::big;
use crate::sx;
use minisign::verif_hooks::{ed25519, GeP2, GeP3, Sha512};
use std::mem::MaybeUninit;

/// a function given by the pairs seen so far
struct Memo(Vec<(Vec<u8>, Vec<u8>)>);
impl Memo {
    fn get(&mut self, x: &[u8], n: usize, nm: &str) -> Vec<u8> {
        for (a, b) in self.0.iter() {
            if a.len() == x.len() && sx::same(a, x) {
                return b.clone();
            }
        }
        let o = sx::vec(nm, n);
        for (a, b) in self.0.iter() {
            if a.len() == x.len() {
                let (e, f) = (sx::eq(a, x), sx::eq(b, &o));
                sx::assume(!e | f);
            }
        }
        self.0.push((x.to_vec(), o.clone()));
        o
    }
}
static mut SHA: Memo = Memo(Vec::new());
static mut RED: Memo = Memo(Vec::new());
static mut MULADD: Memo = Memo(Vec::new());
static mut DEC: Memo = Memo(Vec::new());
static mut ENC: Memo = Memo(Vec::new());
static mut HS: Vec<Vec<u8>> = Vec::new();

unsafe fn mk<X>(x: &mut X, d: Vec<u8>) {
    HS.push(d);
    *(x as *mut X as *mut u64) = HS.len() as u64;
}
unsafe fn tok<'a, X>(x: &X) -> &'a Vec<u8> {
    let id = *(x as *const X as *const u64) as usize;
    assert!(id >= 1 && id <= HS.len());
    &HS[id - 1]
}
fn cat(l: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::new();
    for x in l {
        v.extend_from_slice(x);
    }
    v
}
fn ssha(d: &[u8]) -> Vec<u8> {
    unsafe { SHA.get(d, 64, "sha") }
}
fn sred(d: &[u8]) -> Vec<u8> {
    unsafe { RED.get(&d[..64], 32, "red") }
}
fn smuladd(a: &[u8], b: &[u8], c: &[u8]) -> Vec<u8> {
    unsafe { MULADD.get(&cat(&[&a[..32], &b[..32], &c[..32]]), 32, "muladd") }
}
/// points are byte strings saying how they were made
fn senc(p: &[u8]) -> Vec<u8> {
    unsafe { ENC.get(p, 32, "enc") }
}
fn sbase(k: &[u8]) -> Vec<u8> {
    cat(&[b"B", &k[..32]])
}
fn sdec(b: &[u8]) -> (bool, Vec<u8>) {
    unsafe { (DEC.get(&b[..32], 1, "dec")[0] & 1 == 1, cat(&[b"D", &b[..32]])) }
}
fn sdsm(a: &[u8], p: &[u8], b: &[u8]) -> Vec<u8> {
    cat(&[b"M", &a[..32], &b[..32], p])
}
#[no_mangle]
pub fn st_sha_new() -> Sha512 {
    unsafe {
        let mut b: Sha512 = MaybeUninit::zeroed().assume_init();
        mk(&mut b, Vec::new());
        b
    }
}
unsafe fn upd(s: &mut Sha512, x: &[u8]) {
    let mut d = tok(s).clone();
    d.extend_from_slice(x);
    mk(s, d);
}
// one stand-in per way the input can be passed
#[no_mangle]
pub fn st_sha_update(s: &mut Sha512, x: &[u8]) {
    unsafe { upd(s, x) }
}
#[no_mangle]
pub fn st_sha_finalize(s: Sha512) -> [u8; 64] {
    unsafe {
        let v = ssha(tok(&s));
        let mut o = [0u8; 64];
        o.copy_from_slice(&v);
        o
    }
}
#[no_mangle]
pub fn st_sc_reduce(s: &mut [u8]) {
    let v = sred(s);
    s[..32].copy_from_slice(&v);
}
#[no_mangle]
pub fn st_sc_muladd(s: &mut [u8], a: &[u8], b: &[u8], c: &[u8]) {
    let v = smuladd(a, b, c);
    s[..32].copy_from_slice(&v);
}
#[no_mangle]
pub fn st_base(a: &[u8]) -> GeP3 {
    unsafe {
        let mut p: GeP3 = MaybeUninit::zeroed().assume_init();
        mk(&mut p, sbase(a));
        p
    }
}
#[no_mangle]
pub fn st_decode(s: &[u8]) -> Option<GeP3> {
    unsafe {
        let (ok, t) = sdec(s);
        if !ok {
            return None;
        }
        let mut p: GeP3 = MaybeUninit::zeroed().assume_init();
        mk(&mut p, t);
        Some(p)
    }
}
#[no_mangle]
pub fn st_dsm(a: &[u8], p: GeP3, b: &[u8]) -> GeP2 {
    unsafe {
        let mut r: GeP2 = MaybeUninit::zeroed().assume_init();
        mk(&mut r, sdsm(a, tok(&p), b));
        r
    }
}
unsafe fn enc(t: &[u8]) -> [u8; 32] {
    let v = senc(t);
    let mut o = [0u8; 32];
    o.copy_from_slice(&v);
    o
}
#[no_mangle]
pub fn st_p2_bytes(p: &GeP2) -> [u8; 32] {
    unsafe { enc(tok(p)) }
}
#[no_mangle]
pub fn st_p3_bytes(p: &GeP3) -> [u8; 32] {
    unsafe { enc(tok(p)) }
}

// ----- what the scheme says -----
/// a < b, little-endian, without forks
fn lt(a: &[u8], b: &[u8]) -> bool {
    let mut borrow = 0i32;
    for i in 0..a.len() {
        borrow = (a[i] as i32 - b[i] as i32 + borrow) >> 8;
    }
    borrow != 0
}
fn y_is_one(pk: &[u8]) -> bool {
    let mut m = pk.to_vec();
    m[31] &= 0x7f;
    let mut one = [0u8; 32];
    one[0] = 1;
    let mut pone = big::to_le(&big::P);
    pone[0] += 1;
    sx::eq(&m, &one) | sx::eq(&m, &pone)
}
fn want_verify(msg: &[u8], pk: &[u8], sig: &[u8]) -> bool {
    let l = big::to_le(&big::L);
    let (r, s) = (&sig[..32], &sig[32..64]);
    let basic = lt(s, &l) & !y_is_one(pk) & !sx::eq(pk, &[0u8; 32]);
    if sx::symx() {
        let h = sred(&ssha(&cat(&[r, pk, msg])));
        let (ok, p) = sdec(pk);
        let e = senc(&sdsm(&h, &p, s));
        basic & ok & sx::eq(&e, r)
    } else {
        basic && equation(msg, pk, sig)
    }
}
fn hram(msg: &[u8], pk: &[u8], r: &[u8]) -> big::N {
    red64(&crate::refhash::sha512(&cat(&[r, pk, msg])))
}
fn red64(h: &[u8]) -> big::N {
    let mut w = [0u64; 8];
    w[..4].copy_from_slice(&big::from_le(&h[..32]));
    w[4..].copy_from_slice(&big::from_le(&h[32..]));
    big::rem(&w, &big::L)
}
fn equation(msg: &[u8], pk: &[u8], sig: &[u8]) -> bool {
    let d = big::d();
    let a = match big::decode(pk) {
        Some(a) => big::pneg(&a),
        None => return false,
    };
    let h = hram(msg, pk, &sig[..32]);
    let p = big::padd(&big::pmul(&big::from_le(&sig[32..64]), &big::base(), &d), &big::pmul(&h, &a, &d), &d);
    big::encode(&p)[..] == sig[..32]
}
fn want_keypair(seed: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut a = if sx::symx() { ssha(seed) } else { crate::refhash::sha512(seed).to_vec() };
    a[0] &= 0xf8;
    a[31] = a[31] & 0x7f | 0x40;
    let pk = if sx::symx() { senc(&sbase(&a)) } else { nat_base(&a).to_vec() };
    (cat(&[seed, &pk]), pk)
}
fn nat_base(k: &[u8]) -> [u8; 32] {
    big::encode(&big::pmul(&big::from_le(k), &big::base(), &big::d()))
}
fn want_signature(msg: &[u8], sk: &[u8], z: Option<&[u8]>) -> Vec<u8> {
    let y = sx::symx();
    let sha = |d: &[u8]| if y { ssha(d) } else { crate::refhash::sha512(d).to_vec() };
    let mut a = sha(&sk[..32]);
    a[0] &= 0xf8;
    a[31] = a[31] & 0x7f | 0x40;
    let n = match z {
        Some(z) => sha(&cat(&[z, &a, msg])),
        None => sha(&cat(&[&a[32..], msg])),
    };
    let n = if y { sred(&n) } else { big::to_le(&red64(&n)).to_vec() };
    let r = if y { senc(&sbase(&n)) } else { nat_base(&n).to_vec() };
    let h = sha(&cat(&[&r, &sk[32..64], msg]));
    let h = if y { sred(&h) } else { big::to_le(&red64(&h)).to_vec() };
    let s = if y { smuladd(&h, &a, &n) } else { muladd(&h, &a, &n) };
    cat(&[&r, &s])
}
fn muladd(a: &[u8], b: &[u8], c: &[u8]) -> Vec<u8> {
    let mut w = big::wide(&big::from_le(a), &big::from_le(b));
    big::plus(&mut w, &big::from_le(c));
    big::to_le(&big::rem(&w, &big::L)).to_vec()
}

const MSG: [usize; 4] = [0, 1, 3, 130];
/// verification decides exactly the scheme's condition
#[no_mangle]
pub extern "C" fn h_c06() {
    let n = sx::pick(&MSG, "n");
    let msg = sx::vec("m", n);
    let pk: [u8; 32] = sx::bytes("pk");
    let sig: [u8; 64] = sx::bytes("sig");
    let diff: [u8; 32] = sx::bytes("diff");
    if sx::symx() {
        // the expected R differs from the one given by any `diff`
        let mut r = sig[..32].to_vec();
        for i in 0..32 {
            r[i] ^= diff[i];
        }
        let t = sdsm(&sred(&ssha(&cat(&[&sig[..32], &pk, &msg]))), &sdec(&pk).1, &sig[32..]);
        unsafe { ENC.0.push((t, r)) }
        let got = ed25519::verify(&msg, &pk, &sig);
        sx::check(got == want_verify(&msg, &pk, &sig), "verdict");
        if got {
            sx::reach("accepted")
        } else {
            sx::reach("refused")
        }
        return;
    }
    let got = ed25519::verify(&msg, &pk, &sig);
    sx::check(got == want_verify(&msg, &pk, &sig), "verdict");
    if !got {
        sx::reach("refused");
    }
    // the same S and difference where the equation does hold: under keys of small order, and
    // under an honest key
    let d = big::d();
    let mut pks = vec![pk.to_vec()];
    let mut tor = torsion();
    for t in tor.clone().iter() {
        let mut u = t.clone();
        u[31] ^= 0x80;
        tor.push(u);
    }
    let mut seed = [0u8; 32];
    seed.copy_from_slice(&sig[32..64]);
    pks.extend(tor.iter().cloned());
    for p in pks.iter() {
        if big::decode(p).is_none() {
            continue;
        }
        let neg = big::pneg(&big::decode(p).unwrap());
        let sb = big::pmul(&big::from_le(&sig[32..]), &big::base(), &d);
        let r = big::encode(&sb);
        let rr = sx::xor(&r, &diff);
        for (f, rx) in [(false, &r.to_vec()), (true, &rr)] {
            for k in 0..40u8 {
                let mut m = msg.clone();
                if m.is_empty() && k > 0 {
                    m.push(0);
                }
                if let Some(b) = m.first_mut() {
                    *b = b.wrapping_add(k);
                }
                let h = big::pmul(&hram(&m, p, rx), &neg, &d);
                if k < 39 && !big::same_point(&h, &big::zero()) {
                    continue;
                }
                let s = cat(&[rx, &sig[32..]]);
                let got = ed25519::verify(&m, p, &s);
                sx::check(got == want_verify(&m, p, &s), if f { "verdict (R changed)" } else { "verdict (equation holds)" });
                break;
            }
        }
    }
    for k in 0..8u8 {
        seed[0] = seed[0].wrapping_add(k);
        let (sk, pk) = want_keypair(&seed);
        let s = want_signature(&msg, &sk, None);
        let mut l: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = vec![(msg.clone(), pk.clone(), s.clone())];
        let mut x = s.clone();
        for i in 0..32 {
            x[i] ^= diff[i];
        }
        l.push((msg.clone(), pk.clone(), x));
        // S and S + L
        let mut w = [0u64; 5];
        w[..4].copy_from_slice(&big::from_le(&s[32..]));
        big::plus(&mut w, &big::L);
        let mut x = s.clone();
        x[32..].copy_from_slice(&big::to_le(&[w[0], w[1], w[2], w[3]]));
        l.push((msg.clone(), pk.clone(), x));
        for i in 0..64 {
            let mut x = s.clone();
            x[i] ^= 1 << k;
            l.push((msg.clone(), pk.clone(), x));
            let mut p = pk.clone();
            p[i % 32] ^= 1 << k;
            if k == 0 {
                l.push((msg.clone(), p, s.clone()));
            }
        }
        for i in 0..msg.len().min(200) {
            let mut m = msg.clone();
            m[i] ^= 1 << k;
            l.push((m, pk.clone(), s.clone()));
        }
        for (m, p, s) in l.iter() {
            let got = ed25519::verify(m, p, s);
            // only the untouched one holds (anything else would be a forgery)
            let want = m == &msg && p == &pk && s[..] == l[0].2[..];
            sx::check(got == want, "verdict on a changed signature");
        }
        sx::reach("accepted");
    }
}
/// encodings of the points of small order, canonical and not
fn torsion() -> Vec<Vec<u8>> {
    let d = big::d();
    let mut o: Vec<Vec<u8>> = vec![];
    // L * P has small order for every point P
    let mut y = 2u8;
    let mut pts = vec![big::zero()];
    while pts.len() < 8 {
        let mut b = [0u8; 32];
        b[0] = y;
        y += 1;
        if let Some(p) = big::decode(&b) {
            let mut t = big::pmul(&big::L, &p, &d);
            for _ in 0..8 {
                if !pts.iter().any(|q| big::same_point(q, &t)) {
                    pts.push(t);
                }
                t = big::padd(&t, &big::pmul(&big::L, &p, &d), &d);
            }
        }
    }
    for p in pts.iter() {
        let e = big::encode(p);
        o.push(e.to_vec());
        // y below 19 has a second encoding
        let mut n = big::from_le(&e);
        n[3] &= !0 >> 1;
        if big::less(&n, &big::small(19)) {
            let mut w = n;
            big::plus(&mut w, &big::P);
            o.push(big::to_le(&w).to_vec());
        }
    }
    o
}
fn variants(s: &[u8]) -> Vec<Vec<u8>> {
    let mut o = vec![s.to_vec()];
    if !sx::symx() {
        for k in 1..48u8 {
            let mut v = s.to_vec();
            for (i, b) in v.iter_mut().enumerate() {
                *b = b.wrapping_add(k.wrapping_mul(37 + i as u8));
            }
            o.push(v);
        }
    }
    o
}
/// key derivation
#[no_mangle]
pub extern "C" fn h_c07k() {
    let seed: [u8; 32] = sx::bytes("seed");
    for s in variants(&seed) {
        let (sk, pk) = ed25519::keypair(&s);
        let (wsk, wpk) = want_keypair(&s);
        sx::check(sx::eq(&sk, &wsk), "secret key");
        sx::check(sx::eq(&pk, &wpk), "public key");
    }
    sx::reach("done");
}
/// signing; param 0: 0 without, otherwise with a random input of that many bytes
#[no_mangle]
pub extern "C" fn h_c07s() {
    let n = sx::pick(&MSG, "n");
    let msg = sx::vec("m", n);
    let sk: [u8; 64] = sx::bytes("sk");
    let zl = sx::param(0);
    let z = sx::vec("z", zl);
    for s in variants(&sk) {
        let zz = if zl > 0 { Some(&z[..]) } else { None };
        let got = ed25519::signature(&msg, &s, zz);
        let want = want_signature(&msg, &s, zz);
        sx::check(sx::eq(&got, &want), "signature");
    }
    sx::reach("done");
}
#[no_mangle]
pub fn st_sha_update32(s: &mut Sha512, x: &[u8; 32]) {
    unsafe { upd(s, x) }
}
#[no_mangle]
pub fn st_sha_update64(s: &mut Sha512, x: &[u8; 64]) {
    unsafe { upd(s, x) }
}
