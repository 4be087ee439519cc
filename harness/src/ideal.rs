//! Ideal stand-ins for the cryptographic kernels, used by the symbolic runs of the API-level
//! harnesses (each is checked on its own by C06..C12). Only reached through `--redirect`.
//!
//! hash: a function of (output size, input) without collisions
//! signatures: keypair is an injective function of the seed; a signature verifies if and only
//!   if it was made by `signature` with the matching secret key over that very message
//! scrypt: a function of (password, salt, parameters)
use crate::sx;
use minisign::verif_hooks::Blake2b;
use std::mem::MaybeUninit;

struct H {
    outlen: usize,
    data: Vec<u8>,
}
struct Digest {
    outlen: usize,
    data: Vec<u8>,
    out: Vec<u8>,
}
static mut HS: Vec<H> = Vec::new();
static mut DG: Vec<Digest> = Vec::new();

unsafe fn mk(outlen: usize, data: Vec<u8>, b: *mut Blake2b) {
    HS.push(H { outlen, data });
    *(b as *mut u64) = HS.len() as u64;
}
/// equal if `e`, and otherwise different in every word (partial collisions do not occur either)
unsafe fn distinct(e: bool, a: &[u8], b: &[u8]) {
    let f = sx::eq(a, b);
    sx::assume(e == f);
    let mut i = 0;
    while i + 8 <= a.len() {
        sx::assume(e | !sx::eq(&a[i..i + 8], &b[i..i + 8]));
        i += 8;
    }
}
#[no_mangle]
pub fn st_blake_new(outlen: usize) -> Blake2b {
    unsafe {
        assert!(outlen > 0 && outlen <= 64);
        let mut b: Blake2b = MaybeUninit::zeroed().assume_init();
        mk(outlen, Vec::new(), &mut b);
        b
    }
}
#[no_mangle]
pub fn st_blake_update(s: &mut Blake2b, input: &[u8]) {
    unsafe {
        let id = *(s as *mut Blake2b as *mut u64) as usize;
        let h = &HS[id - 1];
        let mut d = Vec::with_capacity(h.data.len() + input.len());
        d.extend_from_slice(&h.data);
        d.extend_from_slice(input);
        let n = h.outlen;
        mk(n, d, s);
    }
}
#[no_mangle]
pub fn st_blake_finalize(s: &mut Blake2b, out: &mut [u8]) {
    unsafe {
        let id = *(s as *mut Blake2b as *mut u64) as usize;
        let h = &HS[id - 1];
        assert!(out.len() == h.outlen);
        let n = h.outlen;
        for d in DG.iter() {
            if d.outlen == n && d.data.len() == h.data.len() && same(&d.data, &h.data) {
                out.copy_from_slice(&d.out);
                return;
            }
        }
        let o = sx::vec("digest", n);
        for d in DG.iter() {
            if d.outlen == n {
                let e = sx::eq(&d.data, &h.data);
                distinct(e, &d.out, &o);
            }
        }
        out.copy_from_slice(&o);
        DG.push(Digest { outlen: n, data: h.data.clone(), out: o });
    }
}
use crate::sx::same;
struct K {
    seed: [u8; 32],
    pk: [u8; 32],
}
struct S {
    valid: bool,
    pk: [u8; 32],
    msg: Vec<u8>,
    sig: [u8; 64],
    sk: Vec<u8>,
    fixed: bool,
}
static mut KS: Vec<K> = Vec::new();
static mut SS: Vec<S> = Vec::new();
pub static mut VERIFY_CALLS: usize = 0;
/// the random inputs of the signatures made so far
pub static mut ZS: Vec<Option<Vec<u8>>> = Vec::new();

#[no_mangle]
pub fn st_ed_keypair(seed: &[u8]) -> ([u8; 64], [u8; 32]) {
    unsafe {
        let mut sk = [0u8; 64];
        sk[..32].copy_from_slice(seed);
        let mut s = [0u8; 32];
        s.copy_from_slice(seed);
        for k in KS.iter() {
            if same(&k.seed, &s) {
                sk[32..].copy_from_slice(&k.pk);
                return (sk, k.pk);
            }
        }
        let pk: [u8; 32] = sx::bytes("pk");
        for k in KS.iter() {
            let e = sx::eq(&k.seed, &s);
            distinct(e, &k.pk, &pk);
        }
        KS.push(K { seed: s, pk });
        sk[32..].copy_from_slice(&pk);
        (sk, pk)
    }
}
#[no_mangle]
pub fn st_ed_signature(message: &[u8], sk: &[u8], z: Option<&[u8]>) -> [u8; 64] {
    unsafe {
        ZS.push(z.map(|z| z.to_vec()));
        let mut valid = false;
        for k in KS.iter() {
            valid |= sx::eq(&k.seed, &sk[..32]) & sx::eq(&k.pk, &sk[32..64]);
        }
        let sig: [u8; 64] = sx::bytes("sig");
        // without random input the signature is a function of the key and the message
        for s in SS.iter() {
            let e = z.is_none() && s.fixed && s.msg.len() == message.len();
            distinct(if e { sx::eq(&s.sk, sk) & sx::eq(&s.msg, message) } else { false }, &s.sig, &sig);
        }
        let mut pk = [0u8; 32];
        pk.copy_from_slice(&sk[32..64]);
        SS.push(S { valid, pk, msg: message.to_vec(), sig, sk: sk.to_vec(), fixed: z.is_none() });
        sig
    }
}
#[no_mangle]
pub fn st_ed_verify(message: &[u8], pk: &[u8], sig: &[u8]) -> bool {
    unsafe {
        VERIFY_CALLS += 1;
        let sig = &sig[..64];
        let mut ok = false;
        for s in SS.iter() {
            if s.msg.len() == message.len() && pk.len() == 32 {
                ok |= s.valid & sx::eq(&s.pk, pk) & sx::eq(&s.sig, sig) & sx::eq(&s.msg, message);
            }
        }
        ok
    }
}

/// scrypt::scrypt
pub struct Kdf {
    pub password: Vec<u8>,
    pub salt: Vec<u8>,
    pub log_n: u8,
    pub r: u32,
    pub p: u32,
    pub out: Vec<u8>,
}
pub static mut KDF_CALLS: usize = 0;
pub static mut KDFS: Vec<Kdf> = Vec::new();
#[no_mangle]
pub fn st_scrypt(
    password: &[u8],
    salt: &[u8],
    params: &scrypt::Params,
    output: &mut [u8],
) -> Result<(), scrypt::errors::InvalidOutputLen> {
    unsafe {
        KDF_CALLS += 1;
        for o in KDFS.iter() {
            if o.out.len() == output.len()
                && same(&o.password, password)
                && same(&o.salt, salt)
                && o.log_n == params.log_n()
                && o.r == params.r()
                && o.p == params.p()
            {
                output.copy_from_slice(&o.out);
                return Ok(());
            }
        }
        let k = Kdf {
            password: password.to_vec(),
            salt: salt.to_vec(),
            log_n: params.log_n(),
            r: params.r(),
            p: params.p(),
            out: sx::vec("stream", output.len()),
        };
        for o in KDFS.iter() {
            if o.out.len() == k.out.len() {
                let e = sx::eq(&o.password, &k.password)
                    & sx::eq(&o.salt, &k.salt)
                    & (o.log_n == k.log_n)
                    & (o.r == k.r)
                    & (o.p == k.p);
                sx::assume(!e | sx::eq(&o.out, &k.out));
            }
        }
        output.copy_from_slice(&k.out);
        KDFS.push(k);
        Ok(())
    }
}

pub static B64_ENC: [u8; 256] = {
    let mut t = [0u8; 256];
    let a = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut i = 0;
    while i < 64 {
        t[i] = a[i];
        i += 1;
    }
    t
};
pub static B64_DEC: [u8; 256] = {
    let mut t = [0xffu8; 256];
    let mut i = 0;
    while i < 64 {
        t[B64_ENC[i] as usize] = i as u8;
        i += 1;
    }
    t
};
/// ct_codecs' character mappings (checked against these tables by h_b64)
#[no_mangle]
pub fn st_b64_enc(x: u8) -> u8 {
    sx::map(&B64_ENC, x)
}
#[no_mangle]
pub fn st_b64_dec(x: u8) -> u8 {
    sx::map(&B64_DEC, x)
}
pub fn b64(d: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(d.len() * 4 / 3 + 4);
    let mut i = 0;
    while i < d.len() {
        let a = d[i];
        let b = if i + 1 < d.len() { d[i + 1] } else { 0 };
        let c = if i + 2 < d.len() { d[i + 2] } else { 0 };
        o.push(sx::map(&B64_ENC, a >> 2));
        o.push(sx::map(&B64_ENC, (a & 3) << 4 | b >> 4));
        o.push(if i + 1 < d.len() { sx::map(&B64_ENC, (b & 15) << 2 | c >> 6) } else { b'=' });
        o.push(if i + 2 < d.len() { sx::map(&B64_ENC, c & 63) } else { b'=' });
        i += 3;
    }
    o
}
