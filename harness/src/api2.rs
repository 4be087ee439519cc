//! API-level harnesses C05, C13..C22.
use crate::api::*;
use crate::env;
use crate::ideal::{b64, B64_DEC};
use crate::sx;
use minisign::verif_hooks::{ed25519, fixed_time_eq, raw_scrypt_params};
use minisign::*;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

fn ascii_any(nm: &str, n: usize) -> Vec<u8> {
    let b = sx::vec(nm, n);
    for &x in b.iter() {
        sx::assume(x < 0x80);
        sx::assume(x != 10);
    }
    b
}

// ---------------------------------------------------------------- C05

/// arbitrary bytes. param 0: which loader
#[no_mangle]
pub extern "C" fn h_c05b() {
    match sx::param(0) {
        0 => {
            let n = sx::choose(46, "n");
            let b = sx::vec("b", n);
            match PublicKey::from_bytes(&b) {
                Ok(p) => {
                    let _ = (p.to_bytes(), p.keynum().len(), p == p.clone());
                    sx::reach("loaded");
                }
                Err(_) => sx::reach("refused"),
            }
        }
        1 => {
            let n = sx::choose(78, "n");
            let b = sx::vec("b", n);
            match SignatureBones::from_bytes(&b) {
                Ok(p) => {
                    let _ = (p.to_bytes(), p.is_prehashed());
                    let s: SignatureBox = p.into();
                    let _ = (s.keynum().len(), s.is_prehashed(), s.trusted_comment().is_ok(), s.untrusted_comment().is_ok());
                    sx::reach("loaded");
                }
                Err(_) => sx::reach("refused"),
            }
        }
        _ => {
            let n = sx::pick(&[0, 1, 2, 3, 6, 7, 37, 38, 39, 46, 54, 62, 125, 126, 157, 158, 159, 170], "n");
            let b = sx::vec("b", n);
            match SecretKey::from_bytes(&b) {
                Ok(p) => {
                    let _ = (p.to_bytes(), p.keynum().len(), p == p.clone(), PublicKey::from_secret_key(&p).is_ok());
                    sx::reach("loaded");
                }
                Err(_) => sx::reach("refused"),
            }
        }
    }
}
/// a line of some shape; None: the text ends here
fn line(prefix: &[u8], which: usize, full: bool) -> Option<Vec<u8>> {
    match which {
        0 => None,
        1 => Some(cat(&[prefix, &ascii_any("t", 2)])),
        2 => {
            let n = sx::pick(if full { &[0, 1, 16, 17, 18, 19, 20, 300, 1100, 9000] } else { &[0, 18, 1100] }, "len");
            if n >= 300 {
                return Some(cat(&[prefix, &long("long", n - prefix.len())]));
            }
            Some(ascii_any("l", n))
        }
        3 => {
            // a character of two bytes at any place of the prefix
            let n = sx::choose(prefix.len() + 1, "cut");
            let c: [u8; 2] = sx::bytes("c");
            sx::assume((c[0] >= 0xc2) & (c[0] <= 0xdf));
            sx::assume((c[1] >= 0x80) & (c[1] <= 0xbf));
            Some(cat(&[&prefix[..n], &c, b"xx"]))
        }
        _ => Some(cat(&[prefix, b"ok"])),
    }
}
fn enc_line(which: usize, sizes: &[usize], full: bool) -> Option<Vec<u8>> {
    match which {
        0 => None,
        1 => {
            let n = sx::pick(sizes, "sz");
            Some(b64(&sx::vec("e", n)))
        }
        2 => {
            let n = sx::pick(if full { &[0, 1, 2, 3, 4, 5, 8] } else { &[0, 4] }, "len");
            Some(ascii_any("q", n))
        }
        3 => {
            let c: [u8; 2] = sx::bytes("c");
            sx::assume((c[0] >= 0xc2) & (c[0] <= 0xdf));
            sx::assume((c[1] >= 0x80) & (c[1] <= 0xbf));
            Some(cat(&[b"AA", &c]))
        }
        _ => Some(b64(&vec![7u8; sizes[0]])),
    }
}
fn text_of(l: &[Option<Vec<u8>>]) -> Vec<u8> {
    let mut t = Vec::new();
    for (i, x) in l.iter().enumerate() {
        match x {
            Some(x) => {
                if i > 0 {
                    t.push(b'\n');
                }
                t.extend_from_slice(x);
            }
            None => break,
        }
    }
    t
}
fn use_box(r: std::result::Result<SignatureBox, PError>, data: &[u8], key: Option<PublicKey>) -> bool {
    match r {
        Ok(b) => {
            let _ = (b.keynum().len(), b.trusted_comment().is_ok(), b.untrusted_comment().is_ok(), b.to_string().len());
            let quiet = key.is_none() || sx::choose(2, "quiet") == 1;
            let pk = match key {
                Some(k) => k,
                None => pk_obj(&sx::bytes::<42>("pkb")),
            };
            let ok = verify(&pk, &b, Cursor::new(data), quiet, false, true).is_ok();
            let bones: SignatureBones = b.into();
            let b: SignatureBox = bones.into();
            let _ = verify(&pk, &b, Cursor::new(data), true, false, true);
            sx::reach("loaded");
            ok
        }
        Err(_) => {
            sx::reach("refused");
            false
        }
    }
}
/// signature box texts: one line is of an arbitrary shape, the others plausible.
/// param 0: the line; param 1: 0 whatever loads is verified against an arbitrary key and data,
/// 1 the plausible lines are authentic
#[no_mangle]
pub extern "C" fn h_c05t() {
    let w = sx::param(0);
    let data = sx::vec("data", sx::choose(2, "n"));
    let (sig, gsig, key) = authentic(sx::param(1) == 1, &data);
    let k = |i: usize| if i == w { sx::choose(4, "shape") } else { 4 };
    let e = |i: usize, sizes: &[usize], ok: &[u8]| if i == w { enc_line(k(i), sizes, true) } else { Some(b64(ok)) };
    let l = [
        line(UC, k(0), true),
        e(1, &[74, 0, 1, 2, 10, 73, 75, 76, 90, 200, 1200], &sig),
        line(TC, k(2), true),
        e(3, &[64, 0, 1, 31, 32, 33, 63, 65, 66, 96, 200, 1200], &gsig),
    ];
    let t = text_of(&l);
    if use_box(SignatureBox::from_string(text(&t)), &data, key) && w == 0 {
        sx::reach("verified");
    }
}
/// the decoded lines of a signature box over the data with the comment "ok", and its key
fn authentic(yes: bool, data: &[u8]) -> (Vec<u8>, Vec<u8>, Option<PublicKey>) {
    if !yes {
        return (cat(&[b"ED", &[7; 72]]), vec![7; 64], None);
    }
    let k = keys();
    let s = ed25519::signature(&digest(data), &k.sk, None);
    let g = ed25519::signature(&cat(&[&s, b"ok"]), &k.sk, None);
    (cat(&[b"ED", &k.kid, &s]), g.to_vec(), Some(pk_obj(&pk_bytes(b"Ed", &k.kid, &k.pk))))
}
/// two arbitrary-shaped lines. params: the two lines
#[no_mangle]
pub extern "C" fn h_c05tt() {
    let (u, v) = (sx::param(0), sx::param(1));
    let (sig, gsig, key) = authentic(u != 1 && v != 1, b"d");
    let k = |i: usize| if i == u || i == v { sx::choose(4, "shape") } else { 4 };
    let e = |i: usize, sizes: &[usize], ok: &[u8]| if i == u || i == v { enc_line(k(i), sizes, false) } else { Some(b64(ok)) };
    let l = [line(UC, k(0), false), e(1, &[74, 0, 73, 75], &sig), line(TC, k(2), false), e(3, &[64, 0, 32, 63, 65], &gsig)];
    let t = text_of(&l);
    use_box(SignatureBox::from_string(text(&t)), b"d", key);
}
/// the whole text arbitrary (short), with line ends
#[no_mangle]
pub extern "C" fn h_c05s() {
    let n = sx::choose(7, "n");
    let b = sx::vec("s", n);
    for &x in b.iter() {
        sx::assume(x < 0x80);
    }
    let s = text(&b).to_string();
    match sx::param(0) {
        0 => {
            use_box(SignatureBox::from_string(&s), b"d", None);
        }
        1 => {
            let _ = PublicKeyBox::from_string(&s).and_then(|b| b.into_public_key()).is_ok();
            let _ = PublicKey::from_base64(&s).is_ok();
        }
        _ => {
            let _ = SecretKeyBox::from_string(&s).and_then(|b| b.into_secret_key(Some("p".into()))).is_ok();
            let _ = SecretKeyBox::from_string(&s).and_then(|b| b.into_unencrypted_secret_key()).is_ok();
        }
    }
    sx::reach("done");
}
/// key boxes: first line of any shape, key line of any size or characters
/// param 0: 0 public key, 1 unencrypted secret key, 2 encrypted secret key; param 1: line
#[no_mangle]
pub extern "C" fn h_c05k() {
    let w = sx::param(0);
    let s0 = if sx::param(1) == 0 { sx::choose(4, "shape") } else { 4 };
    let s1 = if sx::param(1) == 1 { sx::choose(4, "shape") } else { 4 };
    let l = [
        line(UC, s0, true),
        if w == 0 { enc_line(s1, &[42, 0, 1, 2, 40, 41, 43, 44, 200, 1200], true) } else { enc_line(s1, &[158, 0, 1, 2, 3, 157, 159, 160, 300, 1200], true) },
    ];
    let t = text(&text_of(&l)).to_string();
    let ok = match w {
        0 => {
            let b = PublicKeyBox::from_string(&t);
            b.and_then(|b| b.into_public_key()).is_ok()
        }
        1 => SecretKeyBox::from_string(&t).and_then(|b| b.into_unencrypted_secret_key()).is_ok(),
        _ => SecretKeyBox::from_string(&t).and_then(|b| b.into_secret_key(Some("p".into()))).is_ok(),
    };
    if ok {
        sx::reach("loaded");
    } else {
        sx::reach("refused");
    }
}
/// an encrypted secret key with arbitrary algorithms and limits
#[no_mangle]
pub extern "C" fn h_c05e() {
    let kdf: [u8; 2] = sx::bytes("kdf");
    let ops: [u8; 8] = sx::bytes("ops");
    let mem: [u8; 8] = sx::bytes("mem");
    if !sx::symx() {
        // (what the native replay can afford to derive)
        let o = u64::from_le_bytes(ops);
        let m = u64::from_le_bytes(mem);
        sx::assume(m > 1 << 30 || o < 1 << 28);
    }
    let b = cat(&[b"Ed", &kdf, b"B2", &[0; 32], &ops, &mem, &[0; 104]]);
    let t = cat(&[UC, b"\n", &b64(&b), b"\n"]);
    let t = text(&t);
    let a = SecretKeyBox::from_string(t).and_then(|b| b.into_secret_key(Some("p".into()))).is_ok();
    let b = SecretKeyBox::from_string(t).and_then(|b| b.into_unencrypted_secret_key()).is_ok();
    sx::check(!(a && b), "a key is not both");
    sx::reach("done");
}

// ---------------------------------------------------------------- C13

pub static HEX: [u8; 256] = {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 16 {
        t[i] = b"0123456789ABCDEF"[i];
        i += 1;
    }
    t
};
fn hex_le(k: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for &x in k.iter().rev() {
        o.push(sx::map(&HEX, x >> 4));
        o.push(sx::map(&HEX, x & 15));
    }
    o
}
/// param 0: bytes and base64; 1: box with arbitrary key id; 2: from a file
#[no_mangle]
pub extern "C" fn h_c13() {
    let mode = sx::param(0);
    let alg: [u8; 2] = sx::bytes("alg");
    let kid: [u8; 8] = if mode == 2 { *b"\x01\x23\x45\x67\x89\xab\xcd\xef" } else { sx::bytes("kid") };
    let key: [u8; 32] = sx::bytes("key");
    let all = cat(&[&alg, &kid, &key]);
    let same = |p: &PublicKey, w: &str| {
        sx::check(sx::eq(&p.to_bytes(), &all), w);
        sx::check(sx::eq(p.keynum(), &kid), "key id");
    };
    let p = match PublicKey::from_bytes(&all) {
        Ok(p) => p,
        Err(_) => {
            sx::check(false, "42 bytes load");
            return;
        }
    };
    same(&p, "bytes: algorithm, key id, key");
    if mode == 0 {
        let e = p.to_base64();
        sx::check(sx::eq(e.as_bytes(), &b64(&all)), "base64 text");
        match PublicKey::from_base64(&e) {
            Ok(q) => same(&q, "base64 round trip"),
            Err(_) => sx::check(false, "base64 loads"),
        }
        let n = sx::choose(46, "n");
        let mut t = all.clone();
        t.truncate(n);
        while t.len() < n {
            t.push(sx::bytes::<1>("x")[0]);
        }
        match PublicKey::from_bytes(&t) {
            Ok(q) => {
                sx::check(n >= 42, "short keys are refused");
                same(&q, "longer input");
            }
            Err(_) => sx::check(n < 42, "42 bytes load"),
        }
        sx::reach("done");
        return;
    }
    let b = match p.to_box() {
        Ok(b) => b,
        Err(_) => {
            sx::check(false, "box");
            return;
        }
    };
    let want = cat(&[UC, b"minisign public key: ", &hex_le(&kid), b"\n", &b64(&all), b"\n"]);
    sx::check(sx::eq(b.to_string().as_bytes(), &want), "box text: key id as 16 upper-case hex digits, base64");
    sx::check(sx::eq(&b.to_bytes(), &want), "box bytes");
    sx::check(sx::eq(b.clone().into_string().as_bytes(), &want), "into_string");
    if mode == 1 {
        let s = text(&want).to_string();
        match PublicKeyBox::from_string(&s).and_then(|b| b.into_public_key()) {
            Ok(q) => same(&q, "box round trip"),
            Err(_) => sx::check(false, "box loads"),
        }
        let q: PublicKey = b.clone().into();
        same(&q, "From<PublicKeyBox>");
        match PublicKey::from_box(b) {
            Ok(q) => same(&q, "from_box"),
            Err(_) => sx::check(false, "box loads"),
        }
    } else {
        match PublicKeyBox::from_string(text(&crlf(&b.to_bytes()))).and_then(|b| b.into_public_key()) {
            Ok(q) => same(&q, "box with CR LF line ends"),
            Err(_) => sx::check(false, "CR LF line ends are understood"),
        }
        let f = env::file(&b.to_bytes());
        match PublicKey::from_file(f) {
            Ok(q) => same(&q, "from a file"),
            Err(_) => sx::check(false, "file loads"),
        }
    }
    sx::reach("done");
}
/// malformed key lines. param 0: 0 sizes, 1 arbitrary characters in a window; param 1: 0 box, 1 base64
#[no_mangle]
pub extern "C" fn h_c13m() {
    let e = b64(&sx::bytes::<42>("b"));
    let mut l = e.clone();
    let mut want = true;
    if sx::param(0) == 0 {
        // other sizes, with every kind of padding
        let n = sx::choose(50, "n");
        let mut d = sx::vec("d", n);
        if n == 42 {
            d = sx::vec("d2", 42);
        }
        l = b64(&d);
        want = n == 42;
    } else {
        let at = sx::pick(&[0, 28, 52], "at");
        let w = sx::vec("w", 4);
        for i in 0..4 {
            sx::assume(w[i] < 0x80);
            sx::assume(w[i] != 10);
            sx::assume(w[i] != 13);
            want &= sx::map(&B64_DEC, w[i]) < 64;
        }
        l[at..at + 4].copy_from_slice(&w);
        match sx::choose(3, "len") {
            0 => {}
            1 => {
                l.push(ascii("more", 1)[0]);
                want = false;
            }
            _ => {
                l.truncate(55);
                want = false;
            }
        }
    }
    let r = if sx::param(1) == 0 {
        PublicKeyBox::from_string(text(&cat(&[b"c\n", &l, b"\n"]))).and_then(|b| b.into_public_key())
    } else {
        // (surrounding blanks are not asked about)
        PublicKey::from_base64(text(&l))
    };
    sx::check(r.is_ok() == want, "loads iff the line is exactly one encoded key");
    if r.is_ok() {
        sx::reach("loaded");
    } else {
        sx::reach("refused");
    }
}

// ---------------------------------------------------------------- C14

fn sk_parts() -> (Vec<u8>, [u8; 2]) {
    let kdf: [u8; 2] = sx::bytes("kdf");
    (
        cat(&[
            &sx::bytes::<2>("alg"),
            &kdf,
            &sx::bytes::<2>("chkalg"),
            &sx::bytes::<32>("salt"),
            &sx::bytes::<8>("ops"),
            &sx::bytes::<8>("mem"),
            &sx::bytes::<8>("kid"),
            &sx::bytes::<64>("sk"),
            &sx::bytes::<32>("chk"),
        ]),
        kdf,
    )
}
/// serialization round trips. param 0: 0 bytes, 1 box (arbitrary key, unencrypted fields)
#[no_mangle]
pub extern "C" fn h_c14() {
    let (all, _) = sk_parts();
    let k = match SecretKey::from_bytes(&all) {
        Ok(k) => k,
        Err(_) => {
            sx::check(false, "158 bytes load");
            return;
        }
    };
    sx::check(sx::eq(&k.to_bytes(), &all), "bytes round trip");
    sx::check(sx::eq(k.keynum(), &all[54..62]), "key id");
    let c = match sx::choose(6, "c") {
        0 => None,
        1 => Some(vec![]),
        2 => Some(ascii("comment", 2)),
        3 => Some(long("comment", 100)),
        4 => Some(long("comment", 1030)),
        _ => Some("\u{e9}".as_bytes().to_vec()),
    };
    let b = match k.to_box(c.as_ref().map(|c| text(c))) {
        Ok(b) => b,
        Err(_) => {
            sx::check(false, "box");
            return;
        }
    };
    let want = cat(&[UC, &c.unwrap_or(b"rsign encrypted secret key".to_vec()), b"\n", &b64(&all), b"\n"]);
    sx::check(sx::eq(b.to_string().as_bytes(), &want), "box text: comment and base64 of the 158 bytes");
    sx::check(sx::eq(&b.to_bytes(), &want), "box bytes");
    sx::check(sx::eq(b.clone().into_string().as_bytes(), &want), "into_string");
    let n = sx::choose(158, "n");
    sx::check(SecretKey::from_bytes(&all[..n]).is_err(), "short keys are refused");
    sx::reach("done");
}
/// loading an unencrypted box: iff the KDF field says so and the checksum matches
#[no_mangle]
pub extern "C" fn h_c14u() {
    let kdf: [u8; 2] = sx::bytes("kdf");
    let alg: [u8; 2] = sx::bytes("alg");
    let kid: [u8; 8] = sx::bytes("kid");
    let sk: [u8; 64] = sx::bytes("sk");
    // authentic parts, and the stored ones differ arbitrarily
    let d = chk(&alg, &kid, &sk);
    let alg2 = sx::xor(&alg, &sx::bytes::<2>("dalg"));
    let kid2 = sx::xor(&kid, &sx::bytes::<8>("dkid"));
    let sk2 = sx::xor(&sk, &sx::bytes::<64>("dsk"));
    let chk2 = sx::xor(&d, &sx::bytes::<32>("dchk"));
    let all = cat(&[&alg2, &kdf, &sx::bytes::<2>("chkalg"), &sx::bytes::<48>("x"), &kid2, &sk2, &chk2]);
    let mut t = cat(&[UC, b"c\n", &b64(&all), b"\n"]);
    if sx::choose(2, "crlf") == 1 {
        t = crlf(&t);
    }
    let want = sx::eq(&kdf, &[0, 0]) & sx::eq(&chk2, &chk(&alg2, &kid2, &sk2));
    let r = if sx::param(0) == 0 {
        SecretKeyBox::from_string(text(&t)).and_then(|b| b.into_unencrypted_secret_key())
    } else {
        SecretKey::from_unencrypted_box(text(&t).to_string().into())
    };
    sx::check(r.is_ok() == want, "loads iff unencrypted and the checksum matches");
    match r {
        Ok(k) => {
            sx::check(sx::eq(&k.to_bytes(), &all), "box round trip");
            sx::reach("loaded");
        }
        Err(_) => sx::reach("refused"),
    }
}
/// the wrong kind of loader
#[no_mangle]
pub extern "C" fn h_c14k() {
    env::start();
    let kdf: [u8; 2] = sx::bytes("kdf");
    let kid: [u8; 8] = sx::bytes("kid");
    let sk: [u8; 64] = sx::bytes("sk");
    let d = chk(b"Ed", &kid, &sk);
    let plain = cat(&[&kid, &sk, &d]);
    let enc = sx::choose(2, "enc") == 1;
    let salt: [u8; 32] = sx::bytes("salt");
    let stored = if enc { sx::xor(&plain, &stream(b"p", &salt, 32768, 1 << 20)) } else { plain.clone() };
    let all = cat(&[b"Ed", &kdf, b"B2", &salt, &32768u64.to_le_bytes(), &(1u64 << 20).to_le_bytes(), &stored]);
    let t = text(&cat(&[UC, b"c\n", &b64(&all), b"\n"])).to_string();
    let as_enc = sx::choose(2, "asenc") == 1;
    let via_file = sx::choose(2, "file") == 1;
    let r = if as_enc {
        if via_file {
            SecretKey::from_file(env::file(t.as_bytes()), Some("p".to_string()))
        } else {
            SecretKey::from_box(t.into(), Some("p".to_string()))
        }
    } else {
        SecretKey::from_unencrypted_box(t.into())
    };
    let is_enc = sx::eq(&kdf, b"Sc");
    let is_none = sx::eq(&kdf, &[0, 0]);
    if as_enc {
        sx::check(!is_none | r.is_err(), "unencrypted key is not opened as encrypted");
        sx::check(is_enc | is_none | r.is_err(), "unknown KDF is refused");
        if enc {
            sx::check(!is_enc | r.is_ok(), "encrypted key opens");
        }
    } else {
        sx::check(is_none | r.is_err(), "only an unencrypted key is opened as unencrypted");
        if !enc {
            sx::check(!is_none | r.is_ok(), "unencrypted key opens");
        }
    }
    match r {
        Ok(k) => {
            if enc == as_enc {
                sx::check(sx::eq(&k.to_bytes()[54..158], &plain), "the key");
            }
            sx::reach(if as_enc { "encrypted" } else { "unencrypted" });
        }
        Err(_) => sx::reach("refused"),
    }
}

// ---------------------------------------------------------------- C15, C16

/// libsodium's rule (crypto_pwhash_scryptsalsa208sha256, pickparams)
pub fn pick_ref(opslimit: u64, memlimit: u64) -> (u32, u32) {
    let ops = if opslimit < 32768 { 32768 } else { opslimit };
    let maxn;
    let cpu = ops < memlimit / 32;
    if cpu {
        maxn = ops / 32;
    } else {
        maxn = memlimit / 1024;
    }
    let mut l = 1u32;
    while l < 63 && (1u64 << l) <= maxn / 2 {
        l += 1;
    }
    let p = if cpu {
        1
    } else {
        let rp = (ops >> 2) >> l;
        (sx::ite(rp > 0x3fffffff, 0x3fffffff, rp) >> 3) as u32
    };
    (l, p)
}
fn in_bounds(mem: u64, l: u32, p: u32) -> bool {
    (mem <= 1 << 30) & (l <= 20) & (p <= 1 << 20)
}
pub fn stream(pw: &[u8], salt: &[u8], ops: u64, mem: u64) -> Vec<u8> {
    let (l, p) = pick_ref(ops, mem);
    let mut o = vec![0u8; 104];
    match scrypt::Params::new(l as u8, 8, p, 32) {
        Ok(pr) => {
            let _ = scrypt::scrypt(pw, salt, &pr, &mut o);
        }
        Err(_) => {
            sx::kill();
        }
    }
    o
}
fn password() -> Vec<u8> {
    match sx::choose(7, "pw") {
        0 => vec![],
        1 => ascii("pw", 1),
        2 => ascii("pw", 3),
        3 => long("pw", 63),
        4 => long("pw", 130),
        5 => long("pw", 1100),
        _ => "\u{e9}\u{4e2d} ".as_bytes().to_vec(),
    }
}
/// a generated key: stored form, and opening it again
#[no_mangle]
pub extern "C" fn h_c15g() {
    env::start();
    let pw = password();
    let kp = match KeyPair::generate_encrypted_keypair(Some(text(&pw).to_string())) {
        Ok(k) => k,
        Err(_) => {
            sx::check(false, "generation succeeds");
            return;
        }
    };
    let st = kp.sk.to_bytes();
    let u64at = |o: usize| u64::from_le_bytes(st[o..o + 8].try_into().unwrap());
    sx::check(sx::eq(&st[2..4], b"Sc"), "marked as encrypted");
    sx::check((u64at(38) >= 1 << 20) & (u64at(46) >= 1 << 25), "limits of 2^20 operations and 32 MiB");
    let (ops, mem) = (sx::concretize(u64at(38)), sx::concretize(u64at(46)));
    let s = stream(&pw, &st[6..38], ops, mem);
    let plain = sx::xor(&st[54..158], &s);
    sx::check(sx::eq(&plain[0..8], kp.pk.keynum()), "key id hidden under stream bytes 0-7");
    let pkb = kp.pk.to_bytes();
    sx::check(sx::eq(&plain[40..72], &pkb[10..42]), "key hidden under stream bytes 8-71");
    let (rsk, rpk) = ed25519::keypair(&plain[8..40]);
    sx::check(sx::eq(&rpk, &pkb[10..42]) & sx::eq(&rsk, &plain[8..72]), "the decrypted key belongs to the public key");
    sx::check(sx::eq(&plain[72..104], &chk(&st[0..2], &plain[0..8], &plain[8..72])), "checksum hidden under stream bytes 72-103");
    let b = match kp.sk.to_box(None) {
        Ok(b) => b,
        Err(_) => {
            sx::check(false, "box");
            return;
        }
    };
    match SecretKey::from_box(b.clone(), Some(text(&pw).to_string())) {
        Ok(k) => {
            sx::check(sx::eq(&k.to_bytes()[54..158], &plain), "opens to the original key");
            sx::reach("opened");
        }
        Err(_) => sx::check(false, "opens with its password"),
    }
    sx::check(SecretKey::from_unencrypted_box(b).is_err(), "not openable without a password");
}
/// an arbitrary stored key and password: opens iff the decrypted checksum matches
#[no_mangle]
pub extern "C" fn h_c15o() {
    env::start();
    let alg: [u8; 2] = sx::bytes("alg");
    let salt: [u8; 32] = sx::bytes("salt");
    let (ops, mem) = [(32768u64, 1u64 << 20), (0, 0x20_0000), (65536, 0)][sx::choose(3, "lim")];
    let kid: [u8; 8] = sx::bytes("kid");
    let sk: [u8; 64] = sx::bytes("sk");
    let d = chk(&alg, &kid, &sk);
    let password = if sx::param(0) == 0 { password } else { || if sx::choose(2, "pw") == 0 { vec![] } else { ascii("pw", 1) } };
    let pw = password();
    let pw2 = if sx::choose(2, "other") == 1 { password() } else { pw.clone() };
    let s = stream(&pw, &salt, ops, mem);
    let mut plain = cat(&[&kid, &sk, &d]);
    let mut dplain: [u8; 104] = sx::bytes("dplain");
    if sx::param(0) == 1 {
        dplain[1..].fill(0);
    }
    plain = sx::xor(&plain, &dplain);
    let stored = sx::xor(&plain, &s);
    let s2 = stream(&pw2, &salt, ops, mem);
    let opened = sx::xor(&stored, &s2);
    let want = sx::eq(&opened[72..104], &chk(&alg, &opened[..8], &opened[8..72]));
    let head = cat(&[&alg, b"Sc", b"B2", &salt, &ops.to_le_bytes(), &mem.to_le_bytes()]);
    let t = text(&cat(&[UC, b"c\n", &b64(&cat(&[&head, &stored])), b"\n"])).to_string();
    let r = SecretKey::from_box(t.into(), Some(text(&pw2).to_string()));
    sx::check(r.is_ok() == want, "opens iff the decrypted checksum matches");
    match r {
        Ok(k) => {
            sx::check(sx::eq(&k.to_bytes(), &cat(&[&head, &opened])), "the decrypted key");
            sx::reach("opened");
        }
        Err(_) => sx::reach("refused"),
    }
}
/// the parameters for arbitrary limits
#[no_mangle]
pub extern "C" fn h_c16p() {
    let ops = sx::u64_("ops");
    let mem = sx::u64_("mem");
    let (l, p) = pick_ref(ops, mem);
    match raw_scrypt_params(mem as usize, ops, 20) {
        Ok(q) => {
            sx::check((q.log_n() as u32 == l) & (q.r() == 8) & (q.p() == p), "libsodium's parameters");
            sx::check(l <= 20, "N is at most 2^20");
            sx::check((q.p() as u64) * 1024 <= 1 << 30, "p does not need more than 1 GiB");
            sx::reach("parameters");
        }
        Err(_) => {
            sx::check((l > 20) | (p == 0) | (p > 1 << 20), "refused only out of bounds");
            sx::reach("refused");
        }
    }
}
/// limits of a stored key: refused before derivation, or derived with libsodium's parameters
/// param 0: 0 what must be refused, 1 moderate limits, 2 all others that are within bounds, with p = 1
#[no_mangle]
pub extern "C" fn h_c16b() {
    env::start();
    let ops = sx::u64_("ops");
    let mem = sx::u64_("mem");
    let salt = [5u8; 32];
    let kid: [u8; 8] = *b"12345678";
    let sk = [9u8; 64];
    let plain = cat(&[&kid, &sk, &chk(b"Ed", &kid, &sk)]);
    let (l, p) = pick_ref(ops, mem);
    let stored;
    let deep = sx::param(0) >= 1;
    if deep {
        // (bounded so that a replay can afford the derivation)
        if sx::param(0) == 1 {
            sx::assume(ops <= 1 << 22);
            sx::assume(mem <= 1 << 25);
            sx::assume(p > 0);
            sx::assume(p <= 1 << 10);
        } else {
            sx::assume(in_bounds(mem, l, p) & (l > 12) & (p == 1));
        }
        stored = sx::xor(&plain, &stream(b"p", &salt, ops, mem));
    } else {
        sx::assume(!in_bounds(mem, l, p));
        sx::assume((ops <= 1 << 26) | (l > 20) | (mem > 1 << 30));
        stored = plain.clone();
        if sx::choose(2, "low") == 1 {
            // code that mistakes these limits for their low halves has some work to do
            let (o, m) = (ops & 0xffff_ffff, mem & 0xffff_ffff);
            sx::assume((o >= 1 << 20) & (o <= 1 << 22) & (m >= 1 << 20) & (m <= 1 << 25));
        }
    }
    let t = text(&cat(&[UC, b"c\n", &b64(&cat(&[b"Ed", b"Sc", b"B2", &salt, &ops.to_le_bytes(), &mem.to_le_bytes(), &stored])), b"\n"])).to_string();
    let before = sx::live_heap();
    sx::reset_peak();
    let calls = unsafe { crate::ideal::KDF_CALLS };
    let r = SecretKey::from_box(t.into(), Some("p".to_string()));
    if deep {
        sx::check(r.is_ok(), "moderate limits: opens with libsodium's parameters");
        sx::reach("opened");
    } else {
        sx::check(sx::peak_heap() - before <= (1 << 30) + (1 << 20), "no more than 1 GiB is used");
        sx::check(r.is_err(), "excessive limits are refused");
        // (outside symbolic execution the memory of a derivation tells)
        sx::check(sx::symx() || sx::peak_heap() - before <= 1 << 19, "refused before any derivation is begun");
        sx::check(unsafe { crate::ideal::KDF_CALLS } == calls, "refused before any derivation");
        sx::reach("refused");
    }
}

// ---------------------------------------------------------------- C17

fn rng_range(b: &[u8], used: &mut Vec<(usize, usize)>) -> bool {
    unsafe {
        let n = b.len();
        let l = &env::RNG_LOG;
        let mut i = 0;
        while i + n <= l.len() {
            if sx::same(&l[i..i + n], b) {
                for &(a, e) in used.iter() {
                    if i < e && a < i + n {
                        return false;
                    }
                }
                used.push((i, i + n));
                return true;
            }
            i += 1;
        }
    }
    false
}
/// param 0: 0 unencrypted, 1 with a password
#[no_mangle]
pub extern "C" fn h_c17() {
    env::start();
    unsafe {
        env::RNG_PATTERN = true;
        if sx::choose(2, "short") == 1 {
            env::RNG_SHORT = 5;
        }
    }
    let enc = sx::param(0) == 1;
    let r = if enc { KeyPair::generate_encrypted_keypair(Some("pw".to_string())) } else { KeyPair::generate_unencrypted_keypair() };
    let kp = match r {
        Ok(k) => k,
        Err(_) => {
            sx::check(false, "generation succeeds");
            return;
        }
    };
    let st = kp.sk.to_bytes();
    let mut plain = st[54..158].to_vec();
    let mut used = Vec::new();
    if enc {
        let u64at = |o: usize| u64::from_le_bytes(st[o..o + 8].try_into().unwrap());
        plain = sx::xor(&plain, &stream(b"pw", &st[6..38], u64at(38), u64at(46)));
        sx::check(rng_range(&st[6..38], &mut used), "salt is a fresh draw of the random generator");
        sx::check(sx::eq(&st[2..4], b"Sc"), "kdf");
    } else {
        sx::check(sx::eq(&st[2..4], &[0, 0]), "kdf");
    }
    sx::check(rng_range(&plain[8..40], &mut used), "seed is a fresh draw of the random generator");
    sx::check(rng_range(&plain[0..8], &mut used), "key id is a fresh draw of the random generator");
    let (sk, pk) = ed25519::keypair(&plain[8..40]);
    let pkb = kp.pk.to_bytes();
    sx::check(sx::eq(&pkb, &cat(&[b"Ed", &plain[..8], &pk])), "public key: algorithm, same key id, the seed's key");
    sx::check(sx::eq(&plain[8..72], &sk), "secret key: seed and public key");
    sx::check(sx::eq(&st[0..2], b"Ed") & sx::eq(&st[4..6], b"B2"), "algorithms");
    sx::check(sx::eq(&plain[72..], &chk(b"Ed", &plain[..8], &plain[8..72])), "stored checksum is valid");
    if !enc {
        match PublicKey::from_secret_key(&kp.sk) {
            Ok(p) => {
                sx::check(sx::eq(&p.to_bytes(), &pkb), "public key regenerated from the secret key");
                sx::check(p == kp.pk, "equal to the public key");
            }
            Err(_) => sx::check(false, "public key can be regenerated"),
        }
        sx::check(sx::eq(kp.sk.keynum(), kp.pk.keynum()), "shared key id");
    }
    sx::reach("generated");
}
/// signatures mix in fresh random bytes
#[no_mangle]
pub extern "C" fn h_c17s() {
    let k = keys();
    let sk = sk_obj(&k);
    let data = sx::vec("data", 2);
    env::start();
    if !sx::symx() {
        // how many bytes of the generator does each of the two signatures depend on?
        let run = |flip: usize| unsafe {
            env::RNG_PATTERN = true;
            env::RNG_FLIP = flip;
            env::RNG_LOG.clear();
            sign(None, &sk, Cursor::new(&data), Some("t"), Some("u")).map(|b| b.to_string()).unwrap_or_default()
        };
        let base = run(usize::MAX);
        let (mut n1, mut n2) = (0, 0);
        let total = unsafe { env::RNG_LOG.len() };
        for i in 0..total {
            let t = run(i);
            n1 += (t.lines().nth(1) != base.lines().nth(1)) as usize;
            n2 += (t.lines().nth(3) != base.lines().nth(3)) as usize;
        }
        sx::check(n1 >= 32 && n2 >= 32, "each signature mixes in 32 fresh random bytes");
        sx::reach("signed");
        return;
    }
    let made = unsafe { crate::ideal::ZS.len() };
    let r = sign(None, &sk, Cursor::new(&data), Some("t"), Some("u"));
    sx::check(r.is_ok(), "signing succeeds");
    unsafe {
        if crate::ideal::ZS.len() != made + 2 {
            // (signatures made in some other way are not observed here)
            return;
        }
        for z in crate::ideal::ZS[made..].iter() {
            let mut used = vec![false; env::RNG_LOG.len()];
            let mut n = 0;
            for x in z.as_ref().unwrap_or(&vec![]).iter() {
                let hit = (0..used.len()).find(|&i| !used[i] && sx::same(&env::RNG_LOG[i..i + 1], core::slice::from_ref(x)));
                if let Some(i) = hit {
                    used[i] = true;
                    n += 1;
                }
            }
            sx::check(n >= 32, "each signature mixes in 32 fresh random bytes");
        }
        sx::reach("signed");
    }
}
/// a failing generator. param 0: 0 unencrypted, 1 encrypted, 2 signing
#[no_mangle]
pub extern "C" fn h_c17f() {
    let m = sx::param(0);
    let k = keys();
    let sk = sk_obj(&k);
    let at = sx::choose([2, 3, 2][m] + 1, "at");
    env::start();
    unsafe {
        env::RNG_FAIL_AT = at;
    }
    let ok = match m {
        0 => KeyPair::generate_unencrypted_keypair().is_ok(),
        1 => KeyPair::generate_encrypted_keypair(Some("pw".to_string())).is_ok(),
        _ => sign(None, &sk, Cursor::new(b"data"), Some("t"), None).is_ok(),
    };
    let failed = unsafe { env::RNG_N > at };
    sx::check(ok == !failed, "an error iff the random generator failed");
    sx::reach(if ok { "ok" } else { "failed" });
}

// ---------------------------------------------------------------- C18

/// delivers `d` in pieces; fails at read `fail`; after the end delivers junk when asked again
struct Pieces<'a> {
    d: &'a [u8],
    pos: usize,
    sizes: &'a [usize],
    n: usize,
    fail: usize,
    kind: usize,
    ended: bool,
    big: usize,
}
const KINDS: usize = 19;
const INTERRUPTED: usize = 18;
fn read_error(kind: usize) -> io::Error {
    match kind {
        0 => io::Error::from_raw_os_error(5),
        1 => io::Error::from_raw_os_error(11),
        2 => io::ErrorKind::UnexpectedEof.into(),
        3 => io::ErrorKind::BrokenPipe.into(),
        4 => io::ErrorKind::Other.into(),
        5 => io::Error::from_raw_os_error(2),
        6 => io::Error::from_raw_os_error(13),
        7 => io::Error::from_raw_os_error(104),
        8 => io::Error::from_raw_os_error(103),
        9 => io::Error::from_raw_os_error(110),
        10 => io::Error::from_raw_os_error(21),
        11 => io::ErrorKind::InvalidData.into(),
        12 => io::ErrorKind::InvalidInput.into(),
        13 => io::ErrorKind::WriteZero.into(),
        14 => io::ErrorKind::NotConnected.into(),
        15 => io::ErrorKind::OutOfMemory.into(),
        16 => io::ErrorKind::Unsupported.into(),
        17 => io::ErrorKind::TimedOut.into(),
        // a call to be repeated: an error, or repeated
        _ => io::ErrorKind::Interrupted.into(),
    }
}
impl<'a> Read for Pieces<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let k = self.n;
        self.n += 1;
        if k == self.fail {
            return Err(read_error(self.kind));
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.ended {
            b[0] = 0x5a;
            return Ok(1);
        }
        let left = self.d.len() - self.pos;
        if left == 0 {
            self.ended = true;
            return Ok(0);
        }
        let want = if k < self.sizes.len() { self.sizes[k] } else { self.big };
        let n = want.min(left).min(b.len());
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl<'a> Seek for Pieces<'a> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if let SeekFrom::Start(n) = p {
            self.pos = (n as usize).min(self.d.len());
            self.ended = false;
        }
        Ok(self.pos as u64)
    }
}
fn pieces<'a>(d: &'a [u8], sizes: &'a [usize], fail: usize, kind: usize) -> Pieces<'a> {
    Pieces { d, pos: 0, sizes, n: 0, fail, kind, ended: false, big: usize::MAX }
}
/// content of 0..N bytes in every split. param 0: 0 sign, 1 verify prehashed, 2 verify legacy
#[no_mangle]
pub extern "C" fn h_c18() {
    let m = sx::param(0);
    let max = sx::param(1).max(3);
    let k = keys();
    let n = sx::choose(max + 1, "n");
    let data = sx::vec("data", n);
    let mut sizes = Vec::new();
    let mut left = n;
    while left > 0 {
        let s = sx::choose(left, "size") + 1;
        sizes.push(s);
        left -= s;
    }
    let fail = sx::choose(sizes.len() + 2, "fail");
    let fails = fail <= sizes.len();
    stream_case(m, &k, &data, &sizes, fail, fails);
}
fn stream_case(m: usize, k: &Keys, data: &[u8], sizes: &[usize], fail: usize, fails: bool) {
    let kind = if fails { sx::choose(if data.len() <= 2 { KINDS } else { 5 }, "kind") } else { 0 };
    // (whether an interrupted read is repeated is not asked about)
    let again = fails && kind == INTERRUPTED;
    let pk = pk_obj(&pk_bytes(b"Ed", &k.kid, &k.pk));
    if m == 0 {
        env::start();
        let sk = sk_obj(k);
        match sign(Some(&pk), &sk, pieces(data, sizes, fail, kind), Some("t"), None) {
            Ok(b) => {
                sx::check(!fails || again, "a read error makes signing fail");
                let r = verify(&pk, &b, Cursor::new(data), true, false, false);
                sx::check(r.is_ok(), "the whole content is signed");
                sx::reach("signed");
            }
            Err(_) => {
                sx::check(fails, "signing succeeds");
                sx::reach("failed");
            }
        }
        return;
    }
    let legacy = m == 2;
    // an authentic signature of the content, or of something else of the same size
    let d2 = if data.len() < 100 { sx::xor(data, &sx::vec("diff", data.len())) } else {
        let mut d2 = data.to_vec();
        let l = data.len();
        for i in [0, 65535, 65536, l - 1] {
            d2[i % l] ^= sx::bytes::<1>("diff")[0];
        }
        d2
    };
    let s = ed25519::signature(&if legacy { d2.to_vec() } else { digest(&d2) }, &k.sk, None);
    let b: SignatureBox = match SignatureBones::from_bytes(&cat(&[if legacy { b"Ed" } else { b"ED" }, &k.kid, &s])) {
        Ok(b) => b.into(),
        Err(_) => return,
    };
    let r = verify(&pk, &b, pieces(data, sizes, fail, kind), true, false, true);
    let want = (!fails | again) & sx::eq(&d2, data);
    sx::check((r.is_ok() == want) | (again & r.is_err()), "verified against exactly the content; a read error fails");
    sx::reach(if r.is_ok() { "accepted" } else { "refused" });
}
/// more than one internal buffer. param 0: as above
#[no_mangle]
pub extern "C" fn h_c18l() {
    let m = sx::param(0);
    let k = keys();
    let n = sx::pick(&[65535, 65536, 65537, 131073], "n");
    let mut data = vec![0x41u8; n];
    for i in [0, 65534, 65535, 65536, n - 1] {
        if i < n {
            data[i] = sx::bytes::<1>("data")[0];
        }
    }
    let sz: &[usize] = match sx::choose(4, "split") {
        0 => &[],
        1 => &[1],
        2 => &[65536, 1],
        _ => &[65535, 2],
    };
    let fails = sx::choose(2, "fail") == 1;
    stream_case(m, &k, &data, sz, if fails { 1 } else { usize::MAX }, fails);
}

// ---------------------------------------------------------------- C19

struct Quirky<'a> {
    c: Cursor<&'a [u8]>,
    max: usize,
    reads: usize,
    fail: usize,
    kind: usize,
    seeks: usize,
    fail_seek: usize,
}
impl<'a> Read for Quirky<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let k = self.reads;
        self.reads += 1;
        if k == self.fail {
            return Err(read_error(self.kind));
        }
        let n = b.len().min(self.max);
        self.c.read(&mut b[..n])
    }
}
impl<'a> Seek for Quirky<'a> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let k = self.seeks;
        self.seeks += 1;
        if k == self.fail_seek {
            return Err(io::Error::from_raw_os_error(29));
        }
        self.c.seek(p)
    }
}
/// param 0: 0 prehashed text box, 1 prehashed bare, 2 legacy bare, 3 legacy text; param 1: big data
#[no_mangle]
pub extern "C" fn h_c19() {
    let kind = sx::param(0);
    let legacy = kind >= 2;
    let k = keys();
    let start = sx::choose(3, "start");
    let n = if sx::param(1) == 1 { sx::pick(&[65537, 131072], "n") } else { sx::pick(&[0, 1, 3], "n") };
    let mut all = vec![0x61u8; start + n];
    for i in 0..all.len() {
        if i < 4 || i + 2 > all.len() || i == 65536 {
            all[i] = sx::bytes::<1>("data")[0];
        }
    }
    let data = &all[start..];
    let m1 = if legacy { data.to_vec() } else { digest(data) };
    let alg: &[u8] = if legacy { b"Ed" } else { b"ED" };
    let s1 = ed25519::signature(&m1, &k.sk, None);
    let s2 = ed25519::signature(&cat(&[&s1, b"t"]), &k.sk, None);
    // what goes wrong
    let bad = sx::choose(5, "bad");
    let mut kid = k.kid.to_vec();
    let mut sig = s1.to_vec();
    let mut gsig = s2.to_vec();
    let d = sx::bytes::<1>("flip")[0];
    match bad {
        1 => kid[7] ^= d,
        2 => sig[63] ^= d,
        3 => gsig[0] ^= d,
        _ => {}
    }
    let bones = kind == 1 || kind == 2;
    let b: SignatureBox = if bones {
        match SignatureBones::from_bytes(&cat(&[alg, &kid, &sig])) {
            Ok(b) => b.into(),
            Err(_) => return,
        }
    } else {
        match SignatureBox::from_string(text(&sig_text(b"u", alg, &kid, &sig, b"t", &gsig))) {
            Ok(b) => b,
            Err(_) => return,
        }
    };
    let allow = bad != 4;
    let key = pk_obj(&pk_bytes(b"Ed", &k.kid, &k.pk));
    let quiet = sx::choose(2, "quiet") == 1;
    let output = sx::choose(2, "output") == 1;
    let mut q = Quirky { c: Cursor::new(&all), max: sx::pick(&[usize::MAX, 2], "max"), reads: 0, fail: usize::MAX, kind: 0, seeks: 0, fail_seek: usize::MAX };
    if sx::param(1) == 1 {
        q.max = usize::MAX;
    }
    q.c.set_position(start as u64);
    let big = sx::param(1) == 1;
    let fault = if !big { sx::choose(5, "fault") } else if bad == 0 && start == 1 { sx::choose(2, "fault") } else { 0 };
    let simple = bad == 0 && start == 0 && !big;
    env::start();
    unsafe {
        match fault {
            1 => {
                env::OUT_FAIL_AT = if big { sx::choose(2, "failwrite") } else { 0 };
                env::OUT_ERRNO = if simple { [5, 32, 28, 11, 27][sx::choose(5, "errno")] } else { 5 };
            }
            2 => env::OUT_SHORT = 1,
            3 => {
                q.fail = sx::choose(8, "failread");
                q.kind = if simple { sx::choose(KINDS - 1, "kind") } else { 0 };
            }
            4 => q.fail_seek = sx::choose(3, "failseek"),
            _ => {}
        }
    }
    let want = match bad {
        0 => true,
        4 => !legacy,
        3 => bones | (d == 0),
        _ => d == 0,
    };
    let r = verify(&key, &b, q, quiet, output, allow);
    unsafe {
        if fault == 0 || fault == 2 {
            sx::check(r.is_ok() == want, "accepted iff authentic");
        }
        if r.is_ok() {
            sx::check(want, "success only after every check");
            if output {
                sx::check(sx::eq(&env::OUT, data), "output is exactly the verified data");
                sx::reach("output");
            }
        } else if !want {
            sx::check(env::OUT.is_empty(), "nothing is written on failure");
            sx::reach("refused");
        }
        if !output {
            sx::check(env::OUT.is_empty(), "nothing is written when not asked");
        }
        if quiet {
            sx::check(env::ERR.is_empty(), "quiet");
        }
        if fault == 1 && output && want && !data.is_empty() {
            sx::check(r.is_err(), "a failing output is reported");
        }
    }
}

// ---------------------------------------------------------------- C20

#[no_mangle]
pub extern "C" fn h_c20() {
    match sx::param(0) {
        0 => {
            let n = sx::choose(40, "n");
            let m = sx::choose(40, "m");
            sx::assume((n <= 4 && m <= 4) || n == m || n + 1 == m || m + 1 == n || n == 32 || m == 32);
            let a = sx::vec("a", n);
            let b = sx::vec("b", m);
            let r = fixed_time_eq(&a, &b);
            sx::check(r == sx::eq(&a, &b), "equal iff same length and bytes");
            sx::reach(if r { "equal" } else { "different" });
        }
        1 => {
            let a: [u8; 42] = sx::bytes("a");
            let b = sx::xor(&a, &sx::bytes::<42>("d"));
            let (p, q) = (pk_obj(&a), pk_obj(&b));
            let r = p == q;
            sx::check(r == sx::eq(&a[10..], &b[10..]), "public keys equal iff key bytes equal");
            sx::check((p != q) == !r && (q == p) == r, "consistent");
            sx::reach(if r { "equal" } else { "different" });
        }
        2 => {
            let a: [u8; 158] = sx::bytes("a");
            let b = sx::xor(&a, &sx::bytes::<158>("d"));
            let (p, q) = match (SecretKey::from_bytes(&a), SecretKey::from_bytes(&b)) {
                (Ok(p), Ok(q)) => (p, q),
                _ => {
                    sx::check(false, "158 bytes load");
                    return;
                }
            };
            let r = p == q;
            sx::check(r == sx::eq(&a[62..126], &b[62..126]), "secret keys equal iff key bytes equal");
            sx::check((p != q) == !r && (q == p) == r, "consistent");
            sx::reach(if r { "equal" } else { "different" });
        }
        _ => {
            let n = sx::pick(&[63, 64, 65, 128], "n");
            let a = sx::vec("a", n);
            let b = sx::vec("b", n);
            let r = fixed_time_eq(&a, &b);
            sx::check(r == sx::eq(&a, &b), "equal iff same bytes");
            sx::check(!fixed_time_eq(&a, &b[..n - 1]) && !fixed_time_eq(&a[..n - 1], &b), "different lengths");
            // lengths that are equal modulo 256
            let m = [0, 1, 32, 64][sx::choose(4, "m")];
            let c = cat(&[&a[..m.min(n)], &vec![0; m - m.min(n)]]);
            let d = cat(&[&c, &[0u8; 256]]);
            sx::check(!fixed_time_eq(&c, &d) && !fixed_time_eq(&d, &c), "lengths that differ by 256");
            sx::reach(if r { "equal" } else { "different" });
        }
    }
}

// ---------------------------------------------------------------- C21

static mut SINK_FAULTS: usize = 0;
struct Sink<'a> {
    out: &'a mut Vec<u8>,
    flushed: &'a mut usize,
    writes: usize,
    max: usize,
    fail: usize,
    zero: usize,
    fail_flush: bool,
}
impl<'a> Write for Sink<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let k = self.writes;
        self.writes += 1;
        if k == self.fail {
            unsafe { SINK_FAULTS += 1 };
            return Err(io::Error::from_raw_os_error(28));
        }
        if k == self.zero && !b.is_empty() {
            unsafe { SINK_FAULTS += 1 };
            return Ok(0);
        }
        let n = b.len().min(self.max);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fail_flush {
            unsafe { SINK_FAULTS += 1 };
            return Err(io::Error::from_raw_os_error(28));
        }
        *self.flushed = self.out.len();
        Ok(())
    }
}
/// param 0: 0 unencrypted (bytes), 1 encrypted (boxes); param 1: 0 faults of the public key's
/// writer, 1 of the secret key's
#[no_mangle]
pub extern "C" fn h_c21() {
    env::start();
    let enc = sx::param(0) == 1;
    let (mut o1, mut o2, mut f1, mut f2) = (vec![], vec![], 0, 0);
    let c = match sx::choose(4, "c") {
        0 => None,
        1 => Some(vec![]),
        2 => Some(ascii("comment", 3)),
        _ => Some(long("comment", 1030)),
    };
    let r;
    {
        let mut w = [
            Sink { out: &mut o1, flushed: &mut f1, writes: 0, max: usize::MAX, fail: usize::MAX, zero: usize::MAX, fail_flush: false },
            Sink { out: &mut o2, flushed: &mut f2, writes: 0, max: usize::MAX, fail: usize::MAX, zero: usize::MAX, fail_flush: false },
        ];
        let x = &mut w[sx::param(1)];
        x.max = sx::pick(&[usize::MAX, 1, 7, 40], "max");
        match sx::choose(4, "fault") {
            0 => {}
            1 => x.fail_flush = true,
            2 => x.fail = sx::pick(&[0, 1, 2, 3, 6, 14, 30], "at"),
            _ => x.zero = sx::pick(&[0, 1, 2, 3, 6, 14, 30], "at"),
        }
        let [a, b] = w;
        r = if enc {
            KeyPair::generate_and_write_encrypted_keypair(a, b, c.as_ref().map(|c| text(c)), Some("pw".to_string()))
        } else {
            KeyPair::generate_and_write_unencrypted_keypair(a, b)
        };
    }
    let fault = unsafe { SINK_FAULTS } > 0;
    match r {
        Ok(kp) => {
            sx::check(!fault, "a failing writer is reported");
            let (w1, w2) = if enc {
                let cm = c.unwrap_or(b"rsign encrypted secret key".to_vec());
                let pt = match kp.pk.to_box() {
                    Ok(b) => b.to_bytes(),
                    Err(_) => vec![],
                };
                (pt, cat(&[UC, &cm, b"\n", &b64(&kp.sk.to_bytes()), b"\n"]))
            } else {
                (kp.pk.to_bytes(), kp.sk.to_bytes())
            };
            sx::check(sx::eq(&o1, &w1), "public key written exactly");
            sx::check(sx::eq(&o2, &w2), "secret key written exactly");
            sx::check(f1 == o1.len() && f2 == o2.len(), "both flushed after writing");
            sx::reach("written");
        }
        Err(_) => {
            sx::check(fault, "writes succeed");
            sx::reach("failed");
        }
    }
}

// ---------------------------------------------------------------- C22

/// an entry: printable (the prompt discards control characters), of the given number of bytes,
/// symbolic at both ends and in the middle
fn entry(n: usize, wide: bool) -> String {
    let mut b = vec![b'a'; n];
    if wide {
        // two-byte characters
        let c: [u8; 2] = sx::bytes("wide");
        sx::assume((c[0] >= 0xc3) & (c[0] <= 0xdf));
        sx::assume((c[1] >= 0x80) & (c[1] <= 0xbf));
        let mut i = 0;
        while i + 1 < n {
            b[i] = 0xc3;
            b[i + 1] = 0xa9;
            i += 2;
        }
        b[0] = c[0];
        b[1] = c[1];
    } else if n > 0 {
        for i in [0, n / 2, n - 1] {
            b[i] = ascii("e", 1)[0];
        }
    }
    text(&b).to_string()
}
const LENS: &[usize] = &[0, 1, 2, 3, 1023, 1024, 1025, 1026, 2000, 66000];
/// opening a key with a prompted password
#[no_mangle]
pub extern "C" fn h_c22o() {
    let salt: [u8; 32] = sx::bytes("salt");
    let kid: [u8; 8] = sx::bytes("kid");
    let sk: [u8; 64] = sx::bytes("sk");
    let plain = cat(&[&kid, &sk, &chk(b"Ed", &kid, &sk)]);
    let n = sx::pick(LENS, "n");
    let wide = n > 0 && n % 2 == 0 && sx::choose(2, "wide") == 1;
    let pw = entry(n, wide);
    let stored = sx::xor(&plain, &stream(pw.as_bytes(), &salt, 32768, 1 << 20));
    let t = cat(&[UC, b"c\n", &b64(&cat(&[b"Ed", b"Sc", b"B2", &salt, &32768u64.to_le_bytes(), &(1u64 << 20).to_le_bytes(), &stored])), b"\n"]);
    let fail = sx::choose(2, "fail") == 1;
    unsafe {
        env::ANSWERS.push(if fail { None } else { Some(pw) });
    }
    env::start();
    let r = SecretKey::from_box(text(&t).to_string().into(), None);
    if fail {
        sx::check(r.is_err(), "a failing prompt is an error");
        sx::reach("prompt failed");
    } else if n > 1024 {
        sx::check(r.is_err(), "an entry longer than 1024 bytes is refused");
        sx::reach("too long");
    } else {
        match r {
            Ok(k) => {
                sx::check(sx::eq(&k.to_bytes()[54..158], &plain), "the entry is used unchanged");
                sx::reach("opened");
            }
            Err(_) => sx::check(false, "the entry is used unchanged (opens)"),
        }
    }
}
/// generating a key with a prompted password
#[no_mangle]
pub extern "C" fn h_c22g() {
    let n = sx::pick(LENS, "n");
    let first = entry(n, n == 1026);
    let how = sx::choose(5, "how");
    let second = match how {
        0 => first.clone(),
        1 => entry(n, n == 1026),
        2 => format!("{}a", first),
        3 => String::new(),
        _ if n > 0 && n != 1026 => text(&first.as_bytes()[..n - 1]).to_string(),
        _ => "x".to_string(),
    };
    let eq = sx::eq(first.as_bytes(), second.as_bytes());
    let pf = sx::choose(3, "fail");
    unsafe {
        env::ANSWERS.push(if pf == 1 { None } else { Some(first.clone()) });
        env::ANSWERS.push(if pf == 2 { None } else { Some(second.clone()) });
    }
    env::start();
    let r = KeyPair::generate_encrypted_keypair(None);
    if pf != 0 {
        sx::check(r.is_err(), "a failing prompt is an error");
        sx::reach("prompt failed");
        return;
    }
    if n > 1024 || second.len() > 1024 {
        sx::check(r.is_err(), "an entry longer than 1024 bytes is refused");
        sx::reach("too long");
        return;
    }
    match r {
        Ok(kp) => {
            sx::check(eq, "differing entries are refused");
            let st = kp.sk.to_bytes();
            let u64at = |o: usize| u64::from_le_bytes(st[o..o + 8].try_into().unwrap());
            let plain = sx::xor(&st[54..158], &stream(first.as_bytes(), &st[6..38], u64at(38), u64at(46)));
            sx::check(sx::eq(&plain[..8], kp.pk.keynum()), "the entry protects the key, unchanged");
            sx::reach("generated");
        }
        Err(_) => {
            sx::check(!eq, "equal entries are accepted");
            sx::reach("refused");
        }
    }
}

// ---------------------------------------------------------------- twice

/// A harness after a first run of itself in the same process (with other inputs, and the first of
/// every choice): nothing is carried over. param 0: which harness; the others are its own
#[no_mangle]
pub extern "C" fn h_twice() {
    use crate::api::*;
    let run: fn() = match sx::param(0) {
        0 => || h_c01(),
        1 => || h_c02(),
        2 => || h_c03(),
        3 => || h_c04(),
        4 => || h_c13(),
        5 => || h_c14u(),
        6 => || h_c15g(),
        7 => || h_c15o(),
        8 => || h_c16p(),
        9 => || h_c17(),
        10 => || h_c18(),
        11 => || h_c19(),
        12 => || h_c20(),
        13 => || h_c21(),
        14 => || h_c22g(),
        15 => || h_c22o(),
        16 => || h_c04g(),
        _ => || h_c14(),
    };
    unsafe {
        sx::PARAMS_FROM = 1;
        sx::FIRST = true;
        run();
        sx::FIRST = false;
        env::again();
        SINK_FAULTS = 0;
        run();
    }
}

// ---------------------------------------------------------------- C23

/// what verification shows on standard error: the trusted comment of what it accepts, nothing otherwise
/// param 0: 0 text form, 1 bare form; param 1: legacy
#[no_mangle]
pub extern "C" fn h_c23() {
    let bones = sx::param(0) == 1;
    let legacy = sx::param(1) == 1;
    let k = keys();
    let data = sx::vec("data", 2);
    let m = if legacy { data.clone() } else { digest(&data) };
    let alg: &[u8] = if legacy { b"Ed" } else { b"ED" };
    let s1 = ed25519::signature(&m, &k.sk, None);
    let c = crate::api::comment("tc", &[3, 5, 0, 110, 111, 112, 120, 121, 130, 131, 300, 301, 303]);
    let s2 = ed25519::signature(&cat(&[&s1, &c]), &k.sk, None);
    let bad = sx::choose(5, "bad");
    let d = sx::bytes::<1>("dd")[0];
    let (mut kid, mut sig, mut gsig, mut shown) = (k.kid.to_vec(), s1.to_vec(), s2.to_vec(), c.clone());
    match bad {
        1 => kid[0] ^= d,
        2 => sig[5] ^= d,
        3 => gsig[63] ^= d,
        4 => {
            // (another comment than the signed one)
            sx::assume(d != 0);
            shown.push(b'x');
        }
        _ => {}
    }
    let b: SignatureBox = if bones {
        match SignatureBones::from_bytes(&cat(&[alg, &kid, &sig])) {
            Ok(b) => b.into(),
            Err(_) => return,
        }
    } else {
        match SignatureBox::from_string(text(&sig_text(b"not this one", alg, &kid, &sig, &shown, &gsig))) {
            Ok(b) => b,
            Err(_) => return,
        }
    };
    let want = sx::eq(&kid, &k.kid) & sx::eq(&sig, &s1) & (bones | (sx::eq(&gsig, &s2) & (bad != 4)));
    let allow = sx::choose(2, "allow") == 1;
    let quiet = sx::choose(2, "quiet") == 1;
    let output = sx::choose(2, "output") == 1;
    let key = pk_obj(&pk_bytes(b"Ed", &k.kid, &k.pk));
    env::start();
    let r = verify(&key, &b, Cursor::new(&data), quiet, output, allow);
    sx::check(r.is_ok() == (want & (allow | !legacy)), "accepted iff authentic");
    let e = unsafe { &env::ERR };
    if r.is_err() {
        sx::check(e.is_empty(), "nothing is shown of what is refused");
        sx::reach("refused");
    } else if quiet {
        sx::check(e.is_empty(), "nothing is shown when quiet");
        sx::reach("quiet");
    } else {
        if !bones {
            let l = cat(&[&c, b"\n"]);
            let mut found = false;
            let mut i = 0;
            while i + l.len() <= e.len() {
                found |= sx::eq(&e[i..i + l.len()], &l);
                i += 1;
            }
            sx::check(found, "the trusted comment is shown");
            // and nothing else that comes from the box
            sx::check(!e.windows(12).any(|w| w == b"not this one"), "the untrusted comment is not shown");
        }
        sx::reach("shown");
    }
}

// ---------------------------------------------------------------- files

/// loading a file gives what its text gives; a file that is missing or cannot be read, or is not
/// UTF-8, is an error. param 0: 0 signature box, 1 public key, 2 secret key
#[no_mangle]
pub extern "C" fn h_file() {
    let w = sx::param(0);
    let fault = sx::choose(5, "fault");
    let t = match w {
        0 => {
            let (l1, l2): ([u8; 72], [u8; 64]) = (sx::bytes("l1"), sx::bytes("l2"));
            cat(&[UC, b"u\n", &b64(&cat(&[b"ED", &l1])), b"\n", TC, &ascii("tc", 2), b"\n", &b64(&l2), b"\n"])
        }
        1 => cat(&[UC, b"u\n", &b64(&sx::bytes::<42>("l1")), b"\n"]),
        _ => {
            let (kid, sk): ([u8; 8], [u8; 64]) = (sx::bytes("kid"), sx::bytes("sk"));
            let salt: [u8; 32] = sx::bytes("salt");
            let plain = cat(&[&kid, &sk, &chk(b"Ed", &kid, &sk)]);
            let stored = sx::xor(&plain, &stream(b"p", &salt, 32768, 1 << 20));
            cat(&[UC, b"u\n", &b64(&cat(&[b"EdScB2", &salt, &32768u64.to_le_bytes(), &(1u64 << 20).to_le_bytes(), &stored])), b"\n"])
        }
    };
    // an invalid byte in the comment, a missing line end, more text after the end
    let mut c = t.clone();
    let mut ok = true;
    match sx::choose(3, "edit") {
        0 => {}
        1 => {
            let b: [u8; 1] = sx::bytes("bad");
            sx::assume(b[0] >= 0x80);
            c[UC.len()] = b[0];
            ok = false;
        }
        _ => {
            c.pop();
        }
    }
    ok &= fault == 0 || fault == 4;
    let f = env::faulty_file(&c, fault);
    let good = match w {
        0 => match (SignatureBox::from_file(f), SignatureBox::from_string(text(&t))) {
            (Ok(a), Ok(b)) => {
                sx::check(sx::eq(&a.to_bytes(), &b.to_bytes()), "the file's signature box");
                true
            }
            (a, b) => a.is_ok() & b.is_ok(),
        },
        1 => match (PublicKey::from_file(f), PublicKeyBox::from_string(text(&t)).and_then(|b| b.into_public_key())) {
            (Ok(a), Ok(b)) => {
                sx::check(sx::eq(&a.to_bytes(), &b.to_bytes()), "the file's public key");
                true
            }
            (a, b) => a.is_ok() & b.is_ok(),
        },
        _ => match (SecretKey::from_file(f, Some("p".to_string())), SecretKeyBox::from_string(text(&t)).and_then(|b| b.into_secret_key(Some("p".to_string())))) {
            (Ok(a), Ok(b)) => {
                sx::check(sx::eq(&a.to_bytes(), &b.to_bytes()), "the file's secret key");
                true
            }
            (a, b) => a.is_ok() & b.is_ok(),
        },
    };
    sx::check(good == ok, "a file loads iff it can be read as text");
    if good {
        sx::reach("loaded");
    } else {
        sx::reach("refused");
    }
}
