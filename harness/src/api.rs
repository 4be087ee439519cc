//! API-level harnesses (C01..C05, C13..C22).
use crate::env;
use crate::ideal::b64;
use crate::sx;
use minisign::verif_hooks::{ed25519, fixed_time_eq, Blake2b};
use minisign::*;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

pub const UC: &[u8] = b"untrusted comment: ";
pub const TC: &[u8] = b"trusted comment: ";

pub fn digest(d: &[u8]) -> Vec<u8> {
    let mut h = Blake2b::new(64);
    h.update(d);
    let mut o = vec![0u8; 64];
    h.finalize(&mut o);
    o
}
pub fn chk(alg: &[u8], kid: &[u8], sk: &[u8]) -> Vec<u8> {
    let mut h = Blake2b::new(32);
    h.update(&cat(&[alg, kid, sk]));
    let mut o = vec![0u8; 32];
    h.finalize(&mut o);
    o
}
pub fn cat(p: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::new();
    for x in p {
        v.extend_from_slice(x);
    }
    v
}
pub struct Keys {
    pub seed: [u8; 32],
    pub sk: [u8; 64],
    pub pk: [u8; 32],
    pub kid: [u8; 8],
}
pub fn keys() -> Keys {
    let seed: [u8; 32] = sx::bytes("seed");
    let (sk, pk) = ed25519::keypair(&seed);
    Keys { seed, sk, pk, kid: sx::bytes("kid") }
}
pub fn pk_bytes(alg: &[u8], kid: &[u8], pk: &[u8]) -> Vec<u8> {
    cat(&[alg, kid, pk])
}
pub fn sk_obj(k: &Keys) -> SecretKey {
    let b = cat(&[b"Ed", &[0, 0], b"B2", &[0; 32], &[0; 8], &[0; 8], &k.kid, &k.sk, &sx::bytes::<32>("chk")]);
    match SecretKey::from_bytes(&b) {
        Ok(s) => s,
        Err(_) => {
            sx::check(false, "SecretKey::from_bytes accepts 158 bytes");
            sx::kill()
        }
    }
}
pub fn pk_obj(b: &[u8]) -> PublicKey {
    match PublicKey::from_bytes(b) {
        Ok(p) => p,
        Err(_) => {
            sx::check(false, "PublicKey::from_bytes accepts 42 bytes");
            sx::kill()
        }
    }
}
/// printable ASCII
pub fn ascii(nm: &str, n: usize) -> Vec<u8> {
    let b = sx::vec(nm, n);
    for &x in b.iter() {
        sx::assume(x >= 0x20);
        sx::assume(x < 0x7f);
    }
    b
}
/// n characters, symbolic (printable ASCII) at the start, in the middle and at the end
pub fn long(nm: &str, n: usize) -> Vec<u8> {
    let mut b = vec![b'x'; n];
    for i in [0, n / 2, n - 1] {
        b[i] = ascii(nm, 1)[0];
    }
    b
}
/// a single-line comment: ASCII (also tabs and other controls), or with multi-byte characters
pub fn comment(nm: &str, shapes: &[usize]) -> Vec<u8> {
    let s = shapes[sx::choose(shapes.len(), "shape")];
    if s < 100 {
        let b = sx::vec(nm, s);
        for &x in b.iter() {
            sx::assume(x < 0x80);
            sx::assume(x != 10);
            sx::assume(x != 13);
        }
        return b;
    }
    if s >= 310 {
        // starts like one of the prefixes
        return cat(&[if s == 310 { UC } else { TC }, &ascii("a", 1)]);
    }
    if s >= 300 {
        return long(nm, [65, 257, 1030, 8200][s - 300]);
    }
    let mut o = Vec::new();
    let k = s % 10;
    let one = |o: &mut Vec<u8>| {
        if s >= 130 {
            // four bytes (U+40000 .. U+FFFFF)
            let c: [u8; 4] = sx::bytes("c4");
            sx::assume(c[0] >= 0xf1);
            sx::assume(c[0] <= 0xf3);
            for &x in c[1..].iter() {
                sx::assume(x >= 0x80);
                sx::assume(x <= 0xbf);
            }
            o.extend_from_slice(&c);
        } else if s >= 120 {
            // three bytes (U+1000 .. U+CFFF), includes the Unicode blanks
            let c: [u8; 3] = sx::bytes("c3");
            sx::assume(c[0] >= 0xe1);
            sx::assume(c[0] <= 0xec);
            sx::assume(c[1] >= 0x80);
            sx::assume(c[1] <= 0xbf);
            sx::assume(c[2] >= 0x80);
            sx::assume(c[2] <= 0xbf);
            o.extend_from_slice(&c);
        } else {
            let c: [u8; 2] = sx::bytes("c2");
            sx::assume(c[0] >= 0xc2);
            sx::assume(c[0] <= 0xdf);
            sx::assume(c[1] >= 0x80);
            sx::assume(c[1] <= 0xbf);
            o.extend_from_slice(&c);
        }
    };
    match k {
        0 => one(&mut o),
        1 => {
            o.push(ascii("a", 1)[0]);
            one(&mut o);
        }
        _ => {
            one(&mut o);
            o.push(ascii("a", 1)[0]);
        }
    }
    o
}
/// the same text with CR LF line ends
pub fn crlf(t: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(t.len() + 8);
    for &x in t {
        if sx::known(x as u64) && x == b'\n' {
            o.push(b'\r');
        }
        o.push(x);
    }
    o
}
pub fn text(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}
pub fn sig_text(uc: &[u8], alg: &[u8], kid: &[u8], sig: &[u8], tc: &[u8], gsig: &[u8]) -> Vec<u8> {
    cat(&[UC, uc, b"\n", &b64(&cat(&[alg, kid, sig])), b"\n", TC, tc, b"\n", &b64(gsig), b"\n"])
}

// ---------------------------------------------------------------- C01, C02

/// C01: authentic parts xor arbitrary differences; accepted iff everything matches.
/// param 0: 0 text form, 1 bare form; param 1: legacy; param 2: one size only
#[no_mangle]
pub extern "C" fn h_c01() {
    let one = sx::param(2) == 1;
    let bones = sx::param(0) == 1;
    let legacy = sx::param(1) == 1;
    let k = keys();
    let allow = sx::choose(2, "allow") == 1;
    let n = if one { 2 } else { sx::pick(&[2, 0, 64, 130], "n") };
    let data = sx::vec("data", n);
    let signed = sx::xor(&data, &sx::vec("ddata", n));
    let msg = |d: &[u8]| if legacy { d.to_vec() } else { digest(d) };
    let alg: &[u8] = if legacy { b"Ed" } else { b"ED" };
    let s1 = ed25519::signature(&msg(&signed), &k.sk, None);
    let sig = sx::xor(&s1, &sx::bytes::<64>("dsig"));
    let kid = sx::xor(&k.kid, &sx::bytes::<8>("dkid"));
    let pk = sx::xor(&k.pk, &sx::bytes::<32>("dpk"));
    let nc = if n > 2 || one { 3 } else { sx::pick(&[3, 0, 70, 1030], "nc") };
    let c = if nc > 3 { long("comment", nc) } else { ascii("comment", nc) };
    let sc = sx::xor(&s1, &sx::bytes::<64>("dsc"));
    let mut dc = vec![0u8; nc];
    for i in 0..nc {
        if i < 3 || i + 3 > nc || i % 64 == 0 || i % 64 == 63 {
            dc[i] = sx::bytes::<1>("dc")[0];
        }
    }
    let mut m2 = cat(&[&sc, &sx::xor(&c, &dc)]);
    match if one { 0 } else { sx::choose(3, "mc") } {
        0 => {}
        1 => m2.push(sx::bytes::<1>("extra")[0]),
        _ => {
            m2.pop();
        }
    }
    let s2 = ed25519::signature(&m2, &k.sk, None);
    let gsig = sx::xor(&s2, &sx::bytes::<64>("dgsig"));
    let b: SignatureBox = if bones {
        match SignatureBones::from_bytes(&cat(&[alg, &kid, &sig])) {
            Ok(b) => b.into(),
            Err(_) => {
                sx::check(false, "bare signature loads");
                return;
            }
        }
    } else {
        let t = sig_text(b"u", alg, &kid, &sig, &c, &gsig);
        match SignatureBox::from_string(text(&t)) {
            Ok(b) => b,
            Err(_) => {
                // only blanks around a comment may be touched here (that is C04's business)
                sx::check(false, "well-formed signature box loads");
                return;
            }
        }
    };
    let key = pk_obj(&pk_bytes(b"Ed", &k.kid, &pk));
    let mut want = sx::eq(&kid, &k.kid) & (allow | !legacy) & ed25519::verify(&msg(&data), &pk, &sig);
    if !bones {
        want &= ed25519::verify(&cat(&[&sig, &c]), &pk, &gsig);
    }
    let r = verify(&key, &b, Cursor::new(&data), true, false, allow);
    sx::check(r.is_ok() == want, "accepted iff key id, main and global signature match");
    if r.is_ok() {
        sx::reach("accepted");
    } else {
        sx::reach("refused");
    }
}

/// C01: an authentic box whose signature lines have bytes appended or missing at the end is not accepted.
/// param 0: 0 the signature line, 1 the global signature line
#[no_mangle]
pub extern "C" fn h_c01z() {
    let k = keys();
    let data = sx::vec("data", 1);
    let legacy = sx::choose(2, "legacy") == 1;
    let c = ascii("comment", 2);
    let msg = if legacy { data.clone() } else { digest(&data) };
    let s1 = ed25519::signature(&msg, &k.sk, None);
    let mut l1 = cat(&[if legacy { b"Ed" } else { b"ED" }, &k.kid, &s1]);
    let mut l2 = ed25519::signature(&cat(&[&s1, &c]), &k.sk, None).to_vec();
    let g = sx::param(0) == 1;
    let n = if g { sx::pick(&[64, 0, 1, 2, 31, 32, 33, 48, 62, 63, 65, 66, 67, 96, 128], "n") } else { sx::pick(&[74, 0, 1, 2, 9, 10, 11, 72, 73, 75, 76, 77, 84, 148], "n") };
    let l = if g { &mut l2 } else { &mut l1 };
    let whole = l.len();
    l.truncate(n);
    while l.len() < n {
        l.push(sx::bytes::<1>("extra")[0]);
    }
    let t = cat(&[UC, b"u\n", &b64(&l1), b"\n", TC, &c, b"\n", &b64(&l2), b"\n"]);
    let key = pk_obj(&pk_bytes(b"Ed", &k.kid, &k.pk));
    let ok = match SignatureBox::from_string(text(&t)) {
        Ok(b) => verify(&key, &b, Cursor::new(&data), true, false, true).is_ok(),
        Err(_) => false,
    };
    sx::check(ok == (n == whole), "accepted iff the signature lines have their exact sizes");
    if ok {
        sx::reach("accepted");
    } else {
        sx::reach("refused");
    }
}

/// C02: arbitrary algorithm bytes, authentic raw or prehashed signature
#[no_mangle]
pub extern "C" fn h_c02() {
    let bones = sx::param(0) == 1;
    let k = keys();
    let alg: [u8; 2] = sx::bytes("alg");
    let allow = sx::choose(2, "allow") == 1;
    let data = sx::vec("data", sx::pick(&[1, 0, 64], "n"));
    let raw = sx::choose(2, "raw") == 1;
    if data.len() == 64 {
        // (data that is its own digest would be acceptable either way)
        sx::assume(!sx::eq(&data, &digest(&data)));
    }
    let s1 = if raw { ed25519::signature(&data, &k.sk, None) } else { ed25519::signature(&digest(&data), &k.sk, None) };
    let s2 = ed25519::signature(&cat(&[&s1, b"t"]), &k.sk, None);
    let known = sx::eq(&alg, b"Ed") | sx::eq(&alg, b"ED");
    let l: std::result::Result<SignatureBox, ()> = if bones {
        SignatureBones::from_bytes(&cat(&[&alg, &k.kid, &s1])).map(|b| {
            sx::check(b.is_prehashed() == sx::eq(&alg, b"ED"), "bare: prehashed iff algorithm is ED");
            b.into()
        }).map_err(|_| ())
    } else {
        SignatureBox::from_string(text(&sig_text(b"u", &alg, &k.kid, &s1, b"t", &s2))).map_err(|_| ())
    };
    sx::check(l.is_ok() == known, "loads iff the algorithm is Ed or ED");
    let b = match l {
        Ok(b) => b,
        Err(_) => {
            sx::reach("unknown algorithm");
            return;
        }
    };
    sx::check(b.is_prehashed() == sx::eq(&alg, b"ED"), "prehashed iff algorithm is ED");
    let key = pk_obj(&pk_bytes(b"Ed", &k.kid, &k.pk));
    let msg = if alg[1] == b'D' { digest(&data) } else { data.clone() };
    let want = (allow | (alg[1] == b'D')) & ed25519::verify(&msg, &k.pk, &s1);
    let r = verify(&key, &b, Cursor::new(&data), true, false, allow);
    sx::check(r.is_ok() == want, "mode decided by the algorithm; legacy only when allowed");
    if r.is_ok() {
        sx::reach(if raw { "accepted raw" } else { "accepted prehashed" });
    } else {
        sx::reach("refused");
    }
}
/// C02: the digest of the data presented as the data itself (and back) is not accepted
#[no_mangle]
pub extern "C" fn h_c02x() {
    let k = keys();
    let data = sx::vec("data", 3);
    let d = digest(&data);
    let pre = sx::choose(2, "pre") == 1;
    let s1 = ed25519::signature(&d, &k.sk, None);
    let b = match SignatureBones::from_bytes(&cat(&[if pre { b"ED" } else { b"Ed" }, &k.kid, &s1])) {
        Ok(b) => b.into(),
        Err(_) => return,
    };
    let key = pk_obj(&pk_bytes(b"Ed", &k.kid, &k.pk));
    let asdata = sx::choose(2, "as") == 1;
    let allow = sx::choose(2, "allow") == 1;
    let r = verify(&key, &b, Cursor::new(if asdata { &d } else { &data }), true, false, allow);
    let want = (pre & !asdata) | (!pre & asdata & allow);
    sx::check(r.is_ok() == want, "digest and data are not interchangeable");
    if r.is_ok() {
        sx::reach("accepted");
    } else {
        sx::reach("refused");
    }
}
/// C02: new signatures are prehashed
#[no_mangle]
pub extern "C" fn h_c02s() {
    env::start();
    let k = keys();
    let sk = sk_obj(&k);
    let data = sx::vec("data", sx::pick(&[1, 0], "n"));
    match sign(None, &sk, Cursor::new(&data), Some("t"), Some("u")) {
        Ok(b) => {
            sx::check(b.is_prehashed(), "sign() makes prehashed signatures");
            let t = b.to_string();
            let want = b64(&cat(&[b"ED", &k.kid, &[0; 2]]));
            let l = t.lines().nth(1).unwrap_or("").as_bytes();
            sx::check(l.len() == 100 && sx::eq(&l[..13], &want[..13]), "algorithm bytes are ED");
            let bones: SignatureBones = b.into();
            sx::check(bones.is_prehashed(), "bare form is prehashed");
            sx::check(sx::eq(&bones.to_bytes()[..2], b"ED"), "bare algorithm bytes are ED");
            sx::reach("signed");
        }
        Err(_) => sx::check(false, "signing succeeds"),
    }
}

// ---------------------------------------------------------------- C03

const SHAPES: &[usize] = &[0, 1, 2, 3, 110, 111, 112, 120, 121, 122, 130, 131, 132, 300, 301, 302, 303, 310, 311];
/// param 0: what is varied (0 trusted comment, 1 untrusted comment, 2 data and defaults)
#[no_mangle]
pub extern "C" fn h_c03() {
    env::start();
    let k = keys();
    let sk = sk_obj(&k);
    let pk = pk_obj(&pk_bytes(b"Ed", &k.kid, &k.pk));
    let mode = sx::param(0);
    let tc = match mode {
        0 => Some(comment("tc", SHAPES)),
        1 => Some(b"t c".to_vec()),
        _ => {
            if sx::choose(2, "tcopt") == 1 {
                Some(vec![])
            } else {
                None
            }
        }
    };
    let uc = match mode {
        1 => Some(comment("uc", SHAPES)),
        0 => Some(b"u c".to_vec()),
        _ => {
            if sx::choose(2, "ucopt") == 1 {
                Some(vec![])
            } else {
                None
            }
        }
    };
    let n = if mode == 2 { sx::pick(&[0, 1, 2, 64, 65, 200], "n") } else { 1 };
    let data = sx::vec("data", n);
    let with = sx::choose(2, "with") == 1;
    let r = sign(
        if with { Some(&pk) } else { None },
        &sk,
        Cursor::new(&data),
        tc.as_ref().map(|x| text(x)),
        uc.as_ref().map(|x| text(x)),
    );
    let b = match r {
        Ok(b) => b,
        Err(_) => {
            sx::check(false, "signing succeeds");
            return;
        }
    };
    let tc = tc.unwrap_or_else(|| format!("timestamp:{}", unsafe { env::CLOCK }).into_bytes());
    let uc = uc.unwrap_or_else(|| b"signature from rsign secret key".to_vec());
    sx::check(verify(&pk, &b, Cursor::new(&data), true, false, false).is_ok(), "signature verifies");
    let same = |b: &SignatureBox, w: &str| {
        sx::check(sx::eq(b.keynum(), &k.kid), "signature carries the key id");
        match b.trusted_comment() {
            Ok(c) => sx::check(sx::eq(c.as_bytes(), &tc), w),
            Err(_) => sx::check(false, "trusted comment readable"),
        }
        match b.untrusted_comment() {
            Ok(c) => sx::check(sx::eq(c.as_bytes(), &uc), "untrusted comment as requested"),
            Err(_) => sx::check(false, "untrusted comment readable"),
        }
    };
    same(&b, "trusted comment as requested");
    let t = b.to_string();
    match SignatureBox::from_string(&t) {
        Ok(b2) => {
            same(&b2, "trusted comment as requested, after text");
            sx::check(verify(&pk, &b2, Cursor::new(&data), true, false, false).is_ok(), "signature verifies after text");
        }
        Err(_) => sx::check(false, "text form parses"),
    }
    sx::check(sx::eq(&b.to_bytes(), t.as_bytes()), "to_bytes is the text");
    let bones: SignatureBones = b.into();
    let bb = bones.to_bytes();
    sx::check(bb.len() == SignatureBones::BYTES, "bare size");
    match SignatureBones::from_bytes(&bb) {
        Ok(b3) => {
            let b4: SignatureBox = b3.into();
            sx::check(sx::eq(b4.keynum(), &k.kid), "bare signature carries the key id");
            sx::check(verify(&pk, &b4, Cursor::new(&data), true, false, false).is_ok(), "signature verifies after bare form");
            sx::reach("bare");
        }
        Err(_) => sx::check(false, "bare form parses"),
    }
}
/// a public key of another pair is refused by sign()
#[no_mangle]
pub extern "C" fn h_c03w() {
    env::start();
    let k = keys();
    let sk = sk_obj(&k);
    let seed2 = sx::xor(&k.seed, &sx::bytes::<32>("dseed"));
    let (_, pk2) = ed25519::keypair(&seed2);
    let kid2 = sx::xor(&k.kid, &sx::bytes::<8>("dkid"));
    let right = sx::eq(&pk2, &k.pk);
    let pk = pk_obj(&pk_bytes(b"Ed", &kid2, &pk2));
    let data = sx::vec("data", 2);
    let r = sign(Some(&pk), &sk, Cursor::new(&data), Some("t"), None);
    if right {
        // (key ids may differ; the statement only speaks about the key)
        sx::reach("right");
        if sx::eq(&kid2, &k.kid) {
            sx::check(r.is_ok(), "signing succeeds with the right public key");
        }
    } else {
        sx::check(r.is_err(), "signing fails with another public key");
        sx::reach("wrong");
    }
}

// ---------------------------------------------------------------- C04

/// parse a text built from arbitrary parts; everything comes back, and printing gives the text
#[no_mangle]
pub extern "C" fn h_c04() {
    let mode = sx::param(0);
    let alg: &[u8] = if sx::choose(2, "pre") == 1 { b"ED" } else { b"Ed" };
    let kid: [u8; 8] = sx::bytes("kid");
    let sig: [u8; 64] = sx::bytes("sig");
    let gsig: [u8; 64] = sx::bytes("gsig");
    let tc = if mode == 0 { comment("tc", SHAPES) } else { b"t".to_vec() };
    let uc = if mode == 1 { comment("uc", SHAPES) } else { b"u".to_vec() };
    let t = sig_text(&uc, alg, &kid, &sig, &tc, &gsig);
    match SignatureBox::from_string(text(&t)) {
        Ok(b) => {
            sx::check(sx::eq(b.keynum(), &kid), "key id");
            sx::check(b.is_prehashed() == (alg[1] == b'D'), "algorithm");
            match b.trusted_comment() {
                Ok(c) => sx::check(sx::eq(c.as_bytes(), &tc), "trusted comment byte for byte"),
                Err(_) => sx::check(false, "trusted comment readable"),
            }
            match b.untrusted_comment() {
                Ok(c) => sx::check(sx::eq(c.as_bytes(), &uc), "untrusted comment byte for byte"),
                Err(_) => sx::check(false, "untrusted comment readable"),
            }
            sx::check(sx::eq(b.to_string().as_bytes(), &t), "printing gives the same text");
            sx::check(sx::eq(&b.to_bytes(), &t), "to_bytes gives the same text");
            let c: String = b.clone().into();
            sx::check(sx::eq(c.as_bytes(), &t), "String::from gives the same text");
            sx::check(sx::eq(b.clone().into_string().as_bytes(), &t), "into_string gives the same text");
            let bones: SignatureBones = b.into();
            sx::check(sx::eq(&bones.to_bytes(), &cat(&[alg, &kid, &sig])), "signature bytes");
            match SignatureBox::from_string(text(&crlf(&t))) {
                Ok(b) => sx::check(sx::eq(b.to_string().as_bytes(), &t), "the same with CR LF line ends"),
                Err(_) => sx::check(false, "CR LF line ends are understood"),
            }
            let (a, z): (&[u8], &[u8]) = [(&b""[..], &b" "[..]), (b" \t", b"\t "), (b"  ", b"")][sx::choose(3, "blanks")];
            let mut t2 = vec![];
            for (i, l) in t[..t.len() - 1].split(|&x| x == 10).enumerate() {
                t2.extend_from_slice(&if i % 2 == 1 { cat(&[a, l, z, b"\n"]) } else { cat(&[l, b"\n"]) });
            }
            match SignatureBox::from_string(text(&t2)) {
                Ok(b) => sx::check(sx::eq(b.to_string().as_bytes(), &t), "the same with blanks around the encoded lines"),
                Err(_) => sx::check(false, "blanks around the encoded lines are ignored"),
            }
            sx::reach("parsed");
        }
        Err(_) => sx::check(false, "well-formed text parses"),
    }
}
/// the comment reported is the comment the global signature is checked against
#[no_mangle]
pub extern "C" fn h_c04g() {
    let k = keys();
    let data = sx::vec("data", 1);
    let s1 = ed25519::signature(&digest(&data), &k.sk, None);
    let tc = comment("tc", SHAPES);
    let signed = comment("sc", &[0, 1, 2, 3]);
    let gsig = ed25519::signature(&cat(&[&s1, &signed]), &k.sk, None);
    let t = sig_text(b"u", b"ED", &k.kid, &s1, &tc, &gsig);
    let pk = pk_obj(&pk_bytes(b"Ed", &k.kid, &k.pk));
    if let Ok(b) = SignatureBox::from_string(text(&t)) {
        if verify(&pk, &b, Cursor::new(&data), true, false, false).is_ok() {
            match b.trusted_comment() {
                Ok(c) => sx::check(sx::eq(c.as_bytes(), &signed), "reported comment is the authenticated one"),
                Err(_) => sx::check(false, "trusted comment readable"),
            }
            sx::reach("accepted");
        } else {
            sx::reach("refused");
        }
    }
}
/// malformed texts are refused
#[no_mangle]
pub extern "C" fn h_c04m() {
    let kid: [u8; 8] = sx::bytes("kid");
    let sig: [u8; 64] = sx::bytes("sig");
    let gsig: [u8; 64] = sx::bytes("gsig");
    let body = cat(&[b"ED", &kid, &sig]);
    let good_sig = b64(&body);
    let good_g = b64(&gsig);
    let mut want = true;
    let mut l: Vec<Vec<u8>> = vec![cat(&[UC, b"u"]), good_sig, cat(&[TC, b"t"]), good_g];
    let line = |nm: &str, n: usize| {
        let b = sx::vec(nm, n);
        for &x in b.iter() {
            sx::assume(x != 10);
            sx::assume(x != 13);
            sx::assume(x < 0x80);
        }
        b
    };
    match sx::param(0) {
        0 => {
            // comment line with an arbitrary start
            let p = line("p", UC.len());
            want = sx::eq(&p, UC);
            l[0] = cat(&[&p, b"u"]);
        }
        1 => {
            let p = line("p", TC.len());
            want = sx::eq(&p, TC);
            l[2] = cat(&[&p, b"t"]);
        }
        2 => {
            // truncated prefixes
            let n = sx::choose(UC.len() + 1, "n");
            want = n == UC.len();
            l[0] = UC[..n].to_vec();
        }
        3 => {
            let n = sx::choose(TC.len() + 1, "n");
            want = n == TC.len();
            l[2] = TC[..n].to_vec();
        }
        4 => {
            // signature of a wrong size
            let n = sx::choose(80, "n");
            let mut b = body.clone();
            b.truncate(n);
            while b.len() < n {
                b.push(sx::bytes::<1>("x")[0]);
            }
            want = n == 74;
            l[1] = b64(&b);
        }
        5 => {
            let n = sx::choose(68, "n");
            let mut b = gsig.to_vec();
            b.truncate(n);
            while b.len() < n {
                b.push(sx::bytes::<1>("x")[0]);
            }
            want = n == 64;
            l[3] = b64(&b);
        }
        6 | 7 => {
            // arbitrary characters in a window of the encoded signature / global signature
            let i = if sx::param(0) == 6 { 1 } else { 3 };
            let n = l[i].len();
            let at = [0, n / 2, n - 4][sx::choose(3, "at")];
            let w = line("w", 4);
            l[i][at..at + 4].copy_from_slice(&w);
            // oracle: alphabet, padding and zero trailing bits; the algorithm must stay "ED"
            let v: Vec<u8> = w.iter().map(|&x| sx::map(&crate::ideal::B64_DEC, x)).collect();
            let last = at == n - 4;
            if last {
                let pads = if i == 1 { 1 } else { 2 };
                want = (v[0] < 64) & (v[1] < 64);
                if pads == 1 {
                    want = want & (v[2] < 64) & (w[3] == b'=') & (v[2] & 3 == 0);
                } else {
                    want = want & (w[2] == b'=') & (w[3] == b'=') & (v[1] & 15 == 0);
                }
            } else {
                want = (v[0] < 64) & (v[1] < 64) & (v[2] < 64) & (v[3] < 64);
                if i == 1 && at == 0 {
                    want = want & (v[0] << 2 | (v[1] >> 4) == b'E');
                    let b1 = v[1] << 4 | (v[2] >> 2);
                    want = want & ((b1 == b'D') | (b1 == b'd'));
                }
            }
        }
        _ => {
            // missing lines
            let n = sx::choose(5, "n");
            want = n == 4;
            l.truncate(n);
        }
    }
    let mut t = Vec::new();
    for (i, x) in l.iter().enumerate() {
        if i > 0 {
            t.push(b'\n');
        }
        t.extend_from_slice(x);
    }
    let r = SignatureBox::from_string(text(&t));
    sx::check(r.is_ok() == want, "text parses iff it is well-formed");
    if r.is_ok() {
        sx::reach("parsed");
    } else {
        sx::reach("refused");
    }
}
/// the base64 code of the dependency, without stand-ins: 1..3 bytes / 4 arbitrary characters
#[no_mangle]
pub extern "C" fn h_b64() {
    use ct_codecs::{Base64, Decoder, Encoder};
    let n = sx::choose(4, "n");
    let d = sx::vec("d", n);
    let e = Base64::encode_to_string(&d).unwrap();
    sx::check(sx::eq(e.as_bytes(), &b64(&d)), "base64 encoder");
    match Base64::decode_to_vec(&e, None) {
        Ok(x) => sx::check(sx::eq(&x, &d), "base64 round trip"),
        Err(_) => sx::check(false, "base64 round trip"),
    }
    let c: [u8; 4] = sx::bytes("c");
    let v: Vec<u8> = c.iter().map(|&x| sx::map(&crate::ideal::B64_DEC, x)).collect();
    let a = (v[0] < 64) & (v[1] < 64);
    let three = a & (v[2] < 64) & (v[3] < 64);
    let two = a & (v[2] < 64) & (v[2] & 3 == 0) & (c[3] == b'=');
    let one = a & (v[1] & 15 == 0) & (c[2] == b'=') & (c[3] == b'=');
    let o = [v[0] << 2 | v[1] >> 4, v[1] << 4 | v[2] >> 2, v[2] << 6 | v[3]];
    match Base64::decode_to_vec(&c, None) {
        Ok(x) => {
            sx::check(three | two | one, "base64 decoder accepts only valid text");
            let want = if three { 3 } else if two { 2 } else { 1 };
            sx::check(x.len() == want && sx::eq(&x, &o[..want]), "base64 decoder value");
            sx::reach("decoded");
        }
        Err(_) => {
            sx::check(!(three | two | one), "base64 decoder accepts valid text");
            sx::reach("refused");
        }
    }
}
