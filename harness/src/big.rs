//! Plain reference arithmetic: numbers below 2^256, the field modulo 2^255-19, scalars modulo
//! the group order, and the twisted Edwards curve, straight from their definitions. Used
//! natively when a counterexample is replayed.
pub type N = [u64; 4];
pub const P: N = [0xffff_ffff_ffff_ffed, !0, !0, 0x7fff_ffff_ffff_ffff];
pub const L: N = [0x5812_631a_5cf5_d3ed, 0x14de_f9de_a2f7_9cd6, 0, 0x1000_0000_0000_0000];
pub fn small(x: u64) -> N {
    [x, 0, 0, 0]
}
pub fn from_le(b: &[u8]) -> N {
    let mut n = [0u64; 4];
    for i in 0..32 {
        n[i / 8] |= (b[i] as u64) << (8 * (i % 8));
    }
    n
}
pub fn to_le(n: &N) -> [u8; 32] {
    let mut b = [0u8; 32];
    for i in 0..32 {
        b[i] = (n[i / 8] >> (8 * (i % 8))) as u8;
    }
    b
}
pub fn less(a: &[u64], b: &[u64]) -> bool {
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
    }
    false
}
/// little-endian words modulo m, bit by bit
pub fn rem(w: &[u64], m: &N) -> N {
    let mut r = [0u64; 5];
    let mm = [m[0], m[1], m[2], m[3], 0];
    for i in (0..64 * w.len()).rev() {
        let mut c = w[i / 64] >> (i % 64) & 1;
        for x in r.iter_mut() {
            let t = *x >> 63;
            *x = *x << 1 | c;
            c = t;
        }
        if !less(&r, &mm) {
            let mut b = 0;
            for k in 0..5 {
                let (x, y) = r[k].overflowing_sub(mm[k]);
                let (x, z) = x.overflowing_sub(b);
                r[k] = x;
                b = (y | z) as u64;
            }
        }
    }
    [r[0], r[1], r[2], r[3]]
}
pub fn wide(a: &N, b: &N) -> [u64; 9] {
    let mut o = [0u64; 9];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            c += a[i] as u128 * b[j] as u128 + o[i + j] as u128;
            o[i + j] = c as u64;
            c >>= 64;
        }
        o[i + 4] = c as u64;
    }
    o
}
pub fn plus(o: &mut [u64], a: &N) {
    let mut c = 0u128;
    for i in 0..o.len() {
        c += o[i] as u128 + if i < 4 { a[i] as u128 } else { 0 };
        o[i] = c as u64;
        c >>= 64;
    }
}
pub fn add(a: &N, b: &N, m: &N) -> N {
    let mut o = [a[0], a[1], a[2], a[3], 0];
    plus(&mut o, b);
    rem(&o, m)
}
pub fn neg(a: &N, m: &N) -> N {
    let r = rem(a, m);
    let mut o = [0; 4];
    let mut b = 0;
    for k in 0..4 {
        let (x, y) = m[k].overflowing_sub(r[k]);
        let (x, z) = x.overflowing_sub(b);
        o[k] = x;
        b = (y | z) as u64;
    }
    rem(&o, m)
}
pub fn sub(a: &N, b: &N, m: &N) -> N {
    add(a, &neg(b, m), m)
}
pub fn mul(a: &N, b: &N, m: &N) -> N {
    let w = wide(a, b);
    if *m != P {
        return rem(&w, m);
    }
    // 2^256 = 38 modulo p, a few times
    let mut o = [w[0], w[1], w[2], w[3], 0];
    let mut hi = [w[4], w[5], w[6], w[7]];
    for _ in 0..3 {
        let t = wide(&hi, &small(38));
        let mut c = 0u128;
        for i in 0..5 {
            c += o[i] as u128 + t[i] as u128;
            o[i] = c as u64;
            c >>= 64;
        }
        hi = [o[4], 0, 0, 0];
        o[4] = 0;
    }
    let mut r = [o[0], o[1], o[2], o[3]];
    while !less(&r, &P) {
        let mut b = 0;
        for k in 0..4 {
            let (x, y) = r[k].overflowing_sub(P[k]);
            let (x, z) = x.overflowing_sub(b);
            r[k] = x;
            b = (y | z) as u64;
        }
    }
    r
}
pub fn pow(a: &N, e: &N, m: &N) -> N {
    let mut r = small(1);
    for i in (0..256).rev() {
        r = mul(&r, &r, m);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mul(&r, a, m);
        }
    }
    r
}
pub fn inv(a: &N) -> N {
    pow(a, &[P[0] - 2, P[1], P[2], P[3]], &P)
}
pub fn d() -> N {
    mul(&neg(&small(121665), &P), &inv(&small(121666)), &P)
}
pub fn sqrtm1() -> N {
    // 2^((p-1)/4)
    pow(&small(2), &[(P[0] - 1) >> 2 | P[1] << 62, P[1] >> 2 | P[2] << 62, P[2] >> 2 | P[3] << 62, P[3] >> 2], &P)
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Pt {
    pub x: N,
    pub y: N,
    pub z: N,
}
pub fn zero() -> Pt {
    Pt { x: small(0), y: small(1), z: small(1) }
}
/// the complete addition law of the curve -x^2 + y^2 = 1 + d x^2 y^2, projectively
pub fn padd(a: &Pt, b: &Pt, d: &N) -> Pt {
    let m = |x: &N, y: &N| mul(x, y, &P);
    let zz = m(&a.z, &b.z);
    let z2 = m(&zz, &zz);
    let (xx, yy) = (m(&a.x, &b.x), m(&a.y, &b.y));
    let e = m(d, &m(&xx, &yy));
    let (f, g) = (sub(&z2, &e, &P), add(&z2, &e, &P));
    let c = add(&m(&a.x, &b.y), &m(&a.y, &b.x), &P);
    Pt { x: m(&m(&zz, &f), &c), y: m(&m(&zz, &g), &add(&yy, &xx, &P)), z: m(&f, &g) }
}
pub fn pneg(a: &Pt) -> Pt {
    Pt { x: neg(&a.x, &P), y: a.y, z: a.z }
}
pub fn pmul(k: &N, a: &Pt, d: &N) -> Pt {
    let mut r = zero();
    for i in (0..256).rev() {
        r = padd(&r, &r, d);
        if k[i / 64] >> (i % 64) & 1 == 1 {
            r = padd(&r, a, d);
        }
    }
    r
}
pub fn same_point(a: &Pt, b: &Pt) -> bool {
    mul(&a.x, &b.z, &P) == mul(&b.x, &a.z, &P) && mul(&a.y, &b.z, &P) == mul(&b.y, &a.z, &P)
}
pub fn encode(a: &Pt) -> [u8; 32] {
    let i = inv(&a.z);
    let mut b = to_le(&mul(&a.y, &i, &P));
    b[31] |= (mul(&a.x, &i, &P)[0] as u8 & 1) << 7;
    b
}
/// y may be any 255-bit number; x = 0 with the sign bit set is taken
pub fn decode(b: &[u8]) -> Option<Pt> {
    let mut n = from_le(b);
    let sign = n[3] >> 63;
    n[3] &= !0 >> 1;
    let y = rem(&n, &P);
    let y2 = mul(&y, &y, &P);
    let u = sub(&y2, &small(1), &P);
    let v = add(&mul(&d(), &y2, &P), &small(1), &P);
    let x2 = mul(&u, &inv(&v), &P);
    // x2^((p+3)/8), (p+3)/8 = 2^252 - 2
    let mut x = pow(&x2, &[0xffff_ffff_ffff_fffe, !0, !0, 0x0fff_ffff_ffff_ffff], &P);
    if mul(&x, &x, &P) != x2 {
        x = mul(&x, &sqrtm1(), &P);
    }
    if mul(&x, &x, &P) != x2 {
        return None;
    }
    if x[0] & 1 != sign {
        x = neg(&x, &P);
    }
    Some(Pt { x, y, z: small(1) })
}
pub fn base() -> Pt {
    let y = mul(&small(4), &inv(&small(5)), &P);
    decode(&to_le(&y)).unwrap()
}
