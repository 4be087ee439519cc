//! Points (C10), the powers (C08) and the encodings, over stand-ins for the layer below: field
//! elements carry integer expressions, points carry multiples of the base point and of A.
//! Natively the real code is compared with plain arithmetic (big.rs).
use crate::big;
use crate::sx::{self, X};
use minisign::verif_hooks::{curve, ge_scalarmult_base, is_identity, Fe, GeCached, GeP1P1, GeP2, GeP3, GePrecomp};

const MAGIC: u64 = 0xfe5a_5a5a_0000_0001;
/// largest limb of carried elements, of the right operand of a subtraction, and of anything
/// that is multiplied, carried or encoded
const TIGHT: u64 = 0x8cccccccccccc;
/// stands for the limbs of 2p
const NEG: u64 = 0xffffffffffffe;
const WIDE: u64 = (1 << 54) - 1;

fn p() -> X {
    X::k(&big::P)
}
fn whole() -> X {
    X::pow2(600)
}
fn val(f: &Fe) -> X {
    let mut x = X::k(&[0]);
    for i in 0..5 {
        x = x + X::u(f.0[i]) * X::pow2(51 * i);
    }
    x
}

// ---------- the real formulas on limbs ----------
static mut EXTREME: Vec<[u64; 5]> = Vec::new();
fn fe(nm: &str, max: u64) -> Fe {
    let mut f = Fe::default();
    let top = |i: usize| if max == NEG { crate::kern3::TWO_P[i] } else { max };
    if !sx::symx() {
        if let Some(e) = unsafe { EXTREME.pop() } {
            for i in 0..5 {
                f.0[i] = if e[i] > top(i) { top(i) } else { e[i] };
            }
            return f;
        }
    }
    for i in 0..5 {
        f.0[i] = sx::u64_(nm) & ((1 << 54) - 1);
        sx::assume(f.0[i] <= top(i));
    }
    f
}
fn limbs(f: &Fe, max: u64, nm: &str) {
    for i in 0..5 {
        sx::less(X::u(f.0[i]), X::u(max + 1), nm);
    }
}
fn cong(a: X, b: X, nm: &str) {
    sx::congruent(a, b, p(), nm)
}
fn p3_in() -> ([X; 4], GeP3) {
    // x may come from a negation, the rest from multiplications
    let (x, y, z, t) = (fe("x", NEG), fe("y", TIGHT), fe("z", TIGHT), fe("t", TIGHT));
    ([val(&x), val(&y), val(&z), val(&t)], curve::p3(x, y, z, t))
}
fn p1p1_out(r: &GeP1P1, w: [X; 4]) {
    let q = curve::p1p1_parts(r);
    for i in 0..4 {
        cong(val(&q[i]), w[i], ["X", "Y", "Z", "T"][i]);
        limbs(&q[i], WIDE, "limbs within bounds");
    }
}
fn two() -> X {
    X::k(&[2])
}
/// limbs that are extreme, or whose squares and products are: square roots of small negative
/// numbers modulo 2^51
fn extremes() -> Vec<[u64; 5]> {
    let m = (1u64 << 51) - 1;
    let mut l = vec![1, m, TIGHT];
    for k in [7u64, 15, 23, 31] {
        let mut r = 1u64;
        for b in 2..51 {
            if (r.wrapping_mul(r).wrapping_add(k)) >> b & 1 == 1 {
                r |= 1 << (b - 1);
            }
        }
        l.push(r & m);
        l.push((1 << 51) - (r & m));
    }
    let mut o = vec![[0; 5], [m; 5], [TIGHT; 5], [WIDE; 5], [m - 18, m, m, m, m], [m, 0, m, 0, m]];
    for v in l {
        for i in 0..5 {
            let mut e = [0; 5];
            e[i] = v;
            o.push(e);
        }
    }
    o
}
/// param 0: the operation
#[no_mangle]
pub extern "C" fn h_c10f() {
    let op = sx::param(0);
    formula(op);
    if !sx::symx() && op < 9 {
        let e = extremes();
        let n = e.len();
        for i in 0..n {
            for j in 0..n {
                // operands are drawn from the end: x and y are i and j
                let k = (i * 31 + j * 17) % n;
                unsafe { EXTREME = [j, k, i, k, j, k, j, i].iter().map(|&k| e[k]).collect() }
                formula(op);
            }
        }
    }
    sx::reach("done");
}
fn formula(op: usize) {
    match op {
        // the unified addition law, with the second operand given by y+x, y-x, z and 2*d*t
        0 | 1 => {
            let (q, a) = p3_in();
            let (u, v, z, t) = (fe("u", WIDE), fe("v", WIDE), fe("s", TIGHT), fe("w", TIGHT));
            let (xu, xv, xz, xt) = (val(&u), val(&v), val(&z), val(&t));
            let c = curve::cached(u, v, z, t);
            let (s, d) = (q[1] + q[0], q[1] - q[0]);
            if op == 0 {
                p1p1_out(&(a + c), [s * xu - d * xv, s * xu + d * xv, two() * q[2] * xz + q[3] * xt, two() * q[2] * xz - q[3] * xt]);
            } else {
                p1p1_out(&(a - c), [s * xv - d * xu, s * xv + d * xu, two() * q[2] * xz - q[3] * xt, two() * q[2] * xz + q[3] * xt]);
            }
        }
        2 | 3 => {
            let (q, a) = p3_in();
            let (u, v, t) = (fe("u", TIGHT), fe("v", TIGHT), fe("w", TIGHT));
            let (xu, xv, xt) = (val(&u), val(&v), val(&t));
            let c = curve::precomp(u, v, t);
            let (s, d) = (q[1] + q[0], q[1] - q[0]);
            if op == 2 {
                p1p1_out(&(a + c), [s * xu - d * xv, s * xu + d * xv, two() * q[2] + q[3] * xt, two() * q[2] - q[3] * xt]);
            } else {
                p1p1_out(&(a - c), [s * xv - d * xu, s * xv + d * xu, two() * q[2] - q[3] * xt, two() * q[2] + q[3] * xt]);
            }
        }
        4 | 5 => {
            // 2xy, y^2+x^2, y^2-x^2 (= z^2+d*t^2 on the curve), 2z^2-(y^2-x^2)
            let (q, a) = p3_in();
            let r = if op == 4 { curve::p3_dbl(&a) } else { curve::p2_dbl(&curve::p3_to_p2(&a)) };
            let (xx, yy, zz) = (q[0] * q[0], q[1] * q[1], q[2] * q[2]);
            p1p1_out(&r, [two() * q[0] * q[1], yy + xx, yy - xx, zz + zz - (yy - xx)]);
        }
        6 => {
            let (q, a) = p3_in();
            let c = curve::cached_parts(&curve::p3_to_cached(&a));
            let w = [q[1] + q[0], q[1] - q[0], q[2], two() * X::k(&big::d()) * q[3]];
            for i in 0..4 {
                cong(val(&c[i]), w[i], "cached form");
                limbs(&c[i], if i < 2 { WIDE } else { TIGHT }, "limbs within bounds");
            }
        }
        7 | 8 => {
            let (x, y, z, t) = (fe("x", WIDE), fe("y", WIDE), fe("z", WIDE), fe("t", WIDE));
            let (xx, xy, xz, xt) = (val(&x), val(&y), val(&z), val(&t));
            let a = curve::p1p1(x, y, z, t);
            let w = [xx * xt, xy * xz, xz * xt, xx * xy];
            if op == 7 {
                let r = curve::p3_parts(&curve::p1p1_to_p3(&a));
                for i in 0..4 {
                    cong(val(&r[i]), w[i], "extended form");
                    limbs(&r[i], TIGHT, "limbs within bounds");
                }
            } else {
                let r = curve::p2_parts(&curve::p1p1_to_p2(&a));
                for i in 0..3 {
                    cong(val(&r[i]), w[i], "projective form");
                    limbs(&r[i], TIGHT, "limbs within bounds");
                }
            }
        }
        9 => {
            // selection and projection
            let (a, b) = (p3_in(), p3_in());
            let s = sx::u64_("s") & 1;
            let mut c = a.1;
            c.maybe_set(&b.1, s as u8);
            let (cp, ap, bp) = (curve::p3_parts(&c), curve::p3_parts(&a.1), curve::p3_parts(&b.1));
            let pp = curve::p2_parts(&curve::p3_to_p2(&a.1));
            for i in 0..4 {
                for k in 0..5 {
                    sx::check(cp[i].0[k] == sx::ite(s == 1, bp[i].0[k], ap[i].0[k]), "selected point");
                    if i < 3 {
                        sx::check(pp[i].0[k] == ap[i].0[k], "projection");
                    }
                }
            }
        }
        10 => {
            // constants
            let k = |n: u64| X::k(&[n]);
            let c = curve::constants();
            cong(val(&c[0]), k(0), "zero");
            cong(val(&c[1]), k(1), "one");
            cong(val(&c[2]) * val(&c[2]) + k(1), k(0), "square root of -1");
            cong(val(&c[3]) * k(121666) + k(121665), k(0), "d");
            cong(val(&c[4]), two() * val(&c[3]), "2d");
            for f in c.iter() {
                limbs(f, TIGHT, "limbs within bounds");
            }
            let z = curve::p3_parts(&curve::p3_zero());
            let y = curve::p2_parts(&curve::p2_zero());
            for i in 0..4 {
                cong(val(&z[i]), k([0, 1, 1, 0][i]), "neutral element");
                if i < 3 {
                    cong(val(&y[i]), k([0, 1, 1][i]), "neutral element");
                }
            }
            // the table holds B, 3B, ... 15B: y+x, y-x, 2dxy of affine points. The sums are
            // given with their inverse denominators: the addition law, cross-multiplied
            let b = big::base();
            let d = big::d();
            let two_b = big::padd(&b, &b, &d);
            let mut m = b;
            for e in curve::base_table().iter() {
                let q = curve::precomp_parts(e);
                let (xu, xv, xt) = (val(&q[0]), val(&q[1]), val(&q[2]));
                // 2y z = (u+v) z, 2x z = (u-v) z, t z^2 = 2 d x y
                let (mx, my, mz) = (X::k(&m.x), X::k(&m.y), X::k(&m.z));
                cong((xu + xv) * mz, two() * my, "table y");
                cong((xu - xv) * mz, two() * mx, "table x");
                cong(xt * mz * mz, two() * X::k(&d) * mx * my, "table 2dxy");
                for f in q.iter() {
                    limbs(f, TIGHT, "limbs within bounds");
                }
                m = big::padd(&m, &two_b, &d);
            }
            // the base point itself: 5y = 4, on the curve, x even
            let (bx, by) = (X::k(&b.x), X::k(&b.y));
            cong(by * k(5), k(4), "base point");
            cong(by * by - bx * bx, k(1) + X::k(&d) * bx * bx * by * by, "base point on the curve");
            sx::check(b.x[0] & 1 == 0, "base point sign");
        }
        _ => {
            // neutral element: y is 1 modulo p, whatever the sign bit
            let s: [u8; 32] = sx::bytes("s");
            let mut m = s;
            m[31] &= 0x7f;
            let mut one = [0u8; 32];
            one[0] = 1;
            let mut pone = big::to_le(&big::P);
            pone[0] += 1;
            sx::check(is_identity(&s) == (sx::eq(&m, &one) | sx::eq(&m, &pone)), "neutral element test");
        }
    }
}

// ---------- field elements as expressions ----------
#[derive(Clone, Copy)]
struct Tok {
    x: X,
    /// the value at fixed random values of the unknowns: equal expressions have equal prints
    f: big::N,
    max: u64,
}
static mut TOKS: Vec<Tok> = Vec::new();
static mut UNKNOWNS: u64 = 0;
/// multiplication adds exponents
static mut POWERS: bool = false;
static mut ENC: Vec<(Tok, [u8; 32])> = Vec::new();
static mut CALLS: Vec<(u8, Tok, Tok)> = Vec::new();
static mut DEC: Vec<([u8; 32], Tok)> = Vec::new();

fn put(t: Tok) -> [u64; 5] {
    unsafe {
        TOKS.push(t);
        [MAGIC, TOKS.len() as u64 - 1, 0, 0, 0]
    }
}
fn fput(t: Tok) -> Fe {
    Fe(put(t))
}
fn get(l: &[u64; 5]) -> Tok {
    unsafe {
        if l[0] == MAGIC {
            return TOKS[l[1] as usize];
        }
        // a constant of the code
        let (mut f, mut max) = (big::small(0), 0);
        for i in (0..5).rev() {
            f = big::add(&big::mul(&f, &big::small(1 << 51), &big::P), &big::small(l[i]), &big::P);
            if l[i] > max {
                max = l[i]
            }
        }
        Tok { x: X::k(&f), f, max }
    }
}
fn unknown(max: u64) -> Tok {
    unsafe {
        UNKNOWNS += 1;
        let mut f = big::small(7);
        for _ in 0..UNKNOWNS {
            f = big::mul(&f, &[0x1234_5678_9abc_def1, 0x0fed_cba9_8765_4321, 0x1111_2222_3333_4444, 0x0123_4567_89ab_cdef], &big::P);
        }
        Tok { x: X::v(UNKNOWNS), f, max }
    }
}
fn constant(n: &big::N) -> Tok {
    Tok { x: X::k(n), f: *n, max: TIGHT }
}
fn tadd(a: &Tok, b: &Tok) -> Tok {
    Tok { x: a.x + b.x, f: big::add(&a.f, &b.f, &big::P), max: a.max + b.max }
}
fn tsub(a: &Tok, b: &Tok) -> Tok {
    Tok { x: a.x - b.x, f: big::sub(&a.f, &b.f, &big::P), max: a.max + 2 * NEG }
}
fn tmul(a: &Tok, b: &Tok) -> Tok {
    Tok { x: a.x * b.x, f: big::mul(&a.f, &b.f, &big::P), max: TIGHT }
}
fn wide(a: &Tok) {
    sx::check(a.max <= WIDE, "operand within bounds");
}
/// the same expression: by print, confirmed as a claim
fn is(a: &Tok, b: &Tok, nm: &str) -> bool {
    if a.f != b.f {
        return false;
    }
    cong(a.x, b.x, nm);
    true
}
#[no_mangle]
pub fn st_fe_mul(o: &mut [u64; 5], a: &[u64; 5], b: &[u64; 5]) {
    let (a, b) = (get(a), get(b));
    wide(&a);
    wide(&b);
    let r = if unsafe { POWERS } { Tok { max: TIGHT, ..tadd(&a, &b) } } else { tmul(&a, &b) };
    *o = put(r);
}
#[no_mangle]
pub fn st_fe_square(o: &mut [u64; 5], a: &[u64; 5]) {
    st_fe_mul(o, a, a)
}
fn not_powers() {
    sx::check(unsafe { !POWERS }, "powers are made by multiplication only");
}
#[no_mangle]
pub fn st_fe_add(o: &mut [u64; 5], a: &[u64; 5], b: &[u64; 5]) {
    not_powers();
    let (a, b) = (get(a), get(b));
    wide(&a);
    wide(&b);
    *o = put(tadd(&a, &b));
}
#[no_mangle]
pub fn st_fe_sub(o: &mut [u64; 5], a: &[u64; 5], b: &[u64; 5]) {
    not_powers();
    let (a, b) = (get(a), get(b));
    wide(&a);
    sx::check(b.max <= NEG, "right operand of a subtraction within bounds");
    *o = put(tsub(&a, &b));
}
#[no_mangle]
pub fn st_fe_opp(o: &mut [u64; 5], a: &[u64; 5]) {
    not_powers();
    let a = get(a);
    sx::check(a.max <= NEG, "right operand of a subtraction within bounds");
    *o = put(Tok { max: NEG, ..tsub(&constant(&big::small(0)), &a) });
}
#[no_mangle]
pub fn st_fe_carry(o: &mut [u64; 5], a: &[u64; 5]) {
    let a = get(a);
    wide(&a);
    *o = put(Tok { max: TIGHT, ..a });
}
#[no_mangle]
pub fn st_fe_select(o: &mut [u64; 5], c: u8, a: &[u64; 5], b: &[u64; 5]) {
    not_powers();
    if sx::is_const(c == 0) {
        *o = if c == 0 { *a } else { *b };
        return;
    }
    let (a, b) = (get(a), get(b));
    let u = unknown(0);
    let x = a.x + X::u(c as u64) * (b.x - a.x);
    *o = put(Tok { x, f: u.f, max: if a.max > b.max { a.max } else { b.max } });
}
#[no_mangle]
pub fn st_fe_bytes(o: &mut [u8; 32], a: &[u64; 5]) {
    let a = get(a);
    wide(&a);
    *o = encoding(&a);
}
fn encoding(a: &Tok) -> [u8; 32] {
    unsafe {
        for (t, b) in ENC.iter() {
            if is(a, t, "same value encoded") {
                return *b;
            }
        }
        let b: [u8; 32] = if is(a, &constant(&big::small(0)), "zero") { [0u8; 32] } else { sx::bytes("enc") };
        sx::assume(b[31] < 128);
        ENC.push((*a, b));
        b
    }
}
#[no_mangle]
pub fn st_fe_from(s: &[u8]) -> Fe {
    let mut b = [0u8; 32];
    b.copy_from_slice(s);
    b[31] &= 0x7f;
    unsafe {
        for (k, t) in DEC.iter() {
            if sx::same(k, &b) {
                return fput(*t);
            }
        }
        let t = if sx::is_const(b[0] == 0) { constant(&big::from_le(&b)) } else { unknown(TIGHT) };
        DEC.push((b, t));
        fput(t)
    }
}
fn call(k: u8, a: &Fe) -> Fe {
    let a = get(&a.0);
    wide(&a);
    unsafe {
        for (j, b, r) in CALLS.iter() {
            if *j == k && is(&a, b, "same argument") {
                return fput(*r);
            }
        }
        let r = unknown(TIGHT);
        CALLS.push((k, a, r));
        fput(r)
    }
}
#[no_mangle]
pub fn st_fe_pow(a: &Fe) -> Fe {
    call(0, a)
}
#[no_mangle]
pub fn st_fe_invert(a: &Fe) -> Fe {
    call(1, a)
}
/// the result of a recorded call with this argument
fn called(k: u8, a: &Tok, nm: &str) -> Tok {
    unsafe {
        for (j, b, r) in CALLS.iter() {
            if *j == k && is(a, b, nm) {
                return *r;
            }
        }
        sx::check(false, nm);
        *a
    }
}

fn feb(b: &big::N) -> Fe {
    Fe::from_bytes(&big::to_le(b))
}
fn num(f: &Fe) -> big::N {
    big::from_le(&f.to_bytes())
}
fn exp3() -> big::N {
    // (p-5)/8 = 2^252 - 3
    [0xffff_ffff_ffff_fffd, !0, !0, 0x0fff_ffff_ffff_ffff]
}
/// the powers of inversion and square roots
#[no_mangle]
pub extern "C" fn h_c08p() {
    let pm2 = [big::P[0] - 2, big::P[1], big::P[2], big::P[3]];
    if sx::symx() {
        unsafe { POWERS = true }
        let z = fput(Tok { x: X::k(&[1]), f: big::small(1), max: WIDE });
        sx::congruent(get(&z.invert().0).x, X::k(&pm2), whole(), "inversion raises to p-2");
        sx::congruent(get(&curve::fe_pow25523(&z).0).x, X::k(&exp3()), whole(), "square root power");
    } else {
        for k in 0..40u64 {
            let z = if k < 20 { big::small(k) } else { big::pow(&big::small(k), &[k * k * k + 77, 3, k, 1 << 50], &big::P) };
            let f = feb(&z);
            sx::check(num(&f.invert()) == big::pow(&z, &pm2, &big::P), "inversion raises to p-2");
            sx::check(num(&curve::fe_pow25523(&f)) == big::pow(&z, &exp3(), &big::P), "square root power");
        }
    }
    sx::reach("done");
}

/// strings around the given one, and special ones
fn strings(s: &[u8; 32]) -> Vec<[u8; 32]> {
    let mut o = vec![*s];
    for k in 0..60u8 {
        let mut v = *s;
        for i in 0..32 {
            v[i] = v[i].wrapping_add(k.wrapping_mul(37 + i as u8));
        }
        o.push(v);
    }
    for y in 0..40u64 {
        for sign in 0..2 {
            for (neg, over) in [(false, false), (true, false), (false, true)] {
                let mut n = big::small(y);
                if neg {
                    n = big::neg(&n, &big::P);
                }
                if over {
                    if y >= 19 {
                        continue;
                    }
                    big::plus(&mut n, &big::P);
                }
                let mut b = big::to_le(&n);
                b[31] |= sign << 7;
                o.push(b);
            }
        }
    }
    o
}
/// decoding, negated: accepted exactly when a point with this y exists
#[no_mangle]
pub extern "C" fn h_c10d() {
    let s: [u8; 32] = sx::bytes("s");
    if !sx::symx() {
        for b in strings(&s) {
            let got = GeP3::from_bytes_negate_vartime(&b);
            let want = big::decode(&b);
            sx::check(got.is_some() == want.is_some(), "decoding accepts");
            if let (Some(g), Some(w)) = (got, want) {
                let q = curve::p3_parts(&g);
                let w = big::pneg(&w);
                sx::check(num(&q[0]) == w.x && num(&q[1]) == w.y && num(&q[2]) == big::small(1) && num(&q[3]) == big::mul(&w.x, &w.y, &big::P), "negated point");
                sx::reach("decoded");
            } else {
                sx::reach("refused");
            }
        }
        return;
    }
    let got = GeP3::from_bytes_negate_vartime(&s);
    let one = constant(&big::small(1));
    let d = constant(&big::d());
    let y = get(&st_fe_from(&s).0);
    let yy = tmul(&y, &y);
    let u = tsub(&yy, &one);
    let v = tadd(&tmul(&d, &yy), &one);
    let v3 = tmul(&tmul(&v, &v), &v);
    let uv7 = tmul(&u, &tmul(&tmul(&v3, &v3), &v));
    let w = called(0, &uv7, "argument of the square root power: u*v^7");
    // x = u*v^3*(u*v^7)^((p-5)/8), so that v*x^2 is u, -u, or neither
    let x = tmul(&tmul(&w, &v3), &u);
    let vxx = tmul(&v, &tmul(&x, &x));
    let zero = [0u8; 32];
    let e1 = encoding(&tsub(&vxx, &u));
    let is_u = sx::eq(&e1, &zero);
    let e2 = encoding(&tadd(&vxx, &u));
    let is_neg = sx::eq(&e2, &zero);
    sx::check(got.is_some() == (is_u | is_neg), "decoding accepts");
    let g = match got {
        None => {
            sx::reach("refused");
            return;
        }
        Some(g) => g,
    };
    let x = if is_u { x } else { tmul(&x, &constant(&big::sqrtm1())) };
    let q = curve::p3_parts(&g);
    let odd = encoding(&x)[0] & 1 == 1;
    let sign = s[31] >> 7 == 1;
    let t = [get(&q[0].0), get(&q[1].0), get(&q[2].0), get(&q[3].0)];
    let want = if odd == sign { tsub(&constant(&big::small(0)), &x) } else { x };
    cong(t[0].x, want.x, "x of the negated point");
    cong(t[1].x, y.x, "y");
    cong(t[2].x, one.x, "z");
    cong(t[3].x, want.x * y.x, "t");
    for i in 0..4 {
        sx::check(t[i].max <= if i == 0 { NEG } else { TIGHT }, "decoded point within bounds");
    }
    sx::reach("decoded");
}
fn point(k: u64, z: u64) -> big::Pt {
    let d = big::d();
    let b = big::pmul(&[k, k * 77 + 3, 5, 1], &big::base(), &d);
    let zi = big::mul(&big::inv(&b.z), &big::small(z), &big::P);
    Pt3(&b, &zi)
}
#[allow(non_snake_case)]
fn Pt3(b: &big::Pt, f: &big::N) -> big::Pt {
    big::Pt { x: big::mul(&b.x, f, &big::P), y: big::mul(&b.y, f, &big::P), z: big::mul(&b.z, f, &big::P) }
}
fn p3_of(b: &big::Pt) -> GeP3 {
    // t = x*y/z
    let t = big::mul(&big::mul(&b.x, &b.y, &big::P), &big::inv(&b.z), &big::P);
    curve::p3(feb(&b.x), feb(&b.y), feb(&b.z), feb(&t))
}
/// encoding of points; param 0: projective or extended
#[no_mangle]
pub extern "C" fn h_c10e() {
    let ext = sx::param(0) == 1;
    if sx::symx() {
        let (x, y, z, t) = (unknown(NEG), unknown(TIGHT), unknown(TIGHT), unknown(TIGHT));
        let (fx, fy, fz) = (fput(x), fput(y), fput(z));
        let got = if ext { curve::p3(fx, fy, fz, fput(t)).to_bytes() } else { curve::p2(fx, fy, fz).to_bytes() };
        let i = called(1, &z, "argument of the inversion: z");
        let mut want = encoding(&tmul(&y, &i));
        want[31] ^= (encoding(&tmul(&x, &i))[0] & 1) << 7;
        sx::check(sx::eq(&got, &want), "encoding of a point");
    } else {
        for k in 0..30 {
            let b = if k == 0 { big::zero() } else { point(k, 1 + k % 3) };
            let got = if ext { p3_of(&b).to_bytes() } else { curve::p2(feb(&b.x), feb(&b.y), feb(&b.z)).to_bytes() };
            sx::check(got == big::encode(&b), "encoding of a point");
        }
    }
    sx::reach("done");
}

// ---------- points as multiples ----------
#[derive(Clone, Copy)]
struct PT {
    a: X,
    b: X,
    /// the multiples, while they are small constants
    n: Option<[i64; 2]>,
}
/// the unknown magnitudes of digits
static mut MAGS: Vec<u64> = Vec::new();
static mut MET: Vec<bool> = Vec::new();
static mut PTS: Vec<PT> = Vec::new();
fn pput(p: PT) -> Fe {
    unsafe {
        PTS.push(p);
        Fe([MAGIC, PTS.len() as u64 - 1, 0, 0, 0])
    }
}
fn ptok(f: &Fe) -> Option<PT> {
    unsafe {
        if f.0[0] != MAGIC {
            return None;
        }
        if sx::known(f.0[1]) {
            return Some(PTS[f.0[1] as usize]);
        }
        // one of several multiples of A
        let (mut v, mut one) = (0, false);
        for (i, p) in PTS.iter().enumerate() {
            let e = f.0[1] == i as u64;
            if sx::is_const(e) {
                continue;
            }
            if let Some([n, 0]) = p.n {
                v = sx::ite(e, n as u64, v);
                one |= e;
            }
        }
        sx::check(one, "a multiple of A");
        Some(PT { a: magnitude(v, false), b: X::k(&[0]), n: None })
    }
}
fn pt(a: u64, b: u64) -> PT {
    PT { a: X::k(&[a]), b: X::k(&[b]), n: Some([a as i64, b as i64]) }
}
/// in terms of the digit it equals, where there is one (the last of those not met yet)
fn magnitude(v: u64, b: bool) -> X {
    unsafe {
        MET.resize(MAGS.len(), false);
        let h = *SPLIT.get(0).unwrap_or(&0);
        let l: Vec<usize> = if b { (h..MAGS.len()).rev().chain((0..h).rev()).collect() } else { (0..h).rev().chain((h..MAGS.len()).rev()).collect() };
        for met in [false, true] {
            for &i in l.iter() {
                if MET[i] == met && sx::valid(v == MAGS[i]) {
                    MET[i] = true;
                    return X::u(MAGS[i]);
                }
            }
        }
    }
    X::s(v as i64)
}
/// where the digits of b begin
static mut SPLIT: Vec<usize> = Vec::new();
fn raw(f: &Fe) -> big::N {
    get(&f.0).f
}
/// the neutral element and the base point appear as coordinates
fn known(c: &[Fe]) -> PT {
    if c[0].0 == [0; 5] && c[1].0 == [1, 0, 0, 0, 0] && c[2].0 == c[1].0 {
        return pt(0, 0);
    }
    let (x, y, z) = (raw(&c[0]), raw(&c[1]), raw(&c[2]));
    if x == big::small(0) && y == z && z != big::small(0) {
        return pt(0, 0);
    }
    let b = big::base();
    let ok = big::mul(&b.x, &z, &big::P) == x && big::mul(&b.y, &z, &big::P) == y;
    let t = c.len() < 4 || big::mul(&raw(&c[3]), &z, &big::P) == big::mul(&x, &y, &big::P);
    sx::check(ok && t, "a known point");
    pt(0, 1)
}
fn gp3(p: &GeP3) -> PT {
    let q = curve::p3_parts(p);
    ptok(&q[0]).unwrap_or_else(|| known(&q))
}
fn gp2(p: &GeP2) -> PT {
    let q = curve::p2_parts(p);
    ptok(&q[0]).unwrap_or_else(|| known(&q))
}
fn gp1(p: &GeP1P1) -> PT {
    ptok(&curve::p1p1_parts(p)[0]).unwrap()
}
fn gc(p: &GeCached) -> PT {
    let q = curve::cached_parts(p);
    let t = ptok(&q[0]);
    sx::check(t.is_some(), "operand is a point");
    t.unwrap()
}
fn mp3(p: PT) -> GeP3 {
    let f = pput(p);
    curve::p3(f, f, f, f)
}
fn mp1(p: PT) -> GeP1P1 {
    let f = pput(p);
    curve::p1p1(f, f, f, f)
}
fn mp2(p: PT) -> GeP2 {
    let f = pput(p);
    curve::p2(f, f, f)
}
fn padd(a: PT, b: PT) -> PT {
    let n = match (a.n, b.n) {
        (Some(x), Some(y)) if small(&x) && small(&y) => Some([x[0] + y[0], x[1] + y[1]]),
        _ => None,
    };
    PT { a: a.a + b.a, b: a.b + b.b, n }
}
fn psub(a: PT, b: PT) -> PT {
    let n = match (a.n, b.n) {
        (Some(x), Some(y)) if small(&x) && small(&y) => Some([x[0] - y[0], x[1] - y[1]]),
        _ => None,
    };
    PT { a: a.a - b.a, b: a.b - b.b, n }
}
fn small(n: &[i64; 2]) -> bool {
    n.iter().all(|v| v.abs() < 1 << 20)
}
fn table(e: &GePrecomp) -> PT {
    let q = curve::precomp_parts(e);
    let (mut v, mut one) = (0, false);
    for (i, t) in curve::base_table().iter().enumerate() {
        let r = curve::precomp_parts(t);
        let mut e = true;
        for k in 0..3 {
            for l in 0..5 {
                e &= q[k].0[l] == r[k].0[l];
            }
        }
        v = sx::ite(e, 2 * i as u64 + 1, v);
        one |= e;
    }
    sx::check(one, "a table entry");
    PT { a: X::k(&[0]), b: magnitude(v, true), n: None }
}
#[no_mangle]
pub fn st_p3_add_c(a: GeP3, b: GeCached) -> GeP1P1 {
    mp1(padd(gp3(&a), gc(&b)))
}
#[no_mangle]
pub fn st_p3_sub_c(a: GeP3, b: GeCached) -> GeP1P1 {
    mp1(psub(gp3(&a), gc(&b)))
}
#[no_mangle]
pub fn st_p3_add_p(a: GeP3, b: GePrecomp) -> GeP1P1 {
    mp1(padd(gp3(&a), table(&b)))
}
#[no_mangle]
pub fn st_p3_sub_p(a: GeP3, b: GePrecomp) -> GeP1P1 {
    mp1(psub(gp3(&a), table(&b)))
}
#[no_mangle]
pub fn st_p1_to_p3(a: &GeP1P1) -> GeP3 {
    mp3(gp1(a))
}
#[no_mangle]
pub fn st_p1_to_p2(a: &GeP1P1) -> GeP2 {
    mp2(gp1(a))
}
#[no_mangle]
pub fn st_p3_cached(a: &GeP3) -> GeCached {
    let f = pput(gp3(a));
    curve::cached(f, f, f, f)
}
#[no_mangle]
pub fn st_p3_to_p2(a: &GeP3) -> GeP2 {
    mp2(gp3(a))
}
#[no_mangle]
pub fn st_p2_dbl(a: &GeP2) -> GeP1P1 {
    let p = gp2(a);
    mp1(padd(p, p))
}
#[no_mangle]
pub fn st_p3_dbl(a: &GeP3) -> GeP1P1 {
    let p = gp3(a);
    mp1(padd(p, p))
}
#[no_mangle]
pub fn st_p3_set(a: &mut GeP3, b: &GeP3, c: u8) {
    sx::check(c & 0xfe == 0, "selector is 0 or 1");
    let (x, y) = (gp3(a), gp3(b));
    let s = X::u(c as u64);
    *a = mp3(PT { a: x.a + s * (y.a - x.a), b: x.b + s * (y.b - x.b), n: None });
}
fn scalars(s: &[u8; 32]) -> Vec<[u8; 32]> {
    let mut o = vec![*s];
    for k in 0..24u8 {
        let mut v = *s;
        for i in 0..32 {
            v[i] = v[i].wrapping_add(k.wrapping_mul(91 + i as u8));
        }
        o.push(v);
    }
    for k in [0usize, 1, 2, 7, 8, 63, 64, 127, 128, 200, 251, 252, 253, 254, 255] {
        let mut v = [0u8; 32];
        v[k / 8] = 1 << (k % 8);
        o.push(v);
    }
    o.push([0u8; 32]);
    o.push([0xff; 32]);
    o
}
/// fixed-base multiplication
#[no_mangle]
pub extern "C" fn h_c10b() {
    let s: [u8; 32] = sx::bytes("s");
    if sx::symx() {
        let r = gp3(&ge_scalarmult_base(&s));
        sx::congruent(r.b, X::le(&s), whole(), "scalar times base point");
        sx::congruent(r.a, X::k(&[0]), whole(), "scalar times base point");
    } else {
        let d = big::d();
        for k in scalars(&s) {
            let w = big::pmul(&big::from_le(&k), &big::base(), &d);
            let q = curve::p3_parts(&ge_scalarmult_base(&k));
            let g = big::Pt { x: num(&q[0]), y: num(&q[1]), z: num(&q[2]) };
            sx::check(g.z != big::small(0) && big::same_point(&g, &w), "scalar times base point");
            sx::check(big::mul(&num(&q[3]), &g.z, &big::P) == big::mul(&g.x, &g.y, &big::P), "extended coordinate");
        }
    }
    sx::reach("done");
}
static mut DIGITS: Vec<[i8; 256]> = Vec::new();
#[no_mangle]
pub fn st_slide(a: &[u8]) -> [i8; 256] {
    unsafe { DIGITS[a[0] as usize] }
}
/// a digit: its sign, and an unknown odd magnitude up to 15
fn digit(sign: i8) -> i8 {
    if sign == 0 {
        return 0;
    }
    let m = (sx::u64_("d") & 7) << 1 | 1;
    unsafe { MAGS.push(m) }
    sign * m as i8
}
/// double multiplication, over recodings with digits of unknown magnitude.
/// param 0: 0: digits of a and b all over, params: first positions, signs (0: +, 1: -, 2: both);
/// 1: two digits each (or none), of any sign; params: positions
#[no_mangle]
pub extern "C" fn h_c10m() {
    let q = |i: usize| sx::param(i);
    let mut t = [[0i8; 256]; 2];
    for k in 0..2 {
        unsafe { SPLIT = vec![MAGS.len()] }
        if q(0) == 0 {
            for (n, i) in (q(1 + k)..253).step_by(5).enumerate() {
                t[k][i] = digit(match q(3 + k) {
                    0 => 1,
                    1 => -1,
                    _ => [1, -1, -1, 1, 1, -1, 1][n % 7],
                });
            }
        } else {
            for i in 0..2 {
                t[k][q(1 + 2 * k + i)] = digit(sx::choose(3, "sign") as i8 - 1);
            }
        }
    }
    if sx::symx() {
        unsafe { DIGITS = t.to_vec() }
        let a = mp3(pt(1, 0));
        let r = gp2(&GeP2::double_scalarmult_vartime(&[0u8; 32], a, &[1u8; 32]));
        let mut w = [X::k(&[0]); 2];
        let mut n = 0;
        for k in 0..2 {
            for i in 0..256 {
                if sx::is_const(t[k][i] == 0) && t[k][i] == 0 {
                    continue;
                }
                // in the order of the unknowns
                let m = X::u(unsafe { MAGS[n] }) * X::pow2(i);
                n += 1;
                w[k] = if t[k][i] > 0 { w[k] + m } else { w[k] - m };
            }
        }
        sx::congruent(r.a, w[0], whole(), "multiple of A");
        sx::congruent(r.b, w[1], whole(), "multiple of B");
    } else {
        // the scalars themselves (modulo L when negative) and many others
        let mut k = [big::small(0), big::small(0)];
        for w in 0..2 {
            for i in 0..256 {
                if t[w][i] == 0 {
                    continue;
                }
                let v = big::mul(&big::pow(&big::small(2), &big::small(i as u64), &big::L), &big::small(t[w][i].unsigned_abs() as u64), &big::L);
                k[w] = if t[w][i] < 0 { big::sub(&k[w], &v, &big::L) } else { big::add(&k[w], &v, &big::L) };
            }
        }
        let d = big::d();
        for i in 0..40u64 {
            let a = point(i + 1, 1);
            if i > 0 {
                k[0] = big::mul(&big::add(&k[0], &big::small(i), &big::L), &[i * 0x9e37_79b9_7f4a_7c15, i, !i, i << 40], &big::L);
                k[1] = big::mul(&big::add(&k[1], &k[0], &big::L), &[0x0123_4567_89ab_cdef, i, 7, i << 44], &big::L);
            }
            let q = curve::p2_parts(&GeP2::double_scalarmult_vartime(&big::to_le(&k[0]), p3_of(&a), &big::to_le(&k[1])));
            let g = big::Pt { x: num(&q[0]), y: num(&q[1]), z: num(&q[2]) };
            let w = big::padd(&big::pmul(&k[0], &a, &d), &big::pmul(&k[1], &big::base(), &d), &d);
            sx::check(g.z != big::small(0) && big::same_point(&g, &w), "double multiplication");
        }
    }
    sx::reach("done");
}
/// recoding: params: first bit and number of unknown bits; the bits around them (0 or 1)
#[no_mangle]
pub extern "C" fn h_c10s() {
    let (at, n, around) = (sx::param(0), sx::param(1), sx::param(2));
    let v = sx::u64_("bits");
    sx::assume(v >> n == 0);
    let mut s = [0u8; 32];
    for i in 0..253 {
        let b = if i >= at && i < at + n { (v >> (i - at)) as u8 & 1 } else { [0, 1, (i / 5 % 2) as u8][around] };
        s[i / 8] |= b << (i % 8);
    }
    let r = curve::slide(&s);
    // the sum of the digits, in 320 bits
    let mut acc = [0u64; 5];
    let mut ok = true;
    for i in 0..256 {
        if sx::known(r[i] as u64) && r[i] == 0 {
            continue;
        }
        ok &= (r[i] == 0) | ((r[i] & 1 == 1) & (r[i] <= 15) & (r[i] >= -15));
        let v = ((r[i] as i64 as i128) << (i % 64)) as u128;
        let mut carry = 0;
        for k in i / 64..5 {
            let w = if k == i / 64 {
                v as u64
            } else if k == i / 64 + 1 {
                (v >> 64) as u64
            } else {
                (r[i] as i64 >> 63) as u64
            };
            let t = acc[k] as u128 + w as u128 + carry as u128;
            acc[k] = t as u64;
            carry = (t >> 64) as u64;
        }
    }
    let mut same = ok & (acc[4] == 0);
    for k in 0..4 {
        same &= acc[k] == u64::from_le_bytes(s[8 * k..8 * k + 8].try_into().unwrap());
    }
    sx::check(same, "recoding: odd digits up to 15, and the value");
    sx::reach("done");
}
