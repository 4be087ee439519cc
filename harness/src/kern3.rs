//! Field and scalar arithmetic (C08, C09): claims about integers, for all limb values within
//! the bounds and all byte strings.
use crate::big;
use crate::sx::{self, X};
use minisign::verif_hooks::{curve, sc_muladd, sc_reduce, Fe};

/// fiat's bound of carried elements
const TIGHT: u64 = 0x8cccccccccccc;
/// bound used for everything that may be multiplied or carried
const WIDE: usize = 54;
fn p() -> X {
    X::k(&big::P)
}
fn l() -> X {
    X::k(&big::L)
}
fn val(f: &Fe) -> X {
    let mut x = X::k(&[0]);
    for i in 0..5 {
        x = x + X::u(f.0[i]) * X::pow2(51 * i);
    }
    x
}
fn fe(nm: &str, bits: usize) -> Fe {
    let mut f = Fe::default();
    for i in 0..5 {
        f.0[i] = sx::u64_(nm) & ((1 << bits) - 1);
    }
    f
}
/// the limbs of 2p: what a negation gives, and the right operand of a subtraction may have
fn neg_in(nm: &str) -> Fe {
    let f = fe(nm, 52);
    for i in 0..5 {
        sx::assume(f.0[i] <= TWO_P[i]);
    }
    f
}
pub const TWO_P: [u64; 5] = [0xfffffffffffda, 0xffffffffffffe, 0xffffffffffffe, 0xffffffffffffe, 0xffffffffffffe];
fn limbs(f: &Fe, max: u64, nm: &str) {
    for i in 0..5 {
        sx::less(X::u(f.0[i]), X::u(max + 1), nm);
    }
}
/// param 0: the operation
#[no_mangle]
pub extern "C" fn h_c08() {
    match sx::param(0) {
        0 => {
            let (a, b) = (fe("a", WIDE), fe("b", WIDE));
            let c = a * b;
            sx::congruent(val(&c), val(&a) * val(&b), p(), "product");
            limbs(&c, TIGHT, "product within bounds");
        }
        1 => {
            let a = fe("a", WIDE);
            let c = curve::fe_square(&a);
            sx::congruent(val(&c), val(&a) * val(&a), p(), "square");
            limbs(&c, TIGHT, "square within bounds");
        }
        2 => {
            let a = fe("a", WIDE);
            let c = curve::fe_square_and_double(&a);
            sx::congruent(val(&c), (val(&a) + val(&a)) * val(&a), p(), "twice the square");
            limbs(&c, 2 * TIGHT, "twice the square within bounds");
        }
        3 => {
            let (a, b) = (fe("a", WIDE), fe("b", WIDE));
            let c = a + b;
            sx::congruent(val(&c), val(&a) + val(&b), p(), "sum");
            for i in 0..5 {
                sx::check(c.0[i] <= TIGHT || c.0[i] <= a.0[i] + b.0[i], "sum within bounds");
            }
        }
        4 => {
            let (a, b) = (fe("a", WIDE), neg_in("b"));
            let c = a - b;
            sx::congruent(val(&c), val(&a) - val(&b), p(), "difference");
            limbs(&c, TIGHT, "difference within bounds");
        }
        5 => {
            let a = neg_in("a");
            let c = curve::fe_neg(&a);
            sx::congruent(val(&c) + val(&a), X::k(&[0]), p(), "opposite");
            for i in 0..5 {
                sx::check(c.0[i] <= TWO_P[i], "opposite within bounds");
            }
        }
        6 => {
            let a = fe("a", WIDE);
            let c = a.carry();
            sx::congruent(val(&c), val(&a), p(), "carry");
            limbs(&c, TIGHT, "carried within bounds");
        }
        7 => {
            let a = fe("a", WIDE);
            let c = a.to_bytes();
            sx::congruent(X::le(&c), val(&a), p(), "encoding");
            sx::less(X::le(&c), p(), "canonical encoding");
        }
        8 => {
            let b: [u8; 32] = sx::bytes("b");
            let mut m = b;
            m[31] &= 0x7f;
            let c = Fe::from_bytes(&b);
            sx::congruent(val(&c), X::le(&m), p(), "decoding");
            limbs(&c, TIGHT, "decoded within bounds");
        }
        _ => {
            let (a, b) = (fe("a", WIDE), fe("b", WIDE));
            let s = sx::u64_("s") & 1;
            let mut c = a;
            c.maybe_set(&b, s as u8);
            for i in 0..5 {
                sx::check(c.0[i] == sx::ite(s == 1, b.0[i], a.0[i]), "selection");
            }
            let (n, m) = (curve::fe_is_nonzero(&a), curve::fe_is_negative(&a));
            let e = a.to_bytes();
            sx::check(n == !sx::eq(&e, &[0u8; 32]), "nonzero test");
            sx::check(m == (e[0] & 1 == 1), "sign");
        }
    }
    sx::reach("done");
}
#[no_mangle]
pub extern "C" fn h_c09r() {
    let b: [u8; 64] = sx::bytes("b");
    let mut c = b;
    sc_reduce(&mut c);
    sx::congruent(X::le(&c[..32]), X::le(&b), l(), "reduced value");
    sx::less(X::le(&c[..32]), l(), "reduced below the group order");
    sx::reach("done");
}
#[no_mangle]
pub extern "C" fn h_c09m() {
    let (a, b, c): ([u8; 32], [u8; 32], [u8; 32]) = (sx::bytes("a"), sx::bytes("b"), sx::bytes("c"));
    let mut s = [0u8; 32];
    sc_muladd(&mut s, &a, &b, &c);
    sx::congruent(X::le(&s), X::le(&a) * X::le(&b) + X::le(&c), l(), "a*b+c");
    sx::less(X::le(&s), l(), "a*b+c below the group order");
    sx::reach("done");
}
