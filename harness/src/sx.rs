//! Symbolic inputs, assumptions and assertions. The `sx_*` functions are intrinsics of the
//! symbolic executor; in native replays they read a counterexample instead.
extern "C" {
    fn sx_bytes(p: *mut u8, n: usize, nm: *const u8, nl: usize);
    fn sx_u64(nm: *const u8, nl: usize) -> u64;
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, nm: *const u8, nl: usize);
    fn sx_reach(nm: *const u8, nl: usize);
    fn sx_log(nm: *const u8, nl: usize);
    fn sx_param(i: u64) -> u64;
    fn sx_choose(n: u64, nm: *const u8, nl: usize) -> u64;
    fn sx_equiv(p: *const u8, q: *const u8, n: usize, nm: *const u8, nl: usize);
    fn sx_bytes_eq(p: *const u8, q: *const u8, n: usize) -> bool;
    fn sx_allow_panic(c: bool);
    fn sx_secret(c: bool);
    fn sx_is_symx() -> bool;
    fn sx_kill() -> !;
    fn sx_map(t: *const u8, x: u8) -> u8;
    fn sx_concretize(x: u64) -> u64;
    fn sx_peak_heap() -> u64;
    fn sx_ite(c: bool, a: u64, b: u64) -> u64;
}
/// the first of two runs of a harness in one process: every choice is the first one
pub static mut FIRST: bool = false;
pub static mut PARAMS_FROM: usize = 0;
pub fn fill(b: &mut [u8], nm: &str) {
    unsafe { sx_bytes(b.as_mut_ptr(), b.len(), nm.as_ptr(), nm.len()) }
}
pub fn bytes<const N: usize>(nm: &str) -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b, nm);
    b
}
pub fn vec(nm: &str, n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b, nm);
    b
}
pub fn u64_(nm: &str) -> u64 {
    unsafe { sx_u64(nm.as_ptr(), nm.len()) }
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
pub fn check(c: bool, nm: &str) {
    unsafe { sx_assert(c, nm.as_ptr(), nm.len()) }
}
pub fn reach(nm: &str) {
    unsafe {
        if !FIRST {
            sx_reach(nm.as_ptr(), nm.len())
        }
    }
}
pub fn log(nm: &str) {
    unsafe { sx_log(nm.as_ptr(), nm.len()) }
}
pub fn param(i: usize) -> usize {
    unsafe { sx_param((i + PARAMS_FROM) as u64) as usize }
}
pub fn choose(n: usize, nm: &str) -> usize {
    unsafe {
        if FIRST {
            return 0;
        }
        sx_choose(n as u64, nm.as_ptr(), nm.len()) as usize
    }
}
pub fn pick(l: &[usize], nm: &str) -> usize {
    l[choose(l.len(), nm)]
}
/// one comparison term instead of a fork per byte
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { sx_bytes_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
pub fn allow_panic(c: bool) {
    unsafe { sx_allow_panic(c) }
}
/// between secret(true) and secret(false) no branch and no address may depend on the inputs
pub fn secret(c: bool) {
    unsafe { sx_secret(c) }
}
pub fn symx() -> bool {
    unsafe { sx_is_symx() }
}
pub fn kill() -> ! {
    unsafe { sx_kill() }
}
pub fn map(t: &[u8; 256], x: u8) -> u8 {
    unsafe { sx_map(t.as_ptr(), x) }
}
pub fn concretize(x: u64) -> u64 {
    unsafe { sx_concretize(x) }
}
pub fn peak_heap() -> u64 {
    unsafe { sx_peak_heap() }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { sx_ite(c, a, b) }
}
pub fn xor(a: &[u8], d: &[u8]) -> Vec<u8> {
    let mut v = a.to_vec();
    for i in 0..v.len() {
        v[i] ^= d[i];
    }
    v
}
extern "C" {
    fn sx_is_const(c: bool) -> bool;
    fn sx_valid(c: bool) -> bool;
    fn sx_is_k(x: u64) -> bool;
}
pub fn known(x: u64) -> bool {
    unsafe { sx_is_k(x) }
}
/// holds on every input of this path
pub fn valid(c: bool) -> bool {
    unsafe { sx_valid(c) }
}
pub fn is_const(c: bool) -> bool {
    unsafe { sx_is_const(c) }
}

extern "C" {
    fn sx_live_heap() -> u64;
    fn sx_reset_peak();
}
pub fn live_heap() -> u64 {
    unsafe { sx_live_heap() }
}
pub fn reset_peak() {
    unsafe { sx_reset_peak() }
}
/// identical as terms (in native replays: equal)
pub fn same(a: &[u8], b: &[u8]) -> bool {
    let e = eq(a, b);
    is_const(e) && e
}

/// assert that two byte strings are equal for all inputs (decided by sweeping)
pub fn equiv(a: &[u8], b: &[u8], nm: &str) {
    check(a.len() == b.len(), nm);
    unsafe { sx_equiv(a.as_ptr(), b.as_ptr(), a.len(), nm.as_ptr(), nm.len()) }
}

extern "C" {
    fn sx_x_u(v: u64) -> u64;
    fn sx_x_v(v: u64) -> u64;
    fn sx_x_s(v: u64) -> u64;
    fn sx_x_k(p: *const u64, n: usize) -> u64;
    fn sx_x_op(op: u64, a: u64, b: u64) -> u64;
    fn sx_x_claim(kind: u64, a: u64, b: u64, m: u64, nm: *const u8, nl: usize);
}
/// integer expressions, unbounded: claims about them are decided by bin/alg.py
#[derive(Clone, Copy)]
pub struct X(pub u64);
impl X {
    /// an unknown of its own
    pub fn v(i: u64) -> X {
        X(unsafe { sx_x_v(i) })
    }
    pub fn u(v: u64) -> X {
        X(unsafe { sx_x_u(v) })
    }
    pub fn s(v: i64) -> X {
        X(unsafe { sx_x_s(v as u64) })
    }
    pub fn k(w: &[u64]) -> X {
        X(unsafe { sx_x_k(w.as_ptr(), w.len()) })
    }
    pub fn op(o: u64, a: X, b: X) -> X {
        X(unsafe { sx_x_op(o, a.0, b.0) })
    }
    pub fn pow2(k: usize) -> X {
        let mut w = [0u64; 12];
        w[k / 64] = 1 << (k % 64);
        X::k(&w)
    }
    /// little-endian bytes
    pub fn le(b: &[u8]) -> X {
        let mut x = X::k(&[0]);
        for i in 0..b.len() {
            x = x + X::u(b[i] as u64) * X::pow2(8 * i);
        }
        x
    }
}
impl std::ops::Add for X {
    type Output = X;
    fn add(self, o: X) -> X {
        X::op(0, self, o)
    }
}
impl std::ops::Sub for X {
    type Output = X;
    fn sub(self, o: X) -> X {
        X::op(1, self, o)
    }
}
impl std::ops::Mul for X {
    type Output = X;
    fn mul(self, o: X) -> X {
        X::op(2, self, o)
    }
}
pub fn congruent(a: X, b: X, m: X, nm: &str) {
    unsafe { sx_x_claim(0, a.0, b.0, m.0, nm.as_ptr(), nm.len()) }
}
pub fn less(a: X, b: X, nm: &str) {
    unsafe { sx_x_claim(1, a.0, b.0, 0, nm.as_ptr(), nm.len()) }
}
