//! Native replay of counterexamples (and of witnesses): runs a harness against the real,
//! compiled crate with the values of a model file.
//!   replay MODEL        first line: entry, second: parameters, then "name value" lines
//! exit 0: harness finished; 101 assertion failed; 102 panic in the code; 77 assumption not met
#![allow(static_mut_refs)]
use hx::env;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void, CStr};

struct Count;
static mut LIVE: usize = 0;
static mut PEAK: usize = 0;
/// a single request above this is refused without touching memory
const LIMIT: usize = 3 << 30;
fn add(n: usize) {
    unsafe {
        LIVE += n;
        if LIVE > PEAK {
            PEAK = LIVE
        }
    }
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        if l.size() > LIMIT {
            bye(103, "allocation request too large");
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE = LIVE.wrapping_sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        if l.size() > LIMIT {
            bye(103, "allocation request too large");
        }
        System.alloc_zeroed(l)
    }
}
#[global_allocator]
static A: Count = Count;

fn raw(n: i64, a: usize, b: usize, c: usize, d: usize) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b,
            in("rdx") c, in("r10") d, out("rcx") _, out("r11") _)
    };
    r
}
extern "C" {
    fn __errno_location() -> *mut c_int;
}
fn ret(r: isize) -> isize {
    if r < 0 {
        unsafe { *__errno_location() = -r as c_int };
        return -1;
    }
    r
}
fn say(s: &str) {
    raw(1, 2, s.as_ptr() as usize, s.len(), 0);
}
fn bye(rc: usize, s: &str) -> ! {
    say(s);
    say("\n");
    raw(231, rc, 0, 0, 0);
    loop {}
}
// the parts of libc through which the crate reaches the system
#[no_mangle]
pub extern "C" fn write(fd: c_int, p: *const u8, n: usize) -> isize {
    unsafe {
        if env::ON && (fd == 1 || fd == 2) {
            return env::on_write(fd, p, n);
        }
    }
    ret(raw(1, fd as usize, p as usize, n, 0))
}
#[repr(C)]
pub struct Iov {
    p: *const u8,
    n: usize,
}
#[no_mangle]
pub extern "C" fn writev(fd: c_int, v: *const Iov, n: c_int) -> isize {
    unsafe {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.n > 0 {
                return write(fd, x.p, x.n);
            }
        }
    }
    0
}
#[no_mangle]
pub extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    unsafe {
        if env::ON {
            return env::on_getrandom(p, n);
        }
    }
    ret(raw(318, p as usize, n, fl as usize, 0))
}
#[no_mangle]
pub extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize) -> i64 {
    if n == 318 {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    ret(raw(n, a, b, c, d)) as i64
}
#[no_mangle]
pub extern "C" fn clock_gettime(id: c_int, ts: *mut i64) -> c_int {
    unsafe {
        if env::ON {
            *ts = env::CLOCK;
            *ts.add(1) = 5;
            return 0;
        }
    }
    ret(raw(228, id as usize, ts as usize, 0, 0)) as c_int
}
#[no_mangle]
pub extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_int) -> c_int {
    unsafe {
        if env::ON && CStr::from_ptr(p).to_bytes() == b"/dev/tty" {
            if fl & 3 == 1 {
                return ret(raw(2, c"/dev/null".as_ptr() as usize, 1, 0, 0)) as c_int;
            }
            let k = env::PROMPTS;
            env::PROMPTS += 1;
            match env::ANSWERS.get(k) {
                Some(Some(s)) => {
                    // (memfd_create, write, lseek)
                    let fd = raw(319, c"entry".as_ptr() as usize, 0, 0, 0);
                    let t = format!("{}\n", s);
                    raw(1, fd as usize, t.as_ptr() as usize, t.len(), 0);
                    raw(8, fd as usize, 0, 0, 0);
                    return fd as c_int;
                }
                _ => {
                    *__errno_location() = 6;
                    return -1;
                }
            }
        }
    }
    ret(raw(2, p as usize, fl as usize, mode as usize, 0)) as c_int
}
static mut VALS: Option<HashMap<String, u128>> = None;
static mut OCC: Option<HashMap<String, u32>> = None;
static mut PARAMS: Vec<u64> = Vec::new();
static mut ALLOW: bool = false;
fn nm(p: *const u8, n: usize) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) }
}
fn occ(s: &str) -> u32 {
    unsafe {
        let e = OCC.as_mut().unwrap().entry(s.to_string()).or_insert(0);
        *e += 1;
        *e - 1
    }
}
fn val(k: &str) -> u128 {
    unsafe { VALS.as_ref().unwrap().get(k).copied().unwrap_or(0) }
}
#[no_mangle]
pub extern "C" fn sx_bytes(p: *mut u8, n: usize, s: *const u8, l: usize) {
    let s = nm(s, l);
    let o = occ(s);
    for i in 0..n {
        unsafe { *p.add(i) = val(&format!("{s}#{o}[{i}]")) as u8 };
    }
}
#[no_mangle]
pub extern "C" fn sx_u64(s: *const u8, l: usize) -> u64 {
    let s = nm(s, l);
    let o = occ(s);
    val(&format!("{s}#{o}")) as u64
}
#[no_mangle]
pub extern "C" fn sx_choose(n: u64, s: *const u8, l: usize) -> u64 {
    let v = sx_u64(s, l);
    if v < n {
        v
    } else {
        0
    }
}
#[no_mangle]
pub extern "C" fn sx_assume(c: bool) {
    if !c {
        bye(77, "assumption not met")
    }
}
#[no_mangle]
pub extern "C" fn sx_assert(c: bool, s: *const u8, l: usize) {
    if !c {
        bye(101, &format!("ASSERTION FAILED: {}", nm(s, l)))
    }
}
#[no_mangle]
pub extern "C" fn sx_reach(s: *const u8, l: usize) {
    say(&format!("REACHED {}\n", nm(s, l)));
}
#[no_mangle]
pub extern "C" fn sx_log(_s: *const u8, _l: usize) {}
#[no_mangle]
pub extern "C" fn sx_param(i: u64) -> u64 {
    unsafe { PARAMS.get(i as usize).copied().unwrap_or(0) }
}
#[no_mangle]
pub extern "C" fn sx_bytes_eq(p: *const u8, q: *const u8, n: usize) -> bool {
    unsafe { std::slice::from_raw_parts(p, n) == std::slice::from_raw_parts(q, n) }
}
#[no_mangle]
pub extern "C" fn sx_equiv(p: *const u8, q: *const u8, n: usize, s: *const u8, l: usize) {
    sx_assert(sx_bytes_eq(p, q, n), s, l)
}
#[no_mangle]
pub extern "C" fn sx_allow_panic(c: bool) {
    unsafe { ALLOW = c }
}
/// visible in a trace of memory accesses (bin/check.py, `steps`): a store to a fixed address
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_secret(c: bool) {
    const AT: usize = 0x7a5a5a5000;
    static mut MAPPED: bool = false;
    unsafe {
        if !MAPPED {
            MAPPED = true;
            // mmap(AT, 4096, PROT_READ | PROT_WRITE, MAP_FIXED_NOREPLACE | MAP_PRIVATE | MAP_ANONYMOUS)
            let (r, a, b): (isize, usize, usize);
            std::arch::asm!("syscall", inlateout("rax") 9isize => r, in("rdi") AT, in("rsi") 4096, in("rdx") 3,
                in("r10") 0x100022, in("r8") -1isize, in("r9") 0, out("rcx") a, out("r11") b);
            let _ = (a, b);
            assert!(r as usize == AT);
        }
        std::ptr::write_volatile(AT as *mut u64, c as u64)
    }
}
#[no_mangle]
pub extern "C" fn sx_is_symx() -> bool {
    false
}
#[no_mangle]
pub extern "C" fn sx_is_const(_c: bool) -> bool {
    true
}
#[no_mangle]
pub extern "C" fn sx_is_k(_x: u64) -> bool {
    true
}
#[no_mangle]
pub extern "C" fn sx_valid(c: bool) -> bool {
    c
}
#[no_mangle]
pub extern "C" fn sx_kill() -> ! {
    bye(77, "killed")
}
#[no_mangle]
pub extern "C" fn sx_map(t: *const u8, x: u8) -> u8 {
    unsafe { *t.add(x as usize) }
}
#[no_mangle]
pub extern "C" fn sx_concretize(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C" fn sx_ite(c: bool, a: u64, b: u64) -> u64 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
pub extern "C" fn sx_peak_heap() -> u64 {
    unsafe { PEAK as u64 }
}
#[no_mangle]
pub extern "C" fn sx_live_heap() -> u64 {
    unsafe { LIVE as u64 }
}
#[no_mangle]
pub extern "C" fn sx_reset_peak() {
    unsafe { PEAK = LIVE }
}
#[allow(unused)]
fn unused(_: *mut c_void) {}

macro_rules! table { ($($m:ident :: $f:ident),* $(,)?) => { fn find(n: &str) -> Option<extern "C" fn()> {
    match n { $(stringify!($f) => Some(hx::$m::$f),)* _ => None }
} } }
include!(concat!(env!("OUT_DIR"), "/table.rs"));

fn main() {
    let f = std::env::args().nth(1).expect("model file");
    let t = std::fs::read_to_string(&f).expect("read model");
    let mut it = t.lines();
    let entry = it.next().unwrap_or("").to_string();
    let e = match find(&entry) {
        Some(e) => e,
        None => bye(3, "unknown entry"),
    };
    unsafe {
        PARAMS = it.next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let mut m = HashMap::new();
        for l in it {
            if let Some((a, b)) = l.rsplit_once(' ') {
                if let Ok(x) = b.parse::<u128>() {
                    m.insert(a.to_string(), x);
                }
            }
        }
        VALS = Some(m);
        OCC = Some(HashMap::new());
        env::RNG_PATTERN = val("rng_pattern") == 1;
    }
    std::panic::set_hook(Box::new(|i| {
        if unsafe { !ALLOW } {
            bye(102, &format!("PANIC: {i}"));
        }
        bye(0, "panic (allowed)");
    }));
    e();
    bye(0, "finished");
}

// integers of any size for the `sx_x_*` claims: two's complement words, wide enough
const XW: usize = 40;
type X = [u64; XW];
static mut XS: Vec<X> = Vec::new();
fn xpush(x: X) -> u64 {
    unsafe {
        XS.push(x);
        XS.len() as u64 - 1
    }
}
fn xneg(a: &X) -> X {
    let mut o = [0; XW];
    let mut c = true;
    for i in 0..XW {
        let (v, k) = (!a[i]).overflowing_add(c as u64);
        o[i] = v;
        c = k;
    }
    o
}
fn xadd(a: &X, b: &X) -> X {
    let mut o = [0; XW];
    let mut c = 0u128;
    for i in 0..XW {
        c += a[i] as u128 + b[i] as u128;
        o[i] = c as u64;
        c >>= 64;
    }
    o
}
fn xmul(a: &X, b: &X) -> X {
    let mut o = [0; XW];
    for i in 0..XW {
        let mut c = 0u128;
        for j in 0..XW - i {
            c += a[i] as u128 * b[j] as u128 + o[i + j] as u128;
            o[i + j] = c as u64;
            c >>= 64;
        }
    }
    o
}
fn xis_neg(a: &X) -> bool {
    a[XW - 1] >> 63 == 1
}
fn xless(a: &X, b: &X) -> bool {
    xis_neg(&xadd(a, &xneg(b)))
}
fn xdivides(m: &X, a: &X) -> bool {
    let mut v = if xis_neg(a) { xneg(a) } else { *a };
    // take away m * 2^k, from the top
    let mut ms = vec![*m];
    loop {
        let t = xadd(ms.last().unwrap(), ms.last().unwrap());
        if xless(&v, &t) {
            break;
        }
        ms.push(t);
    }
    for t in ms.iter().rev() {
        if !xless(&v, t) {
            v = xadd(&v, &xneg(t));
        }
    }
    v.iter().all(|w| *w == 0)
}
#[no_mangle]
extern "C" fn sx_x_u(v: u64) -> u64 {
    let mut x = [0; XW];
    x[0] = v;
    xpush(x)
}
#[no_mangle]
extern "C" fn sx_x_v(_: u64) -> u64 {
    panic!("unknowns exist in symbolic runs only")
}
#[no_mangle]
extern "C" fn sx_x_s(v: u64) -> u64 {
    let mut x = [if v >> 63 == 1 { !0 } else { 0 }; XW];
    x[0] = v;
    xpush(x)
}
#[no_mangle]
extern "C" fn sx_x_k(p: *const u64, n: usize) -> u64 {
    let mut x = [0; XW];
    for i in 0..n {
        x[i] = unsafe { *p.add(i) };
    }
    xpush(x)
}
#[no_mangle]
extern "C" fn sx_x_op(op: u64, a: u64, b: u64) -> u64 {
    let (x, y) = unsafe { (XS[a as usize], XS[b as usize]) };
    xpush(match op {
        0 => xadd(&x, &y),
        1 => xadd(&x, &xneg(&y)),
        _ => xmul(&x, &y),
    })
}
#[no_mangle]
extern "C" fn sx_x_claim(kind: u64, a: u64, b: u64, m: u64, nm: *const u8, nl: usize) {
    let (x, y, z) = unsafe { (XS[a as usize], XS[b as usize], XS[m as usize]) };
    let ok = match kind {
        0 => xdivides(&z, &xadd(&x, &xneg(&y))),
        _ => xless(&x, &y),
    };
    sx_assert(ok, nm, nl)
}
