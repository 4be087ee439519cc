//! The environment: system random generator, standard streams, clock, password prompt.
//! `on_*` is the behaviour, shared by the symbolic run (as the missing libc functions) and
//! the native replay (linker wraps).
use crate::sx;

pub static mut ON: bool = false;
/// random generator: every successful request is logged; request number FAIL_AT fails
pub static mut RNG_FAIL_AT: usize = usize::MAX;
pub static mut RNG_N: usize = 0;
pub static mut RNG_LOG: Vec<u8> = Vec::new();
pub static mut RNG_PATTERN: bool = false;
/// (native replays) this byte of the pattern is different
pub static mut RNG_FLIP: usize = usize::MAX;
/// the first request is answered with this many bytes only
pub static mut RNG_SHORT: usize = usize::MAX;
/// standard output / error
pub static mut OUT: Vec<u8> = Vec::new();
pub static mut ERR: Vec<u8> = Vec::new();
pub static mut OUT_FAIL_AT: usize = usize::MAX;
pub static mut OUT_ERRNO: i32 = 5;
pub static mut OUT_N: usize = 0;
pub static mut OUT_SHORT: usize = usize::MAX;
/// clock
pub static mut CLOCK: i64 = 1_700_000_001;
/// answers of the password prompt, in order (None: the prompt fails)
pub static mut ANSWERS: Vec<Option<String>> = Vec::new();
pub static mut PROMPTS: usize = 0;

extern "C" {
    fn __errno_location() -> *mut i32;
}
fn errno(e: i32) {
    unsafe { *__errno_location() = e }
}

/// a file called "f" (symbolic runs); native replays use a real one in their scratch directory
pub static mut FILE: Option<Vec<u8>> = None;
pub static mut FILE_POS: usize = 0;
pub fn file(content: &[u8]) -> &'static str {
    unsafe {
        if sx::symx() {
            FILE = Some(content.to_vec());
        } else {
            std::fs::write("f", content).unwrap();
        }
    }
    "f"
}
/// the same with a fault: 1 there is no such file, 2 reading fails, 3 reading fails half-way
/// (natively like 2), 4 short reads
pub fn faulty_file(content: &[u8], fault: usize) -> &'static str {
    unsafe {
        FILE_FAULT = fault;
        if sx::symx() {
            FILE = Some(content.to_vec());
        } else if fault == 2 || fault == 3 {
            std::fs::create_dir("f").unwrap();
        } else if fault != 1 {
            std::fs::write("f", content).unwrap();
        }
    }
    "f"
}
pub static mut FILE_FAULT: usize = 0;
/// between two runs of a harness in one process
pub fn again() {
    unsafe {
        ON = false;
        RNG_FAIL_AT = usize::MAX;
        RNG_N = 0;
        RNG_FROM += RNG_LOG.len();
        RNG_LOG.clear();
        RNG_SHORT = usize::MAX;
        OUT.clear();
        ERR.clear();
        OUT_FAIL_AT = usize::MAX;
        OUT_N = 0;
        OUT_SHORT = usize::MAX;
        ANSWERS.clear();
        PROMPTS = 0;
    }
}
static mut RNG_FROM: usize = 0;
pub fn start() {
    unsafe { ON = true }
}
pub fn on_getrandom(p: *mut u8, n: usize) -> isize {
    unsafe {
        if n == 0 {
            return 0;
        }
        let k = RNG_N;
        RNG_N += 1;
        if k == RNG_FAIL_AT {
            errno(5);
            return -1;
        }
        let n = if k == 0 && RNG_SHORT < n { RNG_SHORT } else { n };
        let b = core::slice::from_raw_parts_mut(p, n);
        if RNG_PATTERN && !sx::symx() {
            for x in b.iter_mut() {
                *x = ((RNG_FROM + RNG_LOG.len()) * 7 + 131) as u8;
                if RNG_LOG.len() == RNG_FLIP {
                    *x ^= 0x55;
                }
                RNG_LOG.push(*x);
            }
            return n as isize;
        }
        sx::fill(b, "rng");
        RNG_LOG.extend_from_slice(b);
        n as isize
    }
}
pub fn on_write(fd: i32, p: *const u8, n: usize) -> isize {
    unsafe {
        let mut n = n;
        if fd == 1 {
            let k = OUT_N;
            OUT_N += 1;
            if k == OUT_FAIL_AT {
                errno(OUT_ERRNO);
                return -1;
            }
            if n > OUT_SHORT {
                n = OUT_SHORT;
            }
        }
        let b = core::slice::from_raw_parts(p, n);
        if fd == 1 {
            OUT.extend_from_slice(b);
        } else {
            ERR.extend_from_slice(b);
        }
        n as isize
    }
}

#[cfg(not(feature = "native"))]
mod ext {
    use super::*;
    #[no_mangle]
    pub extern "C" fn sx_ext_syscall(n: i64, a: *mut u8, b: usize, _c: u32) -> i64 {
        if n == 318 {
            return on_getrandom(a, b) as i64;
        }
        errno(38);
        -1
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_getrandom(a: *mut u8, b: usize, _c: u32) -> isize {
        on_getrandom(a, b)
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_write(fd: i32, p: *const u8, n: usize) -> isize {
        on_write(fd, p, n)
    }
    #[no_mangle]
    pub unsafe extern "C" fn sx_ext___xpg_strerror_r(_e: i32, p: *mut u8, n: usize) -> i32 {
        // the texts of errors do not matter
        let t = b"some error\0";
        if n < t.len() {
            return 34;
        }
        core::ptr::copy_nonoverlapping(t.as_ptr(), p, t.len());
        0
    }
    #[repr(C)]
    pub struct Iov {
        p: *const u8,
        n: usize,
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_writev(fd: i32, v: *const Iov, n: i32) -> isize {
        unsafe {
            for i in 0..n as usize {
                let x = &*v.add(i);
                if x.n > 0 {
                    return on_write(fd, x.p, x.n);
                }
            }
        }
        0
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_clock_gettime(_id: i32, ts: *mut i64) -> i32 {
        unsafe {
            *ts = CLOCK;
            *ts.add(1) = 5;
        }
        0
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_open64(p: *const u8, _f: i32, _m: i32) -> i32 {
        unsafe {
            if *p == b'f' && *p.add(1) == 0 && FILE.is_some() && FILE_FAULT != 1 {
                FILE_POS = 0;
                return 9;
            }
        }
        errno(2);
        -1
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_statx(_d: i32, _p: *const u8, _f: i32, _m: u32, _b: *mut u8) -> i32 {
        errno(38);
        -1
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_fstat64(_d: i32, _b: *mut u8) -> i32 {
        errno(9);
        -1
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_lseek64(_d: i32, _o: i64, _w: i32) -> i64 {
        errno(29);
        -1
    }
    /// destructors of thread locals are registered and never run: the thread does not end
    #[no_mangle]
    pub unsafe extern "C" fn sx_ext_pthread_key_create(k: *mut u32, _d: *const u8) -> i32 {
        static mut N: u32 = 0;
        N += 1;
        *k = N;
        0
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_pthread_setspecific(_k: u32, _v: *const u8) -> i32 {
        0
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_pthread_key_delete(_k: u32) -> i32 {
        0
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_close(_d: i32) -> i32 {
        0
    }
    #[no_mangle]
    pub extern "C" fn sx_ext_read(_d: i32, p: *mut u8, n: usize) -> isize {
        unsafe {
            let f = FILE.as_ref().unwrap();
            if FILE_FAULT == 2 || (FILE_FAULT == 3 && FILE_POS > 0) {
                errno(21);
                return -1;
            }
            let mut k = (f.len() - FILE_POS).min(n);
            if FILE_FAULT == 3 {
                k = k.min(f.len() / 2);
            }
            if FILE_FAULT == 4 {
                k = k.min(if FILE_POS < 3 { 1 } else { 50 });
            }
            core::ptr::copy_nonoverlapping(f.as_ptr().add(FILE_POS), p, k);
            FILE_POS += k;
            k as isize
        }
    }
    /// rpassword::prompt_password
    #[no_mangle]
    pub fn st_prompt(_p: &str) -> std::io::Result<String> {
        unsafe {
            let k = PROMPTS;
            PROMPTS += 1;
            match ANSWERS.get(k) {
                Some(Some(s)) => Ok(s.clone()),
                _ => Err(std::io::Error::from_raw_os_error(6)),
            }
        }
    }
    /// core::fmt: u64 in upper case hexadecimal, without a branch per digit
    #[no_mangle]
    pub fn st_hex(x: &u64, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        let mut d = [0u8; 16];
        for i in 0..16 {
            let n = (*x >> (60 - 4 * i)) as u8 & 15;
            // '0'..'9' and 'A'..'F'
            d[i] = n + 48 + 7 * ((n + 6) >> 4);
        }
        let mut k = 0;
        if f.width() != Some(16) || !f.sign_aware_zero_pad() {
            while k < 15 && d[k] == 48 {
                k += 1;
            }
        }
        f.pad_integral(true, "0x", unsafe { core::str::from_utf8_unchecked(&d[k..]) })
    }
    #[no_mangle]
    pub fn st_memchr(x: u8, t: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < t.len() {
            if t[i] == x {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    #[no_mangle]
    pub fn st_memrchr(x: u8, t: &[u8]) -> Option<usize> {
        let mut i = t.len();
        while i > 0 {
            i -= 1;
            if t[i] == x {
                return Some(i);
            }
        }
        None
    }
}
