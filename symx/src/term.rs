//! Hash-consed bit-vector terms (width 1..=128) with a normalising constructor set.
//! Width-1 terms double as Booleans.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};

pub type T = u32;

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    And,
    Or,
    Xor,
    Sum,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract, // a = base, b = lo
    SExt,
    Eq,
    Ult,
    Slt,
    Ite,
    SAddO,
    SSubO,
    UMulO,
    SMulO,
    UAddO,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Var {
    pub name: String,
    pub w: u32,
    pub term: T,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn to_signed(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}

pub struct Terms {
    pub nodes: Vec<Node>,
    map: FxMap<Node, T>,
    pub consts: Vec<u128>,
    cmap: FxMap<(u32, u128), T>,
    pub sums: Vec<(u128, Box<[(u128, T)]>)>,
    smap: FxMap<(u32, u128, Box<[(u128, T)]>), T>,
    pub cats: Vec<Box<[T]>>,
    catmap: FxMap<Box<[T]>, T>,
    pub vars: Vec<Var>,
    vmap: HashMap<String, T>,
    sr: std::cell::RefCell<FxMap<T, (i128, i128)>>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    sup: Vec<Option<std::rc::Rc<[u32]>>>,
    // evaluation cache
    ev_gen: u32,
    ev: Vec<(u32, u128)>,
}

pub const FALSE: T = 256;
pub const TRUE: T = 257;

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            nodes: vec![],
            map: Default::default(),
            consts: vec![],
            cmap: Default::default(),
            sums: vec![],
            smap: Default::default(),
            cats: vec![],
            catmap: Default::default(),
            vars: vec![],
            vmap: Default::default(),
            sr: Default::default(),
            lo: vec![],
            hi: vec![],
            sup: vec![],
            ev_gen: 1,
            ev: vec![],
        };
        for i in 0..256 {
            let x = t.c(i as u128, 8);
            assert!(x == i);
        }
        assert!(t.c(0, 1) == FALSE);
        assert!(t.c(1, 1) == TRUE);
        t
    }
    pub fn len(&self) -> usize {
        self.nodes.len()
    }
    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w as u32
    }
    #[inline]
    pub fn op(&self, t: T) -> Op {
        self.nodes[t as usize].op
    }
    #[inline]
    pub fn k(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    #[inline]
    pub fn is_c(&self, t: T) -> bool {
        self.nodes[t as usize].op == Op::Const
    }
    fn push(&mut self, n: Node, lo: u128, hi: u128) -> T {
        let id = self.nodes.len() as T;
        self.nodes.push(n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.sup.push(None);
        self.ev.push((0, 0));
        id
    }
    pub fn c(&mut self, v: u128, w: u32) -> T {
        let v = v & mask(w);
        if w == 8 && self.nodes.len() > 256 {
            return v as T;
        }
        if let Some(&t) = self.cmap.get(&(w, v)) {
            return t;
        }
        let idx = self.consts.len() as u32;
        self.consts.push(v);
        let t = self.push(Node { op: Op::Const, w: w as u16, a: idx, b: 0, c: 0 }, v, v);
        self.cmap.insert((w, v), t);
        t
    }
    pub fn b(&self, v: bool) -> T {
        if v {
            TRUE
        } else {
            FALSE
        }
    }
    pub fn var(&mut self, name: &str, w: u32) -> T {
        if let Some(&t) = self.vmap.get(name) {
            assert!(self.w(t) == w);
            return t;
        }
        let idx = self.vars.len() as u32;
        let t = self.push(Node { op: Op::Var, w: w as u16, a: idx, b: 0, c: 0 }, 0, mask(w));
        self.vars.push(Var { name: name.to_string(), w, term: t });
        self.vmap.insert(name.to_string(), t);
        t
    }
    fn mk(&mut self, op: Op, w: u32, a: u32, b: u32, c: u32) -> T {
        let n = Node { op, w: w as u16, a, b, c };
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        let (lo, hi) = self.range_of(&n);
        let t = self.push(n, lo, hi);
        self.map.insert(n, t);
        t
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let w = n.w as u32;
        let m = mask(w);
        let (a, b, c) = (n.a as usize, n.b as usize, n.c as usize);
        match n.op {
            Op::And => (0, self.hi[a].min(self.hi[b])),
            Op::Or => {
                let h = self.hi[a] | self.hi[b];
                let bits = 128 - h.leading_zeros();
                (self.lo[a].max(self.lo[b]), mask(bits))
            }
            Op::Xor => {
                let h = self.hi[a] | self.hi[b];
                (0, mask(128 - h.leading_zeros()))
            }
            Op::Mul => match (self.hi[a].checked_mul(self.hi[b]), self.lo[a].checked_mul(self.lo[b])) {
                (Some(h), Some(l)) if h <= m => (l, h),
                _ => (0, m),
            },
            Op::UDiv => {
                if self.lo[b] > 0 {
                    (self.lo[a] / self.hi[b], self.hi[a] / self.lo[b])
                } else {
                    (0, m)
                }
            }
            Op::URem => {
                if self.lo[b] > 0 {
                    (0, self.hi[a].min(self.hi[b] - 1))
                } else {
                    (0, m)
                }
            }
            Op::LShr => {
                let l = self.lo[b].min(127) as u32;
                (0, self.hi[a] >> l)
            }
            Op::Extract => {
                let lo = n.b;
                let ba = self.hi[a] >> lo;
                if ba <= m {
                    (self.lo[a] >> lo, ba)
                } else {
                    (0, m)
                }
            }
            Op::Ite => (self.lo[b].min(self.lo[c]), self.hi[b].max(self.hi[c])),
            Op::SExt => {
                let wa = self.nodes[a].w as u32;
                if self.hi[a] >> (wa - 1) == 0 {
                    (self.lo[a], self.hi[a])
                } else {
                    (0, m)
                }
            }
            _ => (0, m),
        }
    }
    /// signed range
    pub fn srange(&self, t: T) -> (i128, i128) {
        if let Some(r) = self.sr.borrow().get(&t) {
            return *r;
        }
        let r = self.srange0(t);
        self.sr.borrow_mut().insert(t, r);
        r
    }
    fn srange0(&self, t: T) -> (i128, i128) {
        let n = self.nodes[t as usize];
        let w = n.w as u32;
        let (lo, hi) = (self.lo[t as usize], self.hi[t as usize]);
        if w >= 128 {
            if (hi as i128) >= 0 {
                return (lo as i128, hi as i128);
            }
            return (i128::MIN, i128::MAX);
        }
        let half = 1u128 << (w - 1);
        if hi < half {
            return (lo as i128, hi as i128);
        }
        if lo >= half {
            return (to_signed(lo, w), to_signed(hi, w));
        }
        let full = (-(half as i128), half as i128 - 1);
        match n.op {
            Op::SExt => self.srange(n.a),
            Op::Sum => {
                let (k, ts) = &self.sums[n.a as usize];
                let mut l = to_signed(*k, w);
                let mut h = l;
                for (c, x) in ts.iter() {
                    let cs = to_signed(*c, w);
                    let (xl, xh) = self.srange(*x);
                    let (p, q) = match (cs.checked_mul(xl), cs.checked_mul(xh)) {
                        (Some(p), Some(q)) => (p.min(q), p.max(q)),
                        _ => return full,
                    };
                    l = match l.checked_add(p) {
                        Some(v) => v,
                        None => return full,
                    };
                    h = match h.checked_add(q) {
                        Some(v) => v,
                        None => return full,
                    };
                }
                if l >= full.0 && h <= full.1 {
                    (l, h)
                } else {
                    full
                }
            }
            Op::Concat => {
                let ps = self.cats[n.a as usize].clone();
                let (mut l, mut h, mut pos) = (0i128, 0i128, 0u32);
                for (i, p) in ps.iter().enumerate() {
                    let (a, b) = if i + 1 == ps.len() { self.srange(*p) } else { (self.lo[*p as usize] as i128, self.hi[*p as usize] as i128) };
                    if pos + self.w(*p) > 126 {
                        return full;
                    }
                    l += a << pos;
                    h += b << pos;
                    pos += self.w(*p);
                }
                (l, h)
            }
            Op::Extract => {
                let (a, b) = self.srange(n.a);
                let (a, b) = (a >> n.b, b >> n.b);
                if a >= full.0 && b <= full.1 {
                    (a, b)
                } else {
                    full
                }
            }
            Op::Ite => {
                let (a, b) = self.srange(n.b);
                let (c, d) = self.srange(n.c);
                (a.min(c), b.max(d))
            }
            Op::AShr => {
                let (a, b) = self.srange(n.a);
                let k = self.lo[n.b as usize].min(126) as u32;
                if self.is_c(n.b) {
                    (a >> k, b >> k)
                } else {
                    (a.min(0), b.max(0))
                }
            }
            _ => full,
        }
    }

    // ---------- bitwise structure ----------
    pub fn concat(&mut self, parts: &[T]) -> T {
        // parts: lsb first
        let mut out: Vec<T> = Vec::with_capacity(parts.len());
        for &p in parts {
            if self.op(p) == Op::Concat {
                let ps = self.cats[self.nodes[p as usize].a as usize].clone();
                for &q in ps.iter() {
                    self.cat_push(&mut out, q);
                }
            } else {
                self.cat_push(&mut out, p);
            }
        }
        if out.len() == 1 {
            return out[0];
        }
        if let Some(&t) = self.catmap.get(&out[..]) {
            return t;
        }
        let w: u32 = out.iter().map(|&x| self.w(x)).sum();
        assert!(w <= 128, "concat too wide");
        let (mut lo, mut hi, mut sh) = (0u128, 0u128, 0u32);
        for &p in &out {
            lo |= self.lo[p as usize] << sh;
            hi |= self.hi[p as usize] << sh;
            sh += self.w(p);
        }
        let idx = self.cats.len() as u32;
        let bx: Box<[T]> = out.into_boxed_slice();
        self.cats.push(bx.clone());
        let t = self.push(Node { op: Op::Concat, w: w as u16, a: idx, b: 0, c: 0 }, lo, hi);
        self.catmap.insert(bx, t);
        t
    }
    fn cat_push(&mut self, out: &mut Vec<T>, p: T) {
        if let Some(&l) = out.last() {
            let (nl, np) = (self.nodes[l as usize], self.nodes[p as usize]);
            if nl.op == Op::Const && np.op == Op::Const {
                let w = nl.w as u32 + np.w as u32;
                if w <= 128 {
                    let v = self.consts[nl.a as usize] | self.consts[np.a as usize] << nl.w;
                    let t = self.c(v, w);
                    *out.last_mut().unwrap() = t;
                    return;
                }
            }
            if nl.op == Op::Extract && np.op == Op::Extract && nl.a == np.a && nl.b + nl.w as u32 == np.b {
                let t = self.extract(nl.a, nl.b, nl.w as u32 + np.w as u32);
                *out.last_mut().unwrap() = t;
                return;
            }
            // the bytes of a sign extension, put together again
            if np.op == Op::SExt {
                let (src, lo, w) = self.view(np.a);
                let whole = if nl.op == Op::SExt { nl.a } else { l };
                let (ls, llo, lw) = self.view(whole);
                let joined = if ls != src {
                    None
                } else if nl.op != Op::SExt && llo + lw == lo {
                    Some(self.extract(src, llo, lw + w))
                } else if w == 1 && llo + lw == lo + 1 {
                    Some(whole)
                } else {
                    None
                };
                if let Some(x) = joined {
                    let t = self.sext(x, nl.w as u32 + np.w as u32);
                    *out.last_mut().unwrap() = t;
                    return;
                }
            }
        }
        out.push(p);
    }
    /// the bits a term takes from its source
    fn view(&self, t: T) -> (T, u32, u32) {
        let n = self.nodes[t as usize];
        if n.op == Op::Extract {
            (n.a, n.b, n.w as u32)
        } else {
            (t, 0, n.w as u32)
        }
    }
    pub fn extract(&mut self, t: T, lo: u32, w: u32) -> T {
        let n = self.nodes[t as usize];
        let tw = n.w as u32;
        assert!(lo + w <= tw && w > 0, "bad extract {} {} {}", lo, w, tw);
        if w == tw {
            return t;
        }
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize] >> lo;
                self.c(v, w)
            }
            Op::Extract => self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let ps = self.cats[n.a as usize].clone();
                let mut out = vec![];
                let mut pos = 0;
                for &p in ps.iter() {
                    let pw = self.w(p);
                    let (s, e) = (pos.max(lo), (pos + pw).min(lo + w));
                    if s < e {
                        out.push(self.extract(p, s - pos, e - s));
                    }
                    pos += pw;
                }
                self.concat(&out)
            }
            Op::SExt => {
                let aw = self.w(n.a);
                if lo + w <= aw {
                    self.extract(n.a, lo, w)
                } else if lo >= aw {
                    let s = self.extract(n.a, aw - 1, 1);
                    self.sext(s, w)
                } else {
                    let x = self.extract(n.a, lo, aw - lo);
                    self.sext(x, w)
                }
            }
            Op::Ite => {
                let (kb, kc) = (self.is_c(n.b), self.is_c(n.c));
                if kb && kc {
                    let (b, c) = (self.extract(n.b, lo, w), self.extract(n.c, lo, w));
                    return self.ite(n.a, b, c);
                }
                self.mk(Op::Extract, w, t, lo, 0)
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                self.not(x)
            }
            _ => {
                if self.hi[t as usize] >> lo == 0 {
                    return self.c(0, w);
                }
                self.mk(Op::Extract, w, t, lo, 0)
            }
        }
    }
    pub fn zext(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        let z = self.c(0, w - tw);
        self.concat(&[t, z])
    }
    pub fn sext(&mut self, t: T, w: u32) -> T {
        let tw = self.w(t);
        if tw == w {
            return t;
        }
        if let Some(v) = self.k(t) {
            return self.c(to_signed(v, tw) as u128, w);
        }
        if self.hi[t as usize] >> (tw - 1) == 0 {
            return self.zext(t, w);
        }
        let n = self.nodes[t as usize];
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        self.mk(Op::SExt, w, t, 0, 0)
    }
    pub fn trunc(&mut self, t: T, w: u32) -> T {
        self.extract(t, 0, w)
    }
    pub fn not(&mut self, t: T) -> T {
        let n = self.nodes[t as usize];
        match n.op {
            Op::Const => {
                let v = !self.consts[n.a as usize];
                self.c(v, n.w as u32)
            }
            Op::Not => n.a,
            Op::Concat => {
                let ps = self.cats[n.a as usize].clone();
                let o: Vec<T> = ps.iter().map(|&p| self.not(p)).collect();
                self.concat(&o)
            }
            Op::Ite if self.is_c(n.b) && self.is_c(n.c) => {
                let (b, c) = (self.not(n.b), self.not(n.c));
                self.ite(n.a, b, c)
            }
            _ => self.mk(Op::Not, n.w as u32, t, 0, 0),
        }
    }
    fn cuts(&self, t: T, out: &mut Vec<u32>) -> bool {
        // returns whether t has constant pieces
        let n = self.nodes[t as usize];
        match n.op {
            Op::Concat => {
                let mut pos = 0;
                let mut has = false;
                for &p in self.cats[n.a as usize].iter() {
                    let pw = self.w(p);
                    if let Some(v) = self.k(p) {
                        has = true;
                        self.const_cuts(v, pw, pos, out);
                    }
                    pos += pw;
                    out.push(pos);
                }
                has
            }
            Op::Const => {
                self.const_cuts(self.consts[n.a as usize], n.w as u32, 0, out);
                true
            }
            _ => false,
        }
    }
    fn const_cuts(&self, v: u128, w: u32, base: u32, out: &mut Vec<u32>) {
        let mut i = 1;
        while i < w {
            if (v >> i & 1) != (v >> (i - 1) & 1) {
                out.push(base + i);
            }
            i += 1;
        }
    }
    fn piecewise(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        if w == 1 {
            return None;
        }
        let mut cuts = vec![];
        let (h1, h2) = (self.cuts(a, &mut cuts), self.cuts(b, &mut cuts));
        if !h1 && !h2 {
            return None;
        }
        cuts.push(w);
        cuts.sort_unstable();
        cuts.dedup();
        if cuts.len() > 24 {
            return None;
        }
        if op == Op::Xor && cuts.len() > 10 {
            return None;
        }
        let mut out = vec![];
        let mut pos = 0;
        // group consecutive segments which are both symbolic to keep them whole
        for &c in &cuts {
            if c == pos {
                continue;
            }
            let (ea, eb) = (self.extract(a, pos, c - pos), self.extract(b, pos, c - pos));
            let r = match op {
                Op::And => self.and_core(ea, eb),
                Op::Or => self.or_core(ea, eb),
                _ => self.xor_core(ea, eb),
            };
            out.push(r);
            pos = c;
        }
        Some(self.concat(&out))
    }
    fn and_core(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(v) = self.k(x) {
                if v == 0 {
                    return x;
                }
                if v == mask(w) {
                    return y;
                }
            }
            let n = self.nodes[x as usize];
            if n.op == Op::Not && n.a == y {
                return self.c(0, w);
            }
            if n.op == Op::And && (n.a == y || n.b == y) {
                return x;
            }
            if w == 1 && n.op == Op::Or && (n.a == y || n.b == y) {
                return y;
            }
        }
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.c(x & y, w);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::And, w, a, b, 0)
    }
    fn or_core(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(v) = self.k(x) {
                if v == 0 {
                    return y;
                }
                if v == mask(w) {
                    return x;
                }
            }
            let n = self.nodes[x as usize];
            if n.op == Op::Not && n.a == y {
                return self.c(mask(w), w);
            }
            if n.op == Op::Or && (n.a == y || n.b == y) {
                return x;
            }
            if w == 1 && n.op == Op::And && (n.a == y || n.b == y) {
                return y;
            }
        }
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.c(x | y, w);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Or, w, a, b, 0)
    }
    fn xor_core(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.c(x ^ y, w);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(v) = self.k(x) {
                if v == 0 {
                    return y;
                }
                if v == mask(w) {
                    return self.not(y);
                }
            }
        }
        // flatten: collect operands, xor constants, cancel duplicates
        let mut ops: Vec<T> = vec![];
        let mut neg = false;
        let mut k = 0u128;
        let mut st = vec![a, b];
        let mut budget = 64;
        while let Some(x) = st.pop() {
            let n = self.nodes[x as usize];
            if n.op == Op::Xor && budget > 0 {
                budget -= 1;
                st.push(n.a);
                st.push(n.b);
            } else if n.op == Op::Not {
                neg = !neg;
                st.push(n.a);
            } else if n.op == Op::Const {
                k ^= self.consts[n.a as usize];
            } else {
                ops.push(x);
            }
        }
        if neg {
            k ^= mask(w);
        }
        ops.sort_unstable();
        let mut o2: Vec<T> = vec![];
        for x in ops {
            if o2.last() == Some(&x) {
                o2.pop();
            } else {
                o2.push(x);
            }
        }
        if o2.is_empty() {
            return self.c(k, w);
        }
        let mut r = o2[0];
        for &x in &o2[1..] {
            r = self.mk(Op::Xor, w, r, x, 0);
        }
        if k == 0 {
            r
        } else if k == mask(w) {
            self.not(r)
        } else {
            let kc = self.c(k, w);
            self.mk(Op::Xor, w, r, kc, 0)
        }
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        if let Some(r) = self.piecewise(Op::And, a, b) {
            return r;
        }
        self.and_core(a, b)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        if let Some(r) = self.piecewise(Op::Or, a, b) {
            return r;
        }
        self.or_core(a, b)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        if a == b {
            let w = self.w(a);
            return self.c(0, w);
        }
        if let Some(r) = self.piecewise(Op::Xor, a, b) {
            return r;
        }
        self.xor_core(a, b)
    }

    // ---------- arithmetic ----------
    fn lin_add(&self, acc: &mut Vec<(u128, T)>, k: &mut u128, t: T, coef: u128, w: u32) {
        let m = mask(w);
        let n = self.nodes[t as usize];
        match n.op {
            Op::Const => *k = k.wrapping_add(self.consts[n.a as usize].wrapping_mul(coef)) & m,
            Op::Sum => {
                let (kk, ts) = &self.sums[n.a as usize];
                *k = k.wrapping_add(kk.wrapping_mul(coef)) & m;
                for (c, x) in ts.iter() {
                    acc.push((c.wrapping_mul(coef) & m, *x));
                }
            }
            Op::Not => {
                // ~x = -1 - x
                *k = k.wrapping_sub(coef) & m;
                let nc = 0u128.wrapping_sub(coef) & m;
                self.lin_add(acc, k, n.a, nc, w);
            }
            _ => acc.push((coef, t)),
        }
    }
    pub fn lin(&mut self, w: u32, items: &[(u128, T)], k0: u128) -> T {
        let m = mask(w);
        let mut k = k0 & m;
        let mut acc: Vec<(u128, T)> = Vec::with_capacity(items.len() + 2);
        for &(c, t) in items {
            self.lin_add(&mut acc, &mut k, t, c & m, w);
        }
        acc.sort_unstable_by_key(|x| x.1);
        let mut o: Vec<(u128, T)> = Vec::with_capacity(acc.len());
        for (c, t) in acc {
            if let Some(l) = o.last_mut() {
                if l.1 == t {
                    l.0 = l.0.wrapping_add(c) & m;
                    if l.0 == 0 {
                        o.pop();
                    }
                    continue;
                }
            }
            if c != 0 {
                o.push((c, t));
            }
        }
        if o.is_empty() {
            return self.c(k, w);
        }
        if o.len() == 1 && k == 0 && o[0].0 == 1 {
            return o[0].1;
        }
        if o.len() == 1 && o[0].0 == m && k == m {
            // -1 - x = ~x
            return self.not(o[0].1);
        }
        let key = (w, k, o.into_boxed_slice());
        if let Some(&t) = self.smap.get(&key) {
            return t;
        }
        // range
        let (mut lo, mut hi) = (k, k);
        let mut ok = true;
        for (c, t) in key.2.iter() {
            let l = c.checked_mul(self.lo[*t as usize]).and_then(|v| lo.checked_add(v));
            let h = c.checked_mul(self.hi[*t as usize]).and_then(|v| hi.checked_add(v));
            match (l, h) {
                (Some(l), Some(h)) if h <= m => {
                    lo = l;
                    hi = h;
                }
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        if !ok {
            // try signed interpretation that stays non-negative
            lo = 0;
            hi = m;
            let (mut l, mut h) = (to_signed(k, w), to_signed(k, w));
            let mut good = w < 120;
            if good {
                for (c, t) in key.2.iter() {
                    let cs = to_signed(*c, w);
                    let (tl, th) = (self.lo[*t as usize] as i128, self.hi[*t as usize] as i128);
                    match (cs.checked_mul(tl), cs.checked_mul(th)) {
                        (Some(p), Some(q)) => {
                            l = l.saturating_add(p.min(q));
                            h = h.saturating_add(p.max(q));
                        }
                        _ => {
                            good = false;
                            break;
                        }
                    }
                }
            }
            if good && l >= 0 && (h as u128) <= m {
                lo = l as u128;
                hi = h as u128;
            }
        }
        let idx = self.sums.len() as u32;
        self.sums.push((k, key.2.clone()));
        let t = self.push(Node { op: Op::Sum, w: w as u16, a: idx, b: 0, c: 0 }, lo, hi);
        self.smap.insert(key, t);
        t
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.c(x.wrapping_add(y), w);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        self.lin(w, &[(1, a), (1, b)], 0)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.c(x.wrapping_sub(y), w);
        }
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(r) = self.low_part(a, b) {
            return r;
        }
        self.lin(w, &[(1, a), (mask(w), b)], 0)
    }
    /// a - ((a + c) with its low k bits cleared) = (low k bits of a + c) - c
    fn low_part(&mut self, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let nb = self.nodes[b as usize];
        let mut signed = false;
        let (k, x) = match nb.op {
            Op::Concat => {
                let ps = &self.cats[nb.a as usize];
                if self.k(ps[0]) != Some(0) || !ps[2..].iter().all(|p| self.k(*p) == Some(0)) {
                    return None;
                }
                (self.w(ps[0]), ps[1])
            }
            Op::Sum => {
                let (c, ts) = &self.sums[nb.a as usize];
                if *c != 0 || ts.len() != 1 || !ts[0].0.is_power_of_two() {
                    return None;
                }
                let k = ts[0].0.trailing_zeros();
                let mut x = ts[0].1;
                loop {
                    let n = self.nodes[x as usize];
                    match n.op {
                        Op::SExt => {
                            signed = true;
                            x = n.a
                        }
                        Op::Concat => {
                            let ps = &self.cats[n.a as usize];
                            if ps.len() != 2 || self.k(ps[1]) != Some(0) {
                                return None;
                            }
                            x = ps[0];
                        }
                        _ => break,
                    }
                }
                (k, x)
            }
            _ => return None,
        };
        let n = self.nodes[x as usize];
        if n.op != Op::Extract || n.b != k {
            return None;
        }
        let y = n.a;
        if self.w(y) != w || (k + self.w(x) < w && signed) || (k + self.w(x) < w && self.hi[y as usize] >> (k + self.w(x)) != 0) {
            return None;
        }
        let d = self.lin(w, &[(1, y), (mask(w), a)], 0);
        let d = self.k(d)?;
        let l = self.extract(y, 0, k);
        let l = self.zext(l, w);
        Some(self.lin(w, &[(1, l)], 0u128.wrapping_sub(d)))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match (self.k(a), self.k(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (Some(x), None) => return self.mulc(b, x),
            (None, Some(y)) => return self.mulc(a, y),
            _ => {}
        }
        if w == 1 {
            return self.and(a, b);
        }
        // pull out constant factors
        let mut coef = 1u128;
        let mut ops = [a, b];
        for o in ops.iter_mut() {
            let n = self.nodes[*o as usize];
            if n.op == Op::Sum {
                let (k, ts) = &self.sums[n.a as usize];
                if *k == 0 && ts.len() == 1 {
                    coef = coef.wrapping_mul(ts[0].0);
                    *o = ts[0].1;
                }
            }
        }
        let (x, y) = if ops[0] < ops[1] { (ops[0], ops[1]) } else { (ops[1], ops[0]) };
        let m = self.mk(Op::Mul, w, x, y, 0);
        self.mulc(m, coef)
    }
    fn mulc(&mut self, a: T, k: u128) -> T {
        let w = self.w(a);
        let k = k & mask(w);
        if k == 1 {
            return a;
        }
        if k == 0 {
            return self.c(0, w);
        }
        if w == 1 {
            return a;
        }
        self.lin(w, &[(k, a)], 0)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(y) = self.k(b) {
            if let Some(x) = self.k(a) {
                return if y == 0 { self.c(mask(w), w) } else { self.c(x / y, w) };
            }
            if y.is_power_of_two() {
                let s = self.c(y.trailing_zeros() as u128, w);
                return self.lshr(a, s);
            }
        }
        self.mk(Op::UDiv, w, a, b, 0)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(y) = self.k(b) {
            if let Some(x) = self.k(a) {
                return if y == 0 { a } else { self.c(x % y, w) };
            }
            if y.is_power_of_two() {
                let m = self.c(y - 1, w);
                return self.and(a, m);
            }
            if self.hi[a as usize] < y {
                return a;
            }
        }
        self.mk(Op::URem, w, a, b, 0)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            let (x, y) = (to_signed(x, w), to_signed(y, w));
            if y != 0 {
                return self.c(x.wrapping_div(y) as u128, w);
            }
        }
        if self.srange(a).0 >= 0 && self.srange(b).0 > 0 {
            return self.udiv(a, b);
        }
        self.mk(Op::SDiv, w, a, b, 0)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            let (x, y) = (to_signed(x, w), to_signed(y, w));
            if y != 0 {
                return self.c(x.wrapping_rem(y) as u128, w);
            }
        }
        if self.srange(a).0 >= 0 && self.srange(b).0 > 0 {
            return self.urem(a, b);
        }
        self.mk(Op::SRem, w, a, b, 0)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.k(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.c(0, w);
            }
            let s = s as u32;
            if let Some(x) = self.k(a) {
                return self.c(x << s, w);
            }
            let lo = self.extract(a, 0, w - s);
            let z = self.c(0, s);
            return self.concat(&[z, lo]);
        }
        self.mk(Op::Shl, w, a, b, 0)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.k(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                return self.c(0, w);
            }
            let s = s as u32;
            let hi = self.extract(a, s, w - s);
            return self.zext(hi, w);
        }
        self.mk(Op::LShr, w, a, b, 0)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.k(b) {
            if s == 0 {
                return a;
            }
            let s = s.min(w as u128 - 1) as u32;
            let hi = self.extract(a, s, w - s);
            return self.sext(hi, w);
        }
        if self.hi[a as usize] >> (w - 1) == 0 {
            return self.lshr(a, b);
        }
        self.mk(Op::AShr, w, a, b, 0)
    }
    pub fn fshl(&mut self, a: T, b: T, s: T) -> T {
        let w = self.w(a);
        if let Some(k) = self.k(s) {
            let k = (k % w as u128) as u32;
            if k == 0 {
                return a;
            }
            let hi = self.extract(a, 0, w - k);
            let lo = self.extract(b, w - k, k);
            return self.concat(&[lo, hi]);
        }
        let wc = self.c(w as u128, w);
        let sm = self.urem(s, wc);
        let r = self.shl(a, sm);
        let inv = self.sub(wc, sm);
        let l = self.lshr(b, inv);
        self.or(r, l)
    }

    // ---------- predicates ----------
    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return TRUE;
        }
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return self.b(x == y);
        }
        let (ai, bi) = (a as usize, b as usize);
        if self.hi[ai] < self.lo[bi] || self.hi[bi] < self.lo[ai] {
            return FALSE;
        }
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (mut a, mut b) = (a, b);
        if self.is_c(a) {
            std::mem::swap(&mut a, &mut b);
        }
        let na = self.nodes[a as usize];
        if let Some(kb) = self.k(b) {
            match na.op {
                Op::Concat => {
                    let ps = self.cats[na.a as usize].clone();
                    let mut r = TRUE;
                    let mut pos = 0;
                    for &p in ps.iter() {
                        let pw = self.w(p);
                        let kc = self.c(kb >> pos, pw);
                        let e = self.eq(p, kc);
                        r = self.and(r, e);
                        if r == FALSE {
                            return FALSE;
                        }
                        pos += pw;
                    }
                    return r;
                }
                Op::Ite => {
                    if let Some(x) = self.k(na.b) {
                        if x == kb {
                            let e = self.eq(na.c, b);
                            return self.or(na.a, e);
                        }
                        let e = self.eq(na.c, b);
                        let nn = self.not(na.a);
                        return self.and(nn, e);
                    }
                    if let Some(x) = self.k(na.c) {
                        if x == kb {
                            let e = self.eq(na.b, b);
                            let nn = self.not(na.a);
                            return self.or(nn, e);
                        }
                        let e = self.eq(na.b, b);
                        return self.and(na.a, e);
                    }
                }
                Op::Sum => {
                    let (k, ts) = self.sums[na.a as usize].clone();
                    if ts.len() == 1 && (ts[0].0 == 1 || ts[0].0 == mask(w)) {
                        let mut v = kb.wrapping_sub(k);
                        if ts[0].0 != 1 {
                            v = 0u128.wrapping_sub(v);
                        }
                        let kc = self.c(v, w);
                        return self.eq(ts[0].1, kc);
                    }
                    if k != 0 {
                        let z = self.lin(w, &ts, 0);
                        let kc = self.c(kb.wrapping_sub(k), w);
                        return self.eq(z, kc);
                    }
                }
                Op::Not => {
                    let kc = self.c(!kb, w);
                    return self.eq(na.a, kc);
                }
                Op::SExt => {
                    let aw = self.w(na.a);
                    let low = self.c(kb, aw);
                    let back = self.sext(low, w);
                    if back == b {
                        return self.eq(na.a, low);
                    }
                    return FALSE;
                }
                Op::Xor if w > 1 && self.is_c(na.b) => {
                    let kc = self.c(self.k(na.b).unwrap() ^ kb, w);
                    return self.eq(na.a, kc);
                }
                Op::Xor if kb == 0 => {
                    return self.eq(na.a, na.b);
                }
                Op::Or if kb == 0 => {
                    let z = b;
                    let x = self.eq(na.a, z);
                    let y = self.eq(na.b, z);
                    return self.and(x, y);
                }
                _ => {}
            }
        } else {
            let nb = self.nodes[b as usize];
            if na.op == Op::Concat && nb.op == Op::Concat {
                // split on common cuts
                let pa = self.cats[na.a as usize].clone();
                let pb = self.cats[nb.a as usize].clone();
                let wa: Vec<u32> = pa.iter().map(|&x| self.w(x)).collect();
                let wb: Vec<u32> = pb.iter().map(|&x| self.w(x)).collect();
                let mut cuts: Vec<u32> = vec![];
                let mut s = 0;
                for x in &wa {
                    s += x;
                    cuts.push(s);
                }
                let mut s = 0;
                let mut cb = vec![];
                for x in &wb {
                    s += x;
                    cb.push(s);
                }
                cuts.retain(|c| cb.contains(c));
                if cuts.len() > 1 {
                    let mut r = TRUE;
                    let mut pos = 0;
                    for c in cuts {
                        let x = self.extract(a, pos, c - pos);
                        let y = self.extract(b, pos, c - pos);
                        let e = self.eq(x, y);
                        r = self.and(r, e);
                        if r == FALSE {
                            return FALSE;
                        }
                        pos = c;
                    }
                    return r;
                }
            }
            if (na.op == Op::Sum || nb.op == Op::Sum) && w > 1 {
                let d = self.sub(a, b);
                if let Some(v) = self.k(d) {
                    return self.b(v == 0);
                }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::Eq, 1, a, b, 0)
    }
    fn top_zero(&self, t: T) -> u32 {
        // number of known-zero top bits that can be removed structurally
        let n = self.nodes[t as usize];
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                n.w as u32 - (128 - v.leading_zeros())
            }
            Op::Concat => {
                let ps = &self.cats[n.a as usize];
                let mut z = 0;
                for &p in ps.iter().rev() {
                    if let Some(v) = self.k(p) {
                        let pw = self.w(p);
                        let tz = pw - (128 - v.leading_zeros());
                        z += tz;
                        if tz < pw {
                            break;
                        }
                    } else {
                        break;
                    }
                }
                z
            }
            _ => 0,
        }
    }
    /// the exact sum a term stands for, when it cannot wrap
    fn exact(&self, t: T) -> (u128, Vec<(u128, T)>) {
        let n = self.nodes[t as usize];
        if n.op == Op::Sum {
            let (k, ts) = &self.sums[n.a as usize];
            let mut h = Some(*k);
            for (c, x) in ts.iter() {
                h = h.and_then(|h| c.checked_mul(self.hi[*x as usize]).and_then(|v| h.checked_add(v)));
            }
            if h.map_or(false, |h| h <= mask(n.w as u32)) {
                return (*k, ts.to_vec());
            }
        }
        match self.k(t) {
            Some(k) => (k, vec![]),
            None => (0, vec![(1, t)]),
        }
    }
    /// a < b decided by what remains after common addends are dropped
    fn ult_diff(&self, a: T, b: T) -> Option<bool> {
        let ((mut ka, x), (mut kb, y)) = (self.exact(a), self.exact(b));
        if x == [(1, a)] && y == [(1, b)] {
            return None;
        }
        let k = ka.min(kb);
        ka -= k;
        kb -= k;
        let (mut p, mut q) = (x.clone(), y);
        for i in p.iter_mut() {
            for j in q.iter_mut() {
                if i.1 == j.1 {
                    let c = i.0.min(j.0);
                    i.0 -= c;
                    j.0 -= c;
                }
            }
        }
        let sum = |k: u128, l: &[(u128, T)], r: &Vec<u128>| l.iter().fold(Some(k), |s, (c, t)| s.and_then(|s| c.checked_mul(r[*t as usize]).and_then(|v| s.checked_add(v))));
        let (plo, phi, qlo, qhi) = (sum(ka, &p, &self.lo)?, sum(ka, &p, &self.hi)?, sum(kb, &q, &self.lo)?, sum(kb, &q, &self.hi)?);
        if plo >= qhi {
            return Some(false);
        }
        if phi < qlo {
            return Some(true);
        }
        None
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return FALSE;
        }
        let w = self.w(a);
        let (ai, bi) = (a as usize, b as usize);
        if self.hi[ai] < self.lo[bi] {
            return TRUE;
        }
        if self.lo[ai] >= self.hi[bi] {
            return FALSE;
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let Some(v) = self.ult_diff(a, b) {
            return self.b(v);
        }
        let z = self.top_zero(a).min(self.top_zero(b));
        if z > 0 && z < w {
            let x = self.extract(a, 0, w - z);
            let y = self.extract(b, 0, w - z);
            return self.ult(x, y);
        }
        if let Some(v) = self.k(b) {
            if v == 1 {
                let zz = self.c(0, w);
                return self.eq(a, zz);
            }
        }
        if let Some(0) = self.k(a) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        self.mk(Op::Ult, 1, a, b, 0)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return FALSE;
        }
        let (al, ah) = self.srange(a);
        let (bl, bh) = self.srange(b);
        if ah < bl {
            return TRUE;
        }
        if al >= bh {
            return FALSE;
        }
        if (al >= 0 && bl >= 0) || (ah < 0 && bh < 0) {
            return self.ult(a, b);
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        let w = na.w as u32;
        if w == 1 {
            // signed 1-bit: 1 is -1
            return self.ult(b, a);
        }
        if let Some(0) = self.k(b) {
            // sign bit
            return self.extract(a, w - 1, 1);
        }
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.slt(na.a, nb.a);
        }
        self.mk(Op::Slt, 1, a, b, 0)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == TRUE {
            return a;
        }
        if c == FALSE {
            return b;
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = self.nodes[c as usize];
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.b == a {
            // ite(c, a, ite(d, a, e)) = ite(c|d, a, e)
            let o = self.or(c, nb.a);
            return self.ite(o, a, nb.c);
        }
        // zero-extended both: push inside
        if w > 1 {
            if self.k(a) == Some(1) && self.k(b) == Some(0) {
                return self.zext(c, w);
            }
            if self.k(a) == Some(0) && self.k(b) == Some(1) {
                let n = self.not(c);
                return self.zext(n, w);
            }
            let z = self.top_zero(a).min(self.top_zero(b));
            if z > 0 && z < w && (na.op == Op::Concat || nb.op == Op::Concat) {
                let x = self.extract(a, 0, w - z);
                let y = self.extract(b, 0, w - z);
                let r = self.ite(c, x, y);
                return self.zext(r, w);
            }
        }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn implies(&mut self, a: T, b: T) -> T {
        let n = self.not(a);
        self.or(n, b)
    }

    pub fn uaddo(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.hi[a as usize].checked_add(self.hi[b as usize]) {
            if s <= mask(w) {
                return FALSE;
            }
        }
        match self.lo[a as usize].checked_add(self.lo[b as usize]) {
            Some(s) if s <= mask(w) => {}
            _ => return TRUE,
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::UAddO, 1, a, b, 0)
    }
    pub fn usubo(&mut self, a: T, b: T) -> T {
        self.ult(a, b)
    }
    pub fn umulo(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(s) = self.hi[a as usize].checked_mul(self.hi[b as usize]) {
            if s <= mask(w) {
                return FALSE;
            }
        }
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            return match x.checked_mul(y) {
                Some(v) if v <= mask(w) => FALSE,
                _ => TRUE,
            };
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::UMulO, 1, a, b, 0)
    }
    fn s_fold(&mut self, w: u32, l: Option<i128>, h: Option<i128>) -> Option<T> {
        let (mn, mx) = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
        match (l, h) {
            (Some(l), Some(h)) => {
                if l >= mn && h <= mx {
                    Some(FALSE)
                } else if h < mn || l > mx {
                    Some(TRUE)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    pub fn saddo(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let ((al, ah), (bl, bh)) = (self.srange(a), self.srange(b));
        if let Some(r) = self.s_fold(w, al.checked_add(bl), ah.checked_add(bh)) {
            return r;
        }
        if self.is_c(a) && self.is_c(b) {
            return TRUE;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::SAddO, 1, a, b, 0)
    }
    pub fn ssubo(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let ((al, ah), (bl, bh)) = (self.srange(a), self.srange(b));
        if let Some(r) = self.s_fold(w, al.checked_sub(bh), ah.checked_sub(bl)) {
            return r;
        }
        if self.is_c(a) && self.is_c(b) {
            return TRUE;
        }
        self.mk(Op::SSubO, 1, a, b, 0)
    }
    pub fn smulo(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let ((al, ah), (bl, bh)) = (self.srange(a), self.srange(b));
        let ps = [al.checked_mul(bl), al.checked_mul(bh), ah.checked_mul(bl), ah.checked_mul(bh)];
        if ps.iter().all(|p| p.is_some()) {
            let l = ps.iter().map(|p| p.unwrap()).min();
            let h = ps.iter().map(|p| p.unwrap()).max();
            if let Some(r) = self.s_fold(w, l, h) {
                return r;
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(Op::SMulO, 1, a, b, 0)
    }

    // ---------- traversal ----------
    pub fn children(&self, t: T, f: &mut dyn FnMut(T)) {
        let n = self.nodes[t as usize];
        match n.op {
            Op::Const | Op::Var => {}
            Op::Sum => {
                for (_, x) in self.sums[n.a as usize].1.iter() {
                    f(*x)
                }
            }
            Op::Concat => {
                for x in self.cats[n.a as usize].iter() {
                    f(*x)
                }
            }
            Op::Not | Op::Extract | Op::SExt => f(n.a),
            Op::Ite => {
                f(n.a);
                f(n.b);
                f(n.c)
            }
            _ => {
                f(n.a);
                f(n.b)
            }
        }
    }
    /// sorted list of variable indices in the term
    pub fn support(&mut self, t: T) -> std::rc::Rc<[u32]> {
        if let Some(s) = &self.sup[t as usize] {
            return s.clone();
        }
        // iterative post-order
        let mut st = vec![(t, false)];
        while let Some((x, done)) = st.pop() {
            if self.sup[x as usize].is_some() {
                continue;
            }
            let n = self.nodes[x as usize];
            if n.op == Op::Const {
                self.sup[x as usize] = Some(std::rc::Rc::from(vec![]));
                continue;
            }
            if n.op == Op::Var {
                self.sup[x as usize] = Some(std::rc::Rc::from(vec![n.a]));
                continue;
            }
            if !done {
                st.push((x, true));
                let mut ch = vec![];
                self.children(x, &mut |c| ch.push(c));
                for c in ch {
                    if self.sup[c as usize].is_none() {
                        st.push((c, false));
                    }
                }
            } else {
                let mut ch: Vec<std::rc::Rc<[u32]>> = vec![];
                self.children(x, &mut |c| ch.push(self.sup[c as usize].clone().unwrap()));
                let mut big: std::rc::Rc<[u32]> = std::rc::Rc::from(vec![]);
                for c in &ch {
                    if c.len() > big.len() {
                        big = c.clone();
                    }
                }
                let mut all_in = true;
                for c in &ch {
                    if !std::rc::Rc::ptr_eq(c, &big) && !c.iter().all(|v| big.binary_search(v).is_ok()) {
                        all_in = false;
                        break;
                    }
                }
                let r = if all_in {
                    big
                } else {
                    let mut v: Vec<u32> = ch.iter().flat_map(|c| c.iter().cloned()).collect();
                    v.sort_unstable();
                    v.dedup();
                    std::rc::Rc::from(v)
                };
                self.sup[x as usize] = Some(r);
            }
        }
        self.sup[t as usize].clone().unwrap()
    }

    pub fn new_eval(&mut self) {
        self.ev_gen += 1;
    }
    /// Evaluate under a model (variable index -> value; missing = 0).
    /// Call `new_eval` whenever the model changes.
    pub fn eval(&mut self, t: T, model: &dyn Fn(u32) -> u128) -> u128 {
        let g = self.ev_gen;
        let mut st: Vec<T> = vec![t];
        while let Some(&x) = st.last() {
            let xi = x as usize;
            if self.ev[xi].0 == g {
                st.pop();
                continue;
            }
            let n = self.nodes[xi];
            let w = n.w as u32;
            match n.op {
                Op::Const => {
                    self.ev[xi] = (g, self.consts[n.a as usize]);
                    st.pop();
                    continue;
                }
                Op::Var => {
                    self.ev[xi] = (g, model(n.a) & mask(w));
                    st.pop();
                    continue;
                }
                _ => {}
            }
            let l = st.len();
            {
                let ev = &self.ev;
                self.children(x, &mut |c| {
                    if ev[c as usize].0 != g {
                        st.push(c)
                    }
                });
            }
            if st.len() > l {
                continue;
            }
            st.pop();
            let v = self.eval_node(x);
            self.ev[xi] = (g, v);
        }
        self.ev[t as usize].1
    }
    fn eval_node(&self, x: T) -> u128 {
        self.eval_with(x, &|t: u32| self.ev[t as usize].1)
    }
    /// the node rebuilt over other children
    pub fn rebuild(&mut self, x: T, f: &dyn Fn(T) -> T) -> T {
        let n = self.nodes[x as usize];
        let w = n.w as u32;
        let mut same = true;
        self.children(x, &mut |c| same &= f(c) == c);
        if same {
            return x;
        }
        match n.op {
            Op::Const | Op::Var => x,
            Op::Not => self.not(f(n.a)),
            Op::And => self.and(f(n.a), f(n.b)),
            Op::Or => self.or(f(n.a), f(n.b)),
            Op::Xor => self.xor(f(n.a), f(n.b)),
            Op::Sum => {
                let (k, ts) = self.sums[n.a as usize].clone();
                let l: Vec<(u128, T)> = ts.iter().map(|(c, t)| (*c, f(*t))).collect();
                self.lin(w, &l, k)
            }
            Op::Mul => self.mul(f(n.a), f(n.b)),
            Op::UDiv => self.udiv(f(n.a), f(n.b)),
            Op::URem => self.urem(f(n.a), f(n.b)),
            Op::SDiv => self.sdiv(f(n.a), f(n.b)),
            Op::SRem => self.srem(f(n.a), f(n.b)),
            Op::Shl => self.shl(f(n.a), f(n.b)),
            Op::LShr => self.lshr(f(n.a), f(n.b)),
            Op::AShr => self.ashr(f(n.a), f(n.b)),
            Op::Concat => {
                // parts are stored lowest first
                let l: Vec<T> = self.cats[n.a as usize].iter().map(|t| f(*t)).collect();
                self.concat(&l)
            }
            Op::Extract => self.extract(f(n.a), n.b, w),
            Op::SExt => self.sext(f(n.a), w),
            Op::Eq => self.eq(f(n.a), f(n.b)),
            Op::Ult => self.ult(f(n.a), f(n.b)),
            Op::Slt => self.slt(f(n.a), f(n.b)),
            Op::Ite => self.ite(f(n.a), f(n.b), f(n.c)),
            Op::UAddO => self.uaddo(f(n.a), f(n.b)),
            Op::UMulO => self.umulo(f(n.a), f(n.b)),
            Op::SAddO => self.saddo(f(n.a), f(n.b)),
            Op::SSubO => self.ssubo(f(n.a), f(n.b)),
            Op::SMulO => self.smulo(f(n.a), f(n.b)),
        }
    }
    pub fn eval_with(&self, x: T, g: &dyn Fn(T) -> u128) -> u128 {
        let n = self.nodes[x as usize];
        let w = n.w as u32;
        let m = mask(w);
        let wa = || self.w(n.a);
        match n.op {
            Op::Const | Op::Var => unreachable!(),
            Op::Not => !g(n.a) & m,
            Op::And => g(n.a) & g(n.b),
            Op::Or => g(n.a) | g(n.b),
            Op::Xor => g(n.a) ^ g(n.b),
            Op::Sum => {
                let (k, ts) = &self.sums[n.a as usize];
                let mut r = *k;
                for (c, t) in ts.iter() {
                    r = r.wrapping_add(c.wrapping_mul(g(*t)));
                }
                r & m
            }
            Op::Mul => g(n.a).wrapping_mul(g(n.b)) & m,
            Op::UDiv => {
                if g(n.b) == 0 {
                    m
                } else {
                    g(n.a) / g(n.b)
                }
            }
            Op::URem => {
                if g(n.b) == 0 {
                    g(n.a)
                } else {
                    g(n.a) % g(n.b)
                }
            }
            Op::SDiv => {
                let (a, b) = (to_signed(g(n.a), w), to_signed(g(n.b), w));
                if b == 0 {
                    (if a < 0 { 1 } else { m }) & m
                } else {
                    a.wrapping_div(b) as u128 & m
                }
            }
            Op::SRem => {
                let (a, b) = (to_signed(g(n.a), w), to_signed(g(n.b), w));
                if b == 0 {
                    a as u128 & m
                } else {
                    a.wrapping_rem(b) as u128 & m
                }
            }
            Op::Shl => {
                let s = g(n.b);
                if s >= w as u128 {
                    0
                } else {
                    g(n.a) << s & m
                }
            }
            Op::LShr => {
                let s = g(n.b);
                if s >= w as u128 {
                    0
                } else {
                    g(n.a) >> s
                }
            }
            Op::AShr => {
                let s = g(n.b).min(w as u128 - 1) as u32;
                (to_signed(g(n.a), w) >> s) as u128 & m
            }
            Op::Concat => {
                let mut r = 0u128;
                let mut sh = 0;
                for &p in self.cats[n.a as usize].iter() {
                    r |= g(p) << sh;
                    sh += self.w(p);
                }
                r
            }
            Op::Extract => g(n.a) >> n.b & m,
            Op::SExt => to_signed(g(n.a), wa()) as u128 & m,
            Op::Eq => (g(n.a) == g(n.b)) as u128,
            Op::Ult => (g(n.a) < g(n.b)) as u128,
            Op::Slt => (to_signed(g(n.a), wa()) < to_signed(g(n.b), wa())) as u128,
            Op::Ite => {
                if g(n.a) == 1 {
                    g(n.b)
                } else {
                    g(n.c)
                }
            }
            Op::UAddO => match g(n.a).checked_add(g(n.b)) {
                Some(v) => (v > mask(wa())) as u128,
                None => 1,
            },
            Op::UMulO => match g(n.a).checked_mul(g(n.b)) {
                Some(v) => (v > mask(wa())) as u128,
                None => 1,
            },
            Op::SAddO | Op::SSubO | Op::SMulO => {
                let ww = wa();
                let (a, b) = (to_signed(g(n.a), ww), to_signed(g(n.b), ww));
                let r = match n.op {
                    Op::SAddO => a.checked_add(b),
                    Op::SSubO => a.checked_sub(b),
                    _ => a.checked_mul(b),
                };
                match r {
                    Some(v) => (to_signed(v as u128 & mask(ww), ww) != v) as u128,
                    None => 1,
                }
            }
        }
    }
}
