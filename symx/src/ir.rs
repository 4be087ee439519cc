//! Textual LLVM IR reader (the subset rustc emits).  Functions are parsed lazily.
use crate::term::{Terms, T};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => ((*n as u64 * t.bits() as u64 + 7) / 8).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => {
                let a = self.align();
                (self.store_size() + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (*w as u64) / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(ts, _) => {
                let (offs, tot) = self.layout();
                let _ = (offs, ts);
                tot
            }
            Ty::Vec(..) => self.store_size(),
            _ => 0,
        }
    }
    pub fn layout(&self) -> (Vec<u64>, u64) {
        match self {
            Ty::Struct(ts, packed) => {
                let mut off = 0u64;
                let mut v = vec![];
                let mut al = 1;
                for t in ts.iter() {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    off = (off + a - 1) / a * a;
                    v.push(off);
                    off += t.size();
                }
                (v, (off + al - 1) / al * al)
            }
            _ => (vec![], self.size()),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    S(T),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn s(&self) -> T {
        match self {
            Val::S(t) => *t,
            _ => panic!("scalar expected"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Named(Rc<str>),
    Ind(Opnd),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { d: u32, op: BinOp, w: u32, a: Opnd, b: Opnd },
    ICmp { d: u32, p: Pred, a: Opnd, b: Opnd },
    Cast { d: u32, op: CastOp, from: Ty, to: Ty, a: Opnd },
    Gep { d: u32, base: Opnd, off: i64, idx: Vec<(Opnd, u32, u64)> },
    Load { d: u32, ty: Ty, p: Opnd },
    Store { ty: Ty, v: Opnd, p: Opnd },
    Alloca { d: u32, size: u64, align: u64, count: Option<Opnd> },
    Select { d: u32, c: Opnd, a: Opnd, b: Opnd },
    ExtractV { d: u32, a: Opnd, idx: Vec<u32> },
    InsertV { d: u32, ty: Ty, a: Opnd, v: Opnd, idx: Vec<u32> },
    ExtractE { d: u32, a: Opnd, i: Opnd },
    InsertE { d: u32, n: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, m: Vec<i64>, n: u32 },
    Call { d: Option<u32>, callee: Callee, args: Vec<(Ty, Opnd)>, ret: Ty, normal: Option<u32> },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { v: Opnd, def: u32, cases: Vec<(T, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    Rmw { d: u32, op: String, ty: Ty, p: Opnd, v: Opnd },
    CmpXchg { d: u32, ty: Ty, p: Opnd, c: Opnd, n: Opnd },
    Freeze { d: u32, a: Opnd },
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: usize,
}

pub struct GlobalDef {
    pub name: Rc<str>,
    pub addr: u64,
    pub size: u64,
    pub align: u64,
    pub ty: Ty,
    pub constant: bool,
    pub init: Option<(usize, usize)>, // token text range in source
}

pub struct Module {
    pub src: String,
    pub funcs: HashMap<Rc<str>, (usize, usize)>, // text range of definition
    pub decls: HashMap<Rc<str>, bool>,           // declared; true = extern_weak
    pub fn_addr: HashMap<Rc<str>, u64>,
    pub addr_fn: HashMap<u64, Rc<str>>,
    pub globals: HashMap<Rc<str>, usize>,
    pub gdefs: Vec<GlobalDef>,
    pub named: HashMap<String, Ty>,
    pub alias: HashMap<Rc<str>, Rc<str>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String),   // word
    L(String),   // %local
    G(String),   // @global
    N(String),   // number
    Cs(Vec<u8>), // c"..."
    P(char),
    Bang,
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    pub i: usize,
}

fn wordc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        Lex { s: s.as_bytes(), i: 0 }
    }
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.i += 1;
        let mut v = vec![];
        while self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                if h.starts_with('\\') {
                    v.push(b'\\');
                    self.i += 2;
                    continue;
                }
                if h.bytes().all(|x| x.is_ascii_hexdigit()) {
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    self.i += 3;
                    continue;
                }
            }
            v.push(self.s[self.i]);
            self.i += 1;
        }
        self.i += 1;
        v
    }
    fn ident(&mut self) -> String {
        if self.s[self.i] == b'"' {
            return String::from_utf8_lossy(&self.quoted()).into_owned();
        }
        let st = self.i;
        while self.i < self.s.len() && wordc(self.s[self.i]) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    pub fn next(&mut self) -> Tok {
        loop {
            if self.i >= self.s.len() {
                return Tok::Eof;
            }
            let c = self.s[self.i];
            match c {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                b'%' => {
                    self.i += 1;
                    return Tok::L(self.ident());
                }
                b'@' => {
                    self.i += 1;
                    return Tok::G(self.ident());
                }
                b'!' => {
                    self.i += 1;
                    return Tok::Bang;
                }
                b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                    self.i += 1;
                    return Tok::Cs(self.quoted());
                }
                b'"' => {
                    let q = self.quoted();
                    return Tok::W(String::from_utf8_lossy(&q).into_owned());
                }
                b'#' | b'$' => {
                    self.i += 1;
                    self.ident();
                    return Tok::W("#attr".into());
                }
                _ if c.is_ascii_digit() || (c == b'-' && self.i + 1 < self.s.len() && self.s[self.i + 1].is_ascii_digit()) => {
                    let st = self.i;
                    self.i += 1;
                    while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.') {
                        self.i += 1;
                    }
                    return Tok::N(String::from_utf8_lossy(&self.s[st..self.i]).into_owned());
                }
                _ if wordc(c) => return Tok::W(self.ident()),
                b'.' => {
                    self.i += 1;
                    return Tok::P('.');
                }
                _ => {
                    self.i += 1;
                    return Tok::P(c as char);
                }
            }
        }
    }
}

/// token cursor
pub struct Cur {
    pub t: Vec<Tok>,
    pub i: usize,
}
impl Cur {
    pub fn of(s: &str) -> Cur {
        let mut l = Lex::new(s);
        let mut t = vec![];
        loop {
            let k = l.next();
            if k == Tok::Eof {
                break;
            }
            t.push(k);
        }
        Cur { t, i: 0 }
    }
    pub fn peek(&self) -> &Tok {
        self.t.get(self.i).unwrap_or(&Tok::Eof)
    }
    pub fn peek2(&self, k: usize) -> &Tok {
        self.t.get(self.i + k).unwrap_or(&Tok::Eof)
    }
    pub fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned().unwrap_or(Tok::Eof);
        self.i += 1;
        t
    }
    pub fn is_p(&self, c: char) -> bool {
        *self.peek() == Tok::P(c)
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected '{}' got {:?} near {:?}", c, self.peek(), &self.t[self.i.saturating_sub(6)..(self.i + 4).min(self.t.len())]);
        }
    }
    pub fn word(&mut self) -> String {
        match self.next() {
            Tok::W(w) => w,
            t => panic!("expected word got {:?} in {:?}", t, self.t),
        }
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Tok::W(x) if x == w)
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn skip_parens(&mut self) {
        if !self.eat('(') {
            return;
        }
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("unbalanced"),
                _ => {}
            }
        }
    }
    fn is_ty_start(&self) -> bool {
        match self.peek() {
            Tok::W(w) => is_ty_word(w),
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            Tok::L(_) => true,
            _ => false,
        }
    }
    /// skip attribute words until a type starts
    pub fn skip_to_ty(&mut self) {
        while !self.is_ty_start() {
            match self.next() {
                Tok::W(_) => {
                    if self.is_p('(') {
                        self.skip_parens();
                    } else if matches!(self.peek(), Tok::N(_)) {
                        self.i += 1;
                    }
                }
                Tok::P('(') => {
                    self.i -= 1;
                    self.skip_parens();
                }
                Tok::N(_) => {}
                t => panic!("skip_to_ty: {:?} in {:?}", t, self.t),
            }
        }
    }
    /// skip parameter attributes after a type, up to a value
    pub fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Tok::W(w) if !is_val_word(w) => {
                    let al = w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens();
                    } else if al && matches!(self.peek(), Tok::N(_)) {
                        // "align 8" / "dereferenceable 8"
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
    }
}
fn is_ty_word(w: &str) -> bool {
    match w {
        "ptr" | "void" | "float" | "double" | "half" | "label" | "token" | "metadata" | "fp128" | "x86_fp80" | "opaque" => true,
        _ => w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()),
    }
}
fn is_val_word(w: &str) -> bool {
    matches!(
        w,
        "true"
            | "false"
            | "null"
            | "undef"
            | "poison"
            | "zeroinitializer"
            | "getelementptr"
            | "inttoptr"
            | "ptrtoint"
            | "bitcast"
            | "splat"
            | "add"
            | "sub"
            | "trunc"
            | "asm"
            | "none"
            | "blockaddress"
            | "ptrtoaddr"
    )
}

impl Module {
    pub fn parse_ty(&self, c: &mut Cur) -> Ty {
        match c.next() {
            Tok::W(w) => match w.as_str() {
                "ptr" => {
                    if c.eat_w("addrspace") {
                        c.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" => Ty::Float(16),
                _ if is_ty_word(&w) && w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                _ => Ty::Other,
            },
            Tok::P('[') => {
                let n = match c.next() {
                    Tok::N(n) => n.parse().unwrap(),
                    t => panic!("array len {:?}", t),
                };
                c.word(); // x
                let t = self.parse_ty(c);
                c.expect(']');
                Ty::Array(n, Rc::new(t))
            }
            Tok::P('{') => {
                let mut v = vec![];
                while !c.eat('}') {
                    v.push(self.parse_ty(c));
                    c.eat(',');
                }
                Ty::Struct(Rc::new(v), false)
            }
            Tok::P('<') => {
                if c.eat('{') {
                    let mut v = vec![];
                    while !c.eat('}') {
                        v.push(self.parse_ty(c));
                        c.eat(',');
                    }
                    c.expect('>');
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n = match c.next() {
                        Tok::N(n) => n.parse().unwrap(),
                        t => panic!("vec len {:?}", t),
                    };
                    c.word();
                    let t = self.parse_ty(c);
                    c.expect('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::L(n) => self.named.get(&n).cloned().unwrap_or(Ty::Other),
            t => panic!("type expected, got {:?} in {:?}", t, &c.t[c.i.saturating_sub(5)..(c.i + 5).min(c.t.len())]),
        }
    }

    pub fn sym_addr(&self, n: &str) -> Option<u64> {
        if let Some(a) = self.alias.get(n) {
            return self.sym_addr(&a.clone());
        }
        if let Some(a) = self.fn_addr.get(n) {
            return Some(*a);
        }
        if let Some(g) = self.globals.get(n) {
            return Some(self.gdefs[*g].addr);
        }
        None
    }

    pub fn zero(&self, tm: &mut Terms, ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) => Val::S(tm.c(0, *w)),
            Ty::Ptr => Val::S(tm.c(0, 64)),
            Ty::Float(w) => Val::S(tm.c(0, *w)),
            Ty::Array(n, t) => {
                let z = self.zero(tm, t);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Vec(n, t) => {
                let z = self.zero(tm, t);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(ts, _) => {
                let v = ts.iter().map(|t| self.zero(tm, t)).collect();
                Val::A(Rc::new(v))
            }
            _ => Val::S(tm.c(0, 1)),
        }
    }

    /// constant of the given type
    pub fn parse_const(&self, tm: &mut Terms, c: &mut Cur, ty: &Ty) -> Val {
        match c.next() {
            Tok::N(n) => match ty {
                Ty::Int(w) => {
                    let v: u128 = if let Some(p) = n.strip_prefix('-') {
                        (p.parse::<u128>().unwrap()).wrapping_neg()
                    } else {
                        n.parse().unwrap()
                    };
                    Val::S(tm.c(v, *w))
                }
                Ty::Float(w) => {
                    let v = if let Some(h) = n.strip_prefix("0x") {
                        u128::from_str_radix(h, 16).unwrap_or(0)
                    } else {
                        n.parse::<f64>().map(|f| f.to_bits() as u128).unwrap_or(0)
                    };
                    Val::S(tm.c(v, *w))
                }
                _ => panic!("number of type {:?}", ty),
            },
            Tok::W(w) => match w.as_str() {
                "true" => Val::S(tm.c(1, 1)),
                "false" => Val::S(tm.c(0, 1)),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => self.zero(tm, ty),
                "splat" => {
                    c.expect('(');
                    let t = self.parse_ty(c);
                    let v = self.parse_const(tm, c, &t);
                    c.expect(')');
                    match ty {
                        Ty::Vec(n, _) => Val::A(Rc::new(vec![v; *n as usize])),
                        _ => v,
                    }
                }
                "getelementptr" => {
                    while matches!(c.peek(), Tok::W(_)) && !c.is_p('(') {
                        c.i += 1;
                        if c.is_w("inrange") || c.is_p('(') {
                            break;
                        }
                    }
                    // possible inrange(...) attribute: detect '(' N
                    if c.is_p('(') && matches!(c.peek2(1), Tok::N(_)) {
                        c.skip_parens();
                    }
                    c.expect('(');
                    let ety = self.parse_ty(c);
                    c.expect(',');
                    let bt = self.parse_ty(c);
                    let base = self.parse_const(tm, c, &bt).s();
                    let mut idx = vec![];
                    while c.eat(',') {
                        c.eat_w("inrange");
                        let it = self.parse_ty(c);
                        idx.push(self.parse_const(tm, c, &it).s());
                    }
                    c.expect(')');
                    let mut off = 0i128;
                    let mut cur = ety;
                    for (k, i) in idx.iter().enumerate() {
                        let w = tm.w(*i);
                        let v = crate::term::to_signed(tm.k(*i).unwrap(), w);
                        if k == 0 {
                            off += v * cur.size() as i128;
                        } else {
                            match cur.clone() {
                                Ty::Array(_, t) | Ty::Vec(_, t) => {
                                    off += v * t.size() as i128;
                                    cur = (*t).clone();
                                }
                                Ty::Struct(ts, _) => {
                                    off += cur.layout().0[v as usize] as i128;
                                    cur = ts[v as usize].clone();
                                }
                                _ => panic!("gep const"),
                            }
                        }
                    }
                    let b = tm.k(base).unwrap();
                    Val::S(tm.c(b.wrapping_add(off as u128), 64))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    c.expect('(');
                    let t = self.parse_ty(c);
                    let v = self.parse_const(tm, c, &t).s();
                    c.word(); // to
                    let to = self.parse_ty(c);
                    c.expect(')');
                    let k = tm.k(v).unwrap();
                    Val::S(tm.c(k, to.bits()))
                }
                "add" | "sub" => {
                    while !c.is_p('(') {
                        c.i += 1;
                    }
                    c.expect('(');
                    let t = self.parse_ty(c);
                    let a = self.parse_const(tm, c, &t).s();
                    c.expect(',');
                    let t2 = self.parse_ty(c);
                    let b = self.parse_const(tm, c, &t2).s();
                    c.expect(')');
                    Val::S(if w == "add" { tm.add(a, b) } else { tm.sub(a, b) })
                }
                x => panic!("constant {:?} in {:?}", x, &c.t[c.i.saturating_sub(8)..(c.i + 5).min(c.t.len())]),
            },
            Tok::G(g) => {
                let a = self.sym_addr(&g).unwrap_or(0);
                Val::S(tm.c(a as u128, 64))
            }
            Tok::Cs(b) => Val::A(Rc::new(b.iter().map(|&x| Val::S(x as T)).collect())),
            Tok::P('[') => self.agg(tm, c, ']', None),
            Tok::P('{') => self.agg(tm, c, '}', None),
            Tok::P('<') => {
                if c.eat('{') {
                    self.agg(tm, c, '}', Some('>'))
                } else {
                    self.agg(tm, c, '>', None)
                }
            }
            t => panic!("constant? {:?} of {:?} near {:?}", t, ty, &c.t),
        }
    }
    fn agg(&self, tm: &mut Terms, c: &mut Cur, close: char, close2: Option<char>) -> Val {
        let mut v = vec![];
        while !c.eat(close) {
            let t = self.parse_ty(c);
            v.push(self.parse_const(tm, c, &t));
            c.eat(',');
        }
        if let Some(k) = close2 {
            c.expect(k);
        }
        Val::A(Rc::new(v))
    }

    pub fn load(src: String) -> Module {
        let mut m = Module {
            src: String::new(),
            funcs: HashMap::new(),
            decls: HashMap::new(),
            fn_addr: HashMap::new(),
            addr_fn: HashMap::new(),
            globals: HashMap::new(),
            gdefs: vec![],
            named: HashMap::new(),
            alias: HashMap::new(),
        };
        let bytes = src.as_bytes();
        let mut i = 0;
        let mut faddr = 0x10_0000u64;
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut tlines: Vec<(usize, usize)> = vec![];
        while i < bytes.len() {
            let e = src[i..].find('\n').map(|x| i + x).unwrap_or(bytes.len());
            let line = &src[i..e];
            if line.starts_with("define ") {
                let close = src[e..].find("\n}").map(|x| e + x + 2).unwrap();
                let n: Rc<str> = Rc::from(fname(line).as_str());
                m.funcs.insert(n.clone(), (i, close));
                m.fn_addr.insert(n.clone(), faddr);
                m.addr_fn.insert(faddr, n);
                faddr += 16;
                i = close + 1;
                continue;
            } else if line.starts_with("declare ") {
                let n: Rc<str> = Rc::from(fname(line).as_str());
                let weak = line.contains("extern_weak");
                m.decls.insert(n.clone(), weak);
                if !weak {
                    m.fn_addr.insert(n.clone(), faddr);
                    m.addr_fn.insert(faddr, n);
                    faddr += 16;
                }
            } else if line.starts_with('%') {
                tlines.push((i, e));
            } else if line.starts_with('@') {
                glines.push((i, e));
            }
            i = e + 1;
        }
        // named types may refer to later ones: repeat until the deepest reference is resolved
        for pass in 0..64 {
            let before = m.named.clone();
            for &(s, e) in &tlines {
                let mut c = Cur::of(&src[s..e]);
                if let Tok::L(n) = c.next() {
                    c.expect('=');
                    c.word();
                    if c.is_ty_start() {
                        let t = m.parse_ty(&mut c);
                        m.named.insert(n, t);
                    }
                }
            }
            if m.named == before {
                break;
            }
            if pass == 63 {
                panic!("type definitions do not settle");
            }
        }
        let mut ga = 0x1000_0000u64;
        for (s, e) in glines {
            let line = &src[s..e];
            let mut c = Cur::of(line);
            let n: Rc<str> = match c.next() {
                Tok::G(n) => Rc::from(n.as_str()),
                _ => continue,
            };
            c.expect('=');
            let mut constant = false;
            let mut external = false;
            let mut is_alias = false;
            loop {
                match c.next() {
                    Tok::W(w) => match w.as_str() {
                        "global" => break,
                        "constant" => {
                            constant = true;
                            break;
                        }
                        "alias" => {
                            is_alias = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        _ => {
                            if c.is_p('(') {
                                c.skip_parens();
                            }
                        }
                    },
                    Tok::Eof => break,
                    _ => {}
                }
            }
            if is_alias {
                while let t = c.next() {
                    if let Tok::G(g) = t {
                        m.alias.insert(n.clone(), Rc::from(g.as_str()));
                        break;
                    } else if t == Tok::Eof {
                        break;
                    }
                }
                continue;
            }
            let ty = m.parse_ty(&mut c);
            let mut align = ty.align();
            if let Some(p) = line.rfind(", align ") {
                let a: String = line[p + 8..].chars().take_while(|x| x.is_ascii_digit()).collect();
                if let Ok(a) = a.parse() {
                    align = a;
                }
            }
            let size = ty.size();
            ga = (ga + align - 1) / align * align;
            m.globals.insert(n.clone(), m.gdefs.len());
            m.gdefs.push(GlobalDef {
                name: n,
                addr: ga,
                size,
                align,
                ty,
                constant,
                init: if external { None } else { Some((s, e)) },
            });
            ga += size + 64;
        }
        m.src = src;
        m
    }

    /// bytes of a global's initial value
    pub fn global_bytes(&self, tm: &mut Terms, gi: usize) -> Vec<T> {
        let g = &self.gdefs[gi];
        let mut out = vec![0 as T; g.size as usize];
        if let Some((s, e)) = g.init {
            let line = &self.src[s..e];
            let mut c = Cur::of(line);
            loop {
                match c.next() {
                    Tok::W(w) if w == "global" || w == "constant" => break,
                    Tok::W(_) if c.is_p('(') => c.skip_parens(),
                    Tok::Eof => return out,
                    _ => {}
                }
            }
            let ty = self.parse_ty(&mut c);
            let v = self.parse_const(tm, &mut c, &ty);
            self.flatten(tm, &v, &ty, 0, &mut out);
        }
        out
    }
    pub fn flatten(&self, tm: &mut Terms, v: &Val, ty: &Ty, off: usize, out: &mut [T]) {
        match (v, ty) {
            (Val::S(t), _) => {
                let n = ty.store_size() as usize;
                let w = tm.w(*t);
                let full = (n * 8) as u32;
                let x = if w < full { tm.zext(*t, full) } else { *t };
                for k in 0..n {
                    out[off + k] = tm.extract(x, 8 * k as u32, 8);
                }
            }
            (Val::A(vs), Ty::Array(_, t)) => {
                let sz = t.size() as usize;
                for (k, x) in vs.iter().enumerate() {
                    self.flatten(tm, x, t, off + k * sz, out);
                }
            }
            (Val::A(vs), Ty::Vec(_, t)) => {
                let sz = t.size() as usize;
                for (k, x) in vs.iter().enumerate() {
                    self.flatten(tm, x, t, off + k * sz, out);
                }
            }
            (Val::A(vs), Ty::Struct(ts, _)) => {
                let (offs, _) = ty.layout();
                for (k, x) in vs.iter().enumerate() {
                    self.flatten(tm, x, &ts[k], off + offs[k] as usize, out);
                }
            }
            _ => panic!("flatten {:?}", ty),
        }
    }

    /// a function whose parameters changed is executed itself instead of its stand-in
    pub fn same_arity(&self, a: &Rc<str>, b: &Rc<str>) -> bool {
        if !self.funcs.contains_key(a) || !self.funcs.contains_key(b) {
            return true;
        }
        let mut tm = Terms::new();
        let n = |f: &Func| f.params.iter().map(|p| if p.0 == Ty::Ptr { 0 } else { 1 }).collect::<Vec<_>>();
        let (x, y) = (self.parse_func(&mut tm, a), self.parse_func(&mut tm, b));
        if n(&x) != n(&y) {
            eprintln!("signature of {} differs from that of {}", a, b);
        }
        n(&x) == n(&y)
    }
    pub fn parse_func(&self, tm: &mut Terms, name: &Rc<str>) -> Func {
        let (s, e) = self.funcs[name];
        let text = &self.src[s..e];
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        let mut p = FP { m: self, regs: HashMap::new(), n: 0, blocks: HashMap::new(), nb: 0 };
        // header: define ... RET @name(PARAMS) ...
        let mut c = Cur::of(head);
        c.word(); // define
        // skip linkage words
        c.skip_to_ty();
        let ret = self.parse_ty(&mut c);
        while !matches!(c.peek(), Tok::G(_)) {
            c.i += 1;
        }
        c.next();
        c.expect('(');
        let mut params = vec![];
        let mut auto = 0u32;
        while !c.eat(')') {
            if c.is_p('.') {
                c.i += 1;
                continue;
            }
            if matches!(c.peek(), Tok::W(w) if w == "...") {
                c.i += 1;
                continue;
            }
            let t = self.parse_ty(&mut c);
            c.skip_attrs();
            let nm = match c.peek() {
                Tok::L(n) => {
                    let n = n.clone();
                    c.i += 1;
                    n
                }
                _ => {
                    let n = auto.to_string();
                    n
                }
            };
            auto += 1;
            let r = p.reg(&nm);
            params.push((t, r));
            c.eat(',');
        }
        // body: split in logical lines
        let mut logical: Vec<String> = vec![];
        let mut cur = String::new();
        for l in lines {
            let t = l.trim_end();
            if t == "}" {
                break;
            }
            if t.trim().is_empty() {
                continue;
            }
            if !cur.is_empty() {
                cur.push(' ');
                cur.push_str(t.trim());
            } else {
                cur = t.to_string();
            }
            // incomplete: switch with open bracket, invoke waiting for "to label"
            let ct = cur.trim_start();
            let is_switch = ct.starts_with("switch ");
            if is_switch && !ct.contains(']') {
                continue;
            }
            let is_invoke = ct.starts_with("invoke ") || ct.contains(" = invoke ");
            if is_invoke && !ct.contains(" unwind label ") {
                continue;
            }
            logical.push(std::mem::take(&mut cur));
        }
        // landingpad clauses are lines of their own ("cleanup"/"catch"/"filter")
        let mut blocks: Vec<Block> = vec![];
        let first_label = |l: &str| -> Option<String> {
            if l.starts_with(' ') {
                return None;
            }
            let mut end = l.len();
            let mut inq = false;
            for (i, ch) in l.char_indices() {
                if ch == '"' {
                    inq = !inq;
                }
                if ch == ':' && !inq {
                    end = i;
                    break;
                }
            }
            if end == l.len() {
                return None;
            }
            Some(l[..end].trim_matches('"').to_string())
        };
        // entry block label: implicit number = count of unnamed params
        if logical.first().map(|l| first_label(l).is_none()).unwrap_or(true) {
            let nm = auto.to_string();
            p.block(&nm);
            blocks.push(Block { phis: vec![], insts: vec![] });
        }
        // pre-register labels in order
        for l in &logical {
            if let Some(n) = first_label(l) {
                p.block(&n);
            }
        }
        for l in &logical {
            if let Some(_n) = first_label(l) {
                blocks.push(Block { phis: vec![], insts: vec![] });
                continue;
            }
            let b = blocks.last_mut().unwrap();
            let t = l.trim_start();
            if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                continue;
            }
            p.inst(tm, l, b);
        }
        Func { name: name.clone(), params, ret, blocks, nregs: p.n as usize }
    }
}

fn fname(line: &str) -> String {
    let p = line.find('@').unwrap();
    let mut l = Lex::new(&line[p..]);
    match l.next() {
        Tok::G(n) => n,
        _ => panic!("fname"),
    }
}

struct FP<'a> {
    m: &'a Module,
    regs: HashMap<String, u32>,
    n: u32,
    blocks: HashMap<String, u32>,
    nb: u32,
}

impl<'a> FP<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.n;
        self.n += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn block(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.blocks.get(n) {
            return r;
        }
        let r = self.nb;
        self.nb += 1;
        self.blocks.insert(n.to_string(), r);
        r
    }
    fn opnd(&mut self, tm: &mut Terms, c: &mut Cur, ty: &Ty) -> Opnd {
        match c.peek() {
            Tok::L(n) => {
                let n = n.clone();
                c.i += 1;
                Opnd::R(self.reg(&n))
            }
            _ => Opnd::C(self.m.parse_const(tm, c, ty)),
        }
    }
    fn tyopnd(&mut self, tm: &mut Terms, c: &mut Cur) -> (Ty, Opnd) {
        let t = self.m.parse_ty(c);
        c.skip_attrs();
        let o = self.opnd(tm, c, &t);
        (t, o)
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        // label %x
        c.word();
        match c.next() {
            Tok::L(n) => self.block(&n),
            t => panic!("label {:?}", t),
        }
    }
    fn skip_words(&self, c: &mut Cur, ws: &[&str]) {
        while let Tok::W(w) = c.peek() {
            if ws.contains(&w.as_str()) {
                c.i += 1;
            } else {
                break;
            }
        }
    }
    fn inst(&mut self, tm: &mut Terms, line: &str, blk: &mut Block) {
        let mut c = Cur::of(line);
        let mut d: Option<u32> = None;
        if let Tok::L(n) = c.peek() {
            let n = n.clone();
            c.i += 1;
            c.expect('=');
            d = Some(self.reg(&n));
        }
        let mut op = c.word();
        while matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = c.word();
        }
        let dd = d.unwrap_or(u32::MAX);
        let bin = |o: &str| -> Option<BinOp> {
            Some(match o {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "urem" => BinOp::URem,
                "sdiv" => BinOp::SDiv,
                "srem" => BinOp::SRem,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                _ => return None,
            })
        };
        if let Some(bo) = bin(&op) {
            self.skip_words(&mut c, &["nuw", "nsw", "exact", "disjoint"]);
            let (t, a) = self.tyopnd(tm, &mut c);
            c.expect(',');
            let b = self.opnd(tm, &mut c, &t);
            let w = match &t {
                Ty::Vec(_, e) => e.bits(),
                _ => t.bits(),
            };
            blk.insts.push(Inst::Bin { d: dd, op: bo, w, a, b });
            return;
        }
        let i = match op.as_str() {
            "icmp" => {
                let mut p = c.word();
                if p == "samesign" {
                    p = c.word();
                }
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => panic!("pred {}", x),
                };
                let (t, a) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let b = self.opnd(tm, &mut c, &t);
                Inst::ICmp { d: dd, p, a, b }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                self.skip_words(&mut c, &["nuw", "nsw", "nneg"]);
                let (t, a) = self.tyopnd(tm, &mut c);
                c.word();
                let to = self.m.parse_ty(&mut c);
                let k = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "bitcast" => CastOp::Bit,
                    _ => {
                        if t.bits() > to.bits() {
                            CastOp::Trunc
                        } else {
                            CastOp::ZExt
                        }
                    }
                };
                Inst::Cast { d: dd, op: k, from: t, to, a }
            }
            "getelementptr" => {
                self.skip_words(&mut c, &["inbounds", "nuw", "nusw"]);
                if c.is_w("inrange") {
                    c.i += 1;
                    c.skip_parens();
                }
                let ety = self.m.parse_ty(&mut c);
                c.expect(',');
                let (_, base) = self.tyopnd(tm, &mut c);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = ety;
                let mut k = 0;
                while c.eat(',') {
                    if matches!(c.peek(), Tok::Bang) {
                        break;
                    }
                    let (it, o) = self.tyopnd(tm, &mut c);
                    let (scale, next): (u64, Option<Ty>) = if k == 0 {
                        (cur.size(), None)
                    } else {
                        match &cur {
                            Ty::Array(_, t) | Ty::Vec(_, t) => (t.size(), Some((**t).clone())),
                            Ty::Struct(ts, _) => {
                                if let Opnd::C(v) = &o {
                                    let i = tm.k(v.s()).unwrap() as usize;
                                    off += cur.layout().0[i] as i64;
                                    let nt = ts[i].clone();
                                    cur = nt;
                                    k += 1;
                                    continue;
                                }
                                panic!("gep struct idx")
                            }
                            _ => panic!("gep"),
                        }
                    };
                    match &o {
                        Opnd::C(v) => {
                            let w = it.bits();
                            off = off.wrapping_add((crate::term::to_signed(tm.k(v.s()).unwrap(), w) as i64).wrapping_mul(scale as i64));
                        }
                        _ => idx.push((o, it.bits(), scale)),
                    }
                    if let Some(n) = next {
                        cur = n;
                    }
                    k += 1;
                }
                Inst::Gep { d: dd, base, off, idx }
            }
            "load" => {
                self.skip_words(&mut c, &["atomic", "volatile"]);
                let ty = self.m.parse_ty(&mut c);
                c.expect(',');
                let (_, p) = self.tyopnd(tm, &mut c);
                Inst::Load { d: dd, ty, p }
            }
            "store" => {
                self.skip_words(&mut c, &["atomic", "volatile"]);
                let (ty, v) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let (_, p) = self.tyopnd(tm, &mut c);
                Inst::Store { ty, v, p }
            }
            "alloca" => {
                self.skip_words(&mut c, &["inalloca"]);
                let ty = self.m.parse_ty(&mut c);
                let mut align = ty.align();
                let mut count = None;
                while c.eat(',') {
                    if c.eat_w("align") {
                        if let Tok::N(n) = c.next() {
                            align = n.parse().unwrap();
                        }
                    } else if matches!(c.peek(), Tok::Bang) {
                        break;
                    } else {
                        count = Some(self.tyopnd(tm, &mut c).1);
                    }
                }
                Inst::Alloca { d: dd, size: ty.size(), align, count }
            }
            "select" => {
                let (_, cc) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let (_, a) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let (_, b) = self.tyopnd(tm, &mut c);
                Inst::Select { d: dd, c: cc, a, b }
            }
            "phi" => {
                let ty = self.m.parse_ty(&mut c);
                let mut inc = vec![];
                loop {
                    if !c.eat('[') {
                        break;
                    }
                    let v = self.opnd(tm, &mut c, &ty);
                    c.expect(',');
                    let b = match c.next() {
                        Tok::L(n) => self.block(&n),
                        t => panic!("phi {:?}", t),
                    };
                    c.expect(']');
                    inc.push((b, v));
                    if !c.eat(',') {
                        break;
                    }
                }
                blk.phis.push((dd, inc));
                return;
            }
            "extractvalue" => {
                let (_, a) = self.tyopnd(tm, &mut c);
                let mut idx = vec![];
                while c.eat(',') {
                    if let Tok::N(n) = c.next() {
                        idx.push(n.parse().unwrap());
                    } else {
                        break;
                    }
                }
                Inst::ExtractV { d: dd, a, idx }
            }
            "insertvalue" => {
                let (ty, a) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let (_, v) = self.tyopnd(tm, &mut c);
                let mut idx = vec![];
                while c.eat(',') {
                    if let Tok::N(n) = c.next() {
                        idx.push(n.parse().unwrap());
                    } else {
                        break;
                    }
                }
                Inst::InsertV { d: dd, ty, a, v, idx }
            }
            "extractelement" => {
                let (_, a) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let (_, i) = self.tyopnd(tm, &mut c);
                Inst::ExtractE { d: dd, a, i }
            }
            "insertelement" => {
                let (t, a) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let (_, v) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let (_, i) = self.tyopnd(tm, &mut c);
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                Inst::InsertE { d: dd, n, a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let (_, b) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let mt = self.m.parse_ty(&mut c);
                let mv = self.m.parse_const(tm, &mut c, &mt);
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                let m = match mv {
                    Val::A(v) => v.iter().map(|x| tm.k(x.s()).unwrap() as i64).collect(),
                    _ => vec![],
                };
                Inst::Shuffle { d: dd, a, b, m, n }
            }
            "call" | "invoke" => {
                c.skip_to_ty();
                let ret = self.m.parse_ty(&mut c);
                if c.is_p('(') {
                    c.skip_parens();
                }
                let callee = match c.next() {
                    Tok::G(n) => {
                        let n: Rc<str> = Rc::from(n.as_str());
                        Callee::Named(self.m.alias.get(&n).cloned().unwrap_or(n))
                    }
                    Tok::L(n) => Callee::Ind(Opnd::R(self.reg(&n))),
                    Tok::W(w) if w == "asm" => {
                        // asm flags "..." , "..."
                        while !c.is_p('(') {
                            c.i += 1;
                        }
                        Callee::Asm
                    }
                    Tok::W(w) if w == "inttoptr" || w == "null" => {
                        c.i -= 1;
                        let v = self.m.parse_const(tm, &mut c, &Ty::Ptr);
                        Callee::Ind(Opnd::C(v))
                    }
                    t => panic!("callee {:?} in {}", t, line),
                };
                c.expect('(');
                let mut args = vec![];
                while !c.eat(')') {
                    let t = self.m.parse_ty(&mut c);
                    if t == Ty::Other {
                        // metadata operand: skip to , or ) at depth 0
                        let mut dep = 0;
                        loop {
                            match c.peek() {
                                Tok::P('(') | Tok::P('{') => dep += 1,
                                Tok::P(')') if dep == 0 => break,
                                Tok::P(')') | Tok::P('}') => dep -= 1,
                                Tok::P(',') if dep == 0 => break,
                                Tok::Eof => panic!("metadata arg"),
                                _ => {}
                            }
                            c.i += 1;
                        }
                    } else {
                        c.skip_attrs();
                        let o = self.opnd(tm, &mut c, &t);
                        args.push((t, o));
                    }
                    c.eat(',');
                }
                let mut normal = None;
                if op == "invoke" {
                    while !c.is_w("to") {
                        c.i += 1;
                    }
                    c.i += 1;
                    normal = Some(self.label(&mut c));
                }
                if let Callee::Named(n) = &callee {
                    if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") {
                        blk.insts.push(Inst::Nop);
                        return;
                    }
                }
                Inst::Call { d, callee, args, ret, normal }
            }
            "br" => {
                if c.is_w("label") {
                    Inst::Br(self.label(&mut c))
                } else {
                    let (_, cc) = self.tyopnd(tm, &mut c);
                    c.expect(',');
                    let a = self.label(&mut c);
                    c.expect(',');
                    let b = self.label(&mut c);
                    Inst::CondBr(cc, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let def = self.label(&mut c);
                c.expect('[');
                let mut cases = vec![];
                while !c.eat(']') {
                    let ct = self.m.parse_ty(&mut c);
                    let k = self.m.parse_const(tm, &mut c, &ct).s();
                    c.expect(',');
                    let l = self.label(&mut c);
                    cases.push((k, l));
                }
                let _ = t;
                Inst::Switch { v, def, cases }
            }
            "ret" => {
                if c.is_w("void") {
                    Inst::Ret(None)
                } else {
                    let (_, v) = self.tyopnd(tm, &mut c);
                    Inst::Ret(Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "atomicrmw" => {
                self.skip_words(&mut c, &["volatile"]);
                let o = c.word();
                let (_, p) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let (ty, v) = self.tyopnd(tm, &mut c);
                Inst::Rmw { d: dd, op: o, ty, p, v }
            }
            "cmpxchg" => {
                self.skip_words(&mut c, &["weak", "volatile"]);
                let (_, p) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let (ty, cc) = self.tyopnd(tm, &mut c);
                c.expect(',');
                let (_, n) = self.tyopnd(tm, &mut c);
                Inst::CmpXchg { d: dd, ty, p, c: cc, n }
            }
            "freeze" => {
                let (_, a) = self.tyopnd(tm, &mut c);
                Inst::Freeze { d: dd, a }
            }
            "fence" => Inst::Nop,
            _ => Inst::Unsupported(line.trim().to_string()),
        };
        blk.insts.push(i);
    }
}
