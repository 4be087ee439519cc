//! Symbolic executor over the parsed LLVM IR.
use crate::ir::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub data: Vec<T>,
    pub writable: bool,
    pub heap: bool,
}

pub struct FuncC {
    pub f: Func,
    pub id: usize,
}

#[derive(Clone)]
pub struct Frame {
    pub f: &'static FuncC,
    pub regs: Vec<Val>,
    pub bb: u32,
    pub pc: u32,
    pub prev: u32,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub next: u64,
    pub pc: Vec<T>,
    pub known: FxMap<T, bool>,
    pub model: Option<Rc<Model>>,
    pub mid: u64,
    pub occ: HashMap<String, u32>,
    pub steps: u64,
    pub allow_panic: bool,
    /// what runs now must not let its steps depend on the inputs
    pub secret: bool,
    pub notes: Vec<String>,
    pub live_heap: u64,
    pub peak_heap: u64,
    pub dom: FxMap<u32, [u64; 4]>, // values still possible for variables of at most 8 bits
    pub multi: FxMap<u32, ()>,     // variables that occur in a constraint with others
}

#[derive(Debug)]
pub enum Halt {
    End,
    Killed,
    Panic(String),
    Bad(String, String),   // violation kind, message (path ends)
    Incomplete(String),
}
type R<X> = Result<X, Halt>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum CK {
    Def(usize),
    Llvm,
    Sx,
    Panic,
    Builtin,
    Missing,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub model: Vec<(String, u128, u32)>,
    /// (for a pair of inputs) the second one
    pub other: Vec<(String, u128, u32)>,
    pub notes: Vec<String>,
}

/// integer expressions of a harness
pub enum XN {
    U(T),
    S(T),
    K(Vec<u8>),
    V(u32),
    Op(u8, u32, u32),
}
pub struct Exec {
    pub show_queries: bool,
    pub xs: Vec<XN>,
    pub claims: Vec<([u32; 4], String, Vec<T>)>,
    pub m: Module,
    pub tm: Terms,
    pub sv: Solver,
    funcs: Vec<&'static FuncC>,
    fmap: HashMap<Rc<str>, (CK, Rc<str>)>,
    pub fsteps: Vec<u64>,
    pub redirects: Vec<(Vec<String>, String)>,
    pub redirect_used: HashMap<String, String>,
    consts: HashMap<usize, Rc<Obj>>,
    gaddrs: Vec<u64>,
    stack: Vec<State>,
    cur_mid: u64,
    next_mid: u64,
    uninit: T,
    pub params: Vec<u64>,
    pub violations: Vec<Violation>,
    vkeys: HashMap<String, u32>,
    pub incomplete: Vec<String>,
    /// inputs of paths that did not come to an end
    pub hangs: Vec<Vec<(String, u128, u32)>>,
    leaks: u32,
    pub longest: u64,
    pub paths: u64,
    pub ended: u64,
    pub killed: u64,
    pub panicked: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts: u64,
    pub asserts_trivial: u64,
    pub assert_ids: BTreeMap<String, u64>,
    pub reached: BTreeMap<String, u64>,
    /// for each point reached, values that lead there
    pub witnesses: Vec<(String, Vec<(String, u128, u32)>)>,
    pub step_limit: u64,
    pub path_step_limit: u64,
    pub deadline: Option<Instant>,
    pub symcopy: bool,
    pub max_paths: u64,
    pub trace: bool,
    tts: FxMap<T, Option<(u32, [u64; 4])>>,
    pub small: u64,
    maps: FxMap<T, (Rc<[u8; 256]>, T)>,
    pub missing: HashSet<String>,
    pub sweep: crate::sweep::Sweep,
    pub fixed: Option<HashMap<String, u128>>, // concrete replay inside the engine
}

const PANICS: &[&str] = &[
    "4core9panicking",
    "6option13expect_failed",
    "6option13unwrap_failed",
    "6result13unwrap_failed",
    "5slice5index16slice_index_fail",
    "slice_start_index_len_fail",
    "slice_end_index_len_fail",
    "slice_index_order_fail",
    "slice_start_index_overflow_fail",
    "slice_end_index_overflow_fail",
    "18handle_alloc_error",
    "17capacity_overflow",
    "12handle_error",
    "len_mismatch_fail",
    "15slice_error_fail",
    "22panic_already_borrowed",
    "30panic_already_mutably_borrowed",
    "3std9panicking",
    "5alloc5alloc18handle_alloc",
    "rust_begin_unwind",
    "rust_panic",
    "9panicking11begin_panic",
    "3std7process5abort",
    "14abort_internal",
];

pub fn demangle(n: &str) -> String {
    // readable approximation of a v0 / legacy mangled name: the identifiers in order
    let b = n.as_bytes();
    if !(n.starts_with("_R") || n.starts_with("_ZN")) {
        return n.to_string();
    }
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b'C' && i + 1 < b.len() && b[i + 1] == b's' {
            // crate root with disambiguator: Cs<base62>_<len><name>
            if let Some(p) = n[i..].find('_') {
                i += p + 1;
                continue;
            }
        }
        if (b[i] == b'B' || b[i] == b's') && i + 1 < b.len() {
            // back-reference or disambiguator: skip to '_'
            if let Some(p) = n[i + 1..].find('_') {
                let seg = &n[i + 1..i + 1 + p];
                if seg.len() <= 4 && seg.bytes().all(|c| c.is_ascii_alphanumeric()) {
                    i += p + 2;
                    continue;
                }
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut s = j;
            if s < b.len() && b[s] == b'_' {
                s += 1;
            }
            if l > 0 && s + l <= b.len() {
                out.push(n[s..s + l].to_string());
                i = s + l;
                continue;
            }
        }
        i += 1;
    }
    if out.is_empty() {
        return n.to_string();
    }
    out.join("::")
}

fn glob(parts: &[String], n: &str) -> bool {
    // parts separated by '*'; first part may start with ^ ; last may end with $
    let mut pos = 0;
    for (i, p) in parts.iter().enumerate() {
        let end = i == parts.len() - 1 && p.ends_with('$');
        let q = if end { &p[..p.len() - 1] } else { p.as_str() };
        if end {
            if !n[pos..].ends_with(q) {
                return false;
            }
            continue;
        }
        match n[pos..].find(q) {
            Some(k) => pos += k + q.len(),
            None => return false,
        }
    }
    true
}

impl Exec {
    pub fn new(src: String) -> Exec {
        let m = Module::load(src);
        let mut tm = Terms::new();
        let uninit = tm.var("uninit", 8);
        let gaddrs = m.gdefs.iter().map(|g| g.addr).collect();
        Exec {
            m,
            tm,
            sv: Solver::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            fsteps: vec![],
            redirects: vec![],
            redirect_used: HashMap::new(),
            consts: HashMap::new(),
            gaddrs,
            stack: vec![],
            cur_mid: 0,
            next_mid: 1,
            uninit,
            params: vec![],
            violations: vec![],
            vkeys: HashMap::new(),
            incomplete: vec![],
            hangs: vec![],
            leaks: 0,
            longest: 0,
            paths: 0,
            ended: 0,
            killed: 0,
            panicked: 0,
            forks: 0,
            steps: 0,
            asserts: 0,
            asserts_trivial: 0,
            assert_ids: BTreeMap::new(),
            reached: BTreeMap::new(),
            witnesses: vec![],
            step_limit: 4_000_000_000,
            path_step_limit: 1_000_000_000,
            deadline: None,
            symcopy: false,
            max_paths: 1_000_000,
            trace: false,
            tts: Default::default(),
            small: 0,
            maps: Default::default(),
            missing: HashSet::new(),
            fixed: None,
            sweep: Default::default(),
            show_queries: std::env::var("SYMX_QUERIES").is_ok(),
            xs: vec![],
            claims: vec![],
        }
    }

    // ----- functions -----
    fn load_func(&mut self, n: &Rc<str>) -> usize {
        let f = self.m.parse_func(&mut self.tm, n);
        let id = self.funcs.len();
        let b: &'static FuncC = Box::leak(Box::new(FuncC { f, id }));
        self.funcs.push(b);
        self.fsteps.push(0);
        id
    }
    fn classify(&mut self, n: &Rc<str>) -> (CK, Rc<str>) {
        if let Some(k) = self.fmap.get(n) {
            return k.clone();
        }
        let mut target = n.clone();
        for (p, t) in &self.redirects {
            if glob(p, n) {
                let t: Rc<str> = Rc::from(t.as_str());
                if *t != **n && self.m.same_arity(n, &t) {
                    self.redirect_used.insert(n.to_string(), t.to_string());
                    target = t;
                    break;
                }
            }
        }
        let ck = if target.starts_with("llvm.") {
            CK::Llvm
        } else if target.starts_with("sx_") && !self.m.funcs.contains_key(&target) {
            CK::Sx
        } else if is_builtin(&target) {
            CK::Builtin
        } else if PANICS.iter().any(|p| target.contains(p)) && !target.contains("panic_count") && !target.contains("3std9panicking8panickin") && !target.contains("9panicking11panic_count") {
            CK::Panic
        } else if self.m.funcs.contains_key(&target) {
            let id = self.load_func(&target);
            CK::Def(id)
        } else {
            let ext: Rc<str> = Rc::from(format!("sx_ext_{}", target).as_str());
            if self.m.funcs.contains_key(&ext) {
                let id = self.load_func(&ext);
                CK::Def(id)
            } else {
                CK::Missing
            }
        };
        self.fmap.insert(n.clone(), (ck, target.clone()));
        (ck, target)
    }

    // ----- model / path condition -----
    fn ev(&mut self, st: &State, t: T) -> Option<u128> {
        if let Some(k) = self.tm.k(t) {
            return Some(k);
        }
        let m = st.model.clone()?;
        if self.cur_mid != st.mid {
            self.tm.new_eval();
            self.cur_mid = st.mid;
        }
        Some(self.tm.eval(t, &|v| m.get(&v).copied().unwrap_or(0)))
    }
    fn slice(&mut self, st: &State, c: T) -> Vec<T> {
        let mut vars: HashSet<u32> = self.tm.support(c).iter().cloned().collect();
        let mut inc = vec![false; st.pc.len()];
        let sups: Vec<Rc<[u32]>> = st.pc.iter().map(|&p| self.tm.support(p)).collect();
        loop {
            let mut ch = false;
            for i in 0..st.pc.len() {
                if !inc[i] && sups[i].iter().any(|v| vars.contains(v)) {
                    inc[i] = true;
                    ch = true;
                    vars.extend(sups[i].iter().cloned());
                }
            }
            if !ch {
                break;
            }
        }
        (0..st.pc.len()).filter(|&i| inc[i]).map(|i| st.pc[i]).collect()
    }
    /// truth table of a predicate over a single variable of at most 8 bits
    fn tt(&mut self, c: T) -> Option<(u32, [u64; 4])> {
        if let Some(r) = self.tts.get(&c) {
            return *r;
        }
        let sup = self.tm.support(c);
        let mut r = None;
        if sup.len() == 1 && self.tm.vars[sup[0] as usize].w <= 8 {
            let w = self.tm.vars[sup[0] as usize].w;
            let mut t = [0u64; 4];
            for x in 0..(1u128 << w) {
                self.tm.new_eval();
                if self.tm.eval(c, &|_| x) == 1 {
                    t[(x >> 6) as usize] |= 1 << (x & 63);
                }
            }
            self.cur_mid = 0;
            r = Some((sup[0], t));
        }
        self.tts.insert(c, r);
        r
    }
    /// branch feasibility; conditions over one small variable are decided on its domain
    fn feasible(&mut self, st: &State, c: T) -> (Res, Option<Rc<Model>>) {
        if c != FALSE && st.model.is_some() {
            let mut budget = 64;
            if let Some(r) = self.small_feasible(st, c, &mut budget) {
                self.small += 1;
                return match r {
                    None => (Res::Unsat, None),
                    Some(l) => {
                        let mut mm = (**st.model.as_ref().unwrap()).clone();
                        for (v, x) in l {
                            mm.insert(v, x);
                        }
                        (Res::Sat, Some(Rc::new(mm)))
                    }
                };
            }
        }
        self.feasible_smt(st, c)
    }
    /// Decide c on the domains of its variables when it is a disjunction of conditions on single
    /// small variables (or a conjunction over different ones); None: not applicable.
    fn small_feasible(&mut self, st: &State, c: T, budget: &mut u32) -> Option<Option<Vec<(u32, u128)>>> {
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        if c == FALSE {
            return Some(None);
        }
        if let Some((v, t)) = self.tt(c) {
            if st.multi.contains_key(&v) {
                return None;
            }
            let d = st.dom.get(&v).copied().unwrap_or([u64::MAX; 4]);
            for i in 0..4 {
                let x = d[i] & t[i];
                if x != 0 {
                    return Some(Some(vec![(v, (i as u128) * 64 + x.trailing_zeros() as u128)]));
                }
            }
            return Some(None);
        }
        let mut n = self.tm.nodes[c as usize];
        let mut neg = false;
        if n.op == Op::Not && n.w == 1 {
            n = self.tm.nodes[n.a as usize];
            neg = true;
        }
        if n.w != 1 || !(n.op == Op::And || n.op == Op::Or) {
            return None;
        }
        let (a, b) = if neg { (self.tm.not(n.a), self.tm.not(n.b)) } else { (n.a, n.b) };
        if (n.op == Op::Or) != neg {
            let x = self.small_feasible(st, a, budget)?;
            if x.is_some() {
                return Some(x);
            }
            self.small_feasible(st, b, budget)
        } else {
            let (sa, sb) = (self.tm.support(a), self.tm.support(b));
            if sa.iter().any(|v| sb.binary_search(v).is_ok()) {
                return None;
            }
            let x = match self.small_feasible(st, a, budget)? {
                None => return Some(None),
                Some(x) => x,
            };
            let y = match self.small_feasible(st, b, budget)? {
                None => return Some(None),
                Some(y) => y,
            };
            let mut l = x;
            l.extend(y);
            Some(Some(l))
        }
    }
    fn track(&mut self, st: &mut State, c: T) {
        match self.tt(c) {
            Some((v, t)) => {
                let d = st.dom.entry(v).or_insert([u64::MAX; 4]);
                for i in 0..4 {
                    d[i] &= t[i];
                }
            }
            None => {
                for v in self.tm.support(c).iter() {
                    st.multi.insert(*v, ());
                }
            }
        }
    }
    /// is pc /\ c satisfiable?
    fn feasible_smt(&mut self, st: &State, c: T) -> (Res, Option<Rc<Model>>) {
        if c == FALSE {
            return (Res::Unsat, None);
        }
        let mut a = self.slice(st, c);
        a.push(c);
        if self.show_queries {
            eprintln!("QUERY {} in {:?}", self.show(c, 7), self.stack_names(st).first());
        }
        let (r, m) = self.sv.check(&mut self.tm, &a);
        if r == Res::Sat {
            let mut mm: Model = match &st.model {
                Some(b) => (**b).clone(),
                None => Model::new(),
            };
            if st.model.is_none() {
                // need a model of everything
                let mut all = st.pc.clone();
                all.push(c);
                let (r2, m2) = self.sv.check(&mut self.tm, &all);
                return (r2, m2);
            }
            if let Some(m) = m {
                for (k, v) in m.iter() {
                    mm.insert(*k, *v);
                }
            }
            return (Res::Sat, Some(Rc::new(mm)));
        }
        if r == Res::Unknown {
            if let Some(m) = self.narrow(st, c) {
                return (Res::Sat, Some(m));
            }
        }
        (r, None)
    }
    /// look for a solution with most of the unknowns zero: those of one index stay free
    fn narrow(&mut self, st: &State, c: T) -> Option<Rc<Model>> {
        let mut all = st.pc.clone();
        all.push(c);
        let mut vs: Vec<u32> = vec![];
        for &t in &all {
            vs.extend(self.tm.support(t).iter());
        }
        vs.sort_unstable();
        vs.dedup();
        let group = |n: &str| -> String { n.split_once('#').map(|x| x.1.to_string()).unwrap_or_default() };
        let names: Vec<String> = vs.iter().map(|&v| group(&self.tm.vars[v as usize].name)).collect();
        let mut gs = names.clone();
        gs.sort();
        gs.dedup();
        if gs.len() < 2 || gs.len() > 16 {
            return None;
        }
        let old = self.sv.hard_ms;
        self.sv.hard_ms = old.min(20000);
        let mut found = None;
        for g in &gs {
            let mut a = all.clone();
            for (i, &v) in vs.iter().enumerate() {
                if names[i] != *g {
                    let (t, w) = (self.tm.vars[v as usize].term, self.tm.vars[v as usize].w);
                    let z = self.tm.c(0, w);
                    a.push(self.tm.eq(t, z));
                }
            }
            if let (Res::Sat, m) = self.sv.check(&mut self.tm, &a) {
                found = m;
                break;
            }
        }
        self.sv.hard_ms = old;
        found
    }
    fn learn(&mut self, st: &mut State, c: T, v: bool) {
        st.known.insert(c, v);
        let n = self.tm.not(c);
        st.known.insert(n, !v);
        let nd = self.tm.nodes[c as usize];
        match (nd.op, v) {
            (Op::And, true) | (Op::Or, false) => {
                self.learn(st, nd.a, v);
                self.learn(st, nd.b, v);
            }
            (Op::Not, _) => {
                if !st.known.contains_key(&nd.a) {
                    self.learn(st, nd.a, !v);
                }
            }
            _ => {}
        }
    }
    fn add_pc(&mut self, st: &mut State, c: T) {
        if c == TRUE {
            return;
        }
        // split conjunctions so that slicing stays sharp
        let nd = self.tm.nodes[c as usize];
        if nd.op == Op::And && nd.w == 1 {
            self.add_pc(st, nd.a);
            self.add_pc(st, nd.b);
            st.known.insert(c, true);
            let n = self.tm.not(c);
            st.known.insert(n, false);
            return;
        }
        if st.known.get(&c) != Some(&true) {
            st.pc.push(c);
            self.track(st, c);
        }
        self.learn(st, c, true);
    }
    fn set_model(&mut self, st: &mut State, m: Option<Rc<Model>>) {
        st.model = m;
        st.mid = self.next_mid;
        self.next_mid += 1;
    }
    /// Decide a condition on this path; pushes a sibling that re-executes the current
    /// instruction when both values are possible.
    fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if c == TRUE {
            return Ok(true);
        }
        if c == FALSE {
            return Ok(false);
        }
        if let Some(&v) = st.known.get(&c) {
            return Ok(v);
        }
        if self.tm.support(c).binary_search(&self.tm.nodes[self.uninit as usize].a).is_ok() {
            return Err(Halt::Bad("uninit".into(), "branch on uninitialised memory".into()));
        }
        let nc = self.tm.not(c);
        match self.ev(st, c) {
            Some(v) => {
                let (same, other) = if v == 1 { (c, nc) } else { (nc, c) };
                let (r, m) = self.feasible(st, other);
                match r {
                    Res::Unsat => {
                        self.learn(st, same, true);
                    }
                    Res::Sat | Res::Unknown => {
                        if st.secret {
                            let m0 = st.model.clone();
                            self.leak(st, "a branch depends on secret input", m0, m.clone());
                        }
                        let mut sib = st.clone();
                        self.add_pc(&mut sib, other);
                        if r == Res::Unknown {
                            self.note_incomplete(st, "solver gave no answer at a branch (both sides explored)".into(), false);
                            self.set_model(&mut sib, None);
                        } else {
                            self.set_model(&mut sib, m);
                        }
                        self.forks += 1;
                        self.stack.push(sib);
                        self.add_pc(st, same);
                    }
                }
                Ok(v == 1)
            }
            None => {
                let (rt, mt) = self.feasible(st, c);
                let (rf, mf) = self.feasible(st, nc);
                match (rt, rf) {
                    (Res::Unsat, Res::Unsat) => Err(Halt::Killed),
                    (Res::Unsat, _) => {
                        self.add_pc(st, nc);
                        if mf.is_some() {
                            self.set_model(st, mf);
                        }
                        Ok(false)
                    }
                    (_, Res::Unsat) => {
                        self.add_pc(st, c);
                        if mt.is_some() {
                            self.set_model(st, mt);
                        }
                        Ok(true)
                    }
                    _ => {
                        if st.secret {
                            self.leak(st, "a branch depends on secret input", mt.clone(), mf.clone());
                        }
                        let mut sib = st.clone();
                        self.add_pc(&mut sib, nc);
                        self.set_model(&mut sib, mf);
                        self.stack.push(sib);
                        self.forks += 1;
                        self.add_pc(st, c);
                        self.set_model(st, mt);
                        Ok(true)
                    }
                }
            }
        }
    }
    fn concretize(&mut self, st: &mut State, t: T) -> R<u128> {
        if let Some(k) = self.tm.k(t) {
            return Ok(k);
        }
        // a known equality?
        loop {
            let v = match self.ev(st, t) {
                Some(v) => v,
                None => {
                    let (r, m) = self.feasible(st, TRUE);
                    match r {
                        Res::Sat => {
                            self.set_model(st, m);
                            continue;
                        }
                        Res::Unsat => return Err(Halt::Killed),
                        _ => return Err(Halt::Incomplete("no model for concretisation".into())),
                    }
                }
            };
            let k = {
                let w = self.tm.w(t);
                self.tm.c(v, w)
            };
            let e = self.tm.eq(t, k);
            if self.decide(st, e)? {
                return Ok(v);
            }
            // model changed (cannot happen when the model is valid)
            return Err(Halt::Incomplete("concretisation".into()));
        }
    }
    fn assume(&mut self, st: &mut State, c: T) -> R<()> {
        if c == TRUE {
            return Ok(());
        }
        if c == FALSE {
            return Err(Halt::Killed);
        }
        if let Some(&v) = st.known.get(&c) {
            return if v { Ok(()) } else { Err(Halt::Killed) };
        }
        if self.ev(st, c) == Some(1) {
            self.add_pc(st, c);
            return Ok(());
        }
        let (r, m) = self.feasible(st, c);
        match r {
            Res::Unsat => Err(Halt::Killed),
            Res::Sat => {
                self.add_pc(st, c);
                self.set_model(st, m);
                Ok(())
            }
            Res::Unknown => {
                self.add_pc(st, c);
                self.set_model(st, None);
                self.note_incomplete(st, "assumption feasibility unknown".into(), false);
                Ok(())
            }
        }
    }
    fn note_incomplete(&mut self, st: &State, msg: String, fatal: bool) {
        let at = st.frames.last().map(|f| demangle(&f.f.f.name)).unwrap_or_default();
        if self.incomplete.len() < 200 {
            self.incomplete.push(format!("{}{} in {}", if fatal { "" } else { "(soft) " }, msg, at));
        }
    }
    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&f.f.f.name)).collect()
    }
    fn named_model(&mut self, m: &Model) -> Vec<(String, u128, u32)> {
        let mut v: Vec<(String, u128, u32)> = self
            .tm
            .vars
            .iter()
            .enumerate()
            .map(|(i, x)| (x.name.clone(), m.get(&(i as u32)).copied().unwrap_or(0), x.w))
            .collect();
        v.retain(|x| x.0 != "uninit");
        v
    }
    fn report(&mut self, st: &State, kind: &str, msg: &str, m: Option<Rc<Model>>) {
        let stack = self.stack_names(st);
        let key = format!("{}|{}|{}", kind, msg, stack.iter().take(4).cloned().collect::<Vec<_>>().join("<"));
        let n = self.vkeys.entry(key).or_insert(0);
        *n += 1;
        if *n > 6 || self.violations.len() >= 60 {
            return;
        }
        let model = match m {
            Some(m) => self.named_model(&m),
            None => vec![],
        };
        self.violations.push(Violation { kind: kind.into(), msg: msg.into(), stack, model, other: vec![], notes: st.notes.clone() });
    }
    fn leak(&mut self, st: &State, what: &str, a: Option<Rc<Model>>, b: Option<Rc<Model>>) {
        let stack = self.stack_names(st);
        if st.frames.iter().any(|f| f.f.f.name.starts_with("st_")) {
            return;
        }
        self.leaks += 1;
        if self.leaks >= 4 {
            // enough to report; the paths double with every further one
            self.deadline = Some(Instant::now());
        }
        let key = format!("leak|{}", stack.iter().take(2).cloned().collect::<Vec<_>>().join("<"));
        let n = self.vkeys.entry(key).or_insert(0);
        *n += 1;
        if *n > 2 || self.violations.len() >= 20 {
            return;
        }
        let at = stack.first().cloned().unwrap_or_default();
        let model = a.map(|m| self.named_model(&m)).unwrap_or_default();
        let other = b.map(|m| self.named_model(&m)).unwrap_or_default();
        self.violations.push(Violation { kind: "secret".into(), msg: format!("{} in {}", what, at), stack, model, other, notes: st.notes.clone() });
    }
    /// a counterexample whose differences (inputs named d...) are zero wherever possible, so that
    /// it does not depend on what the stand-ins would return
    fn simplest(&mut self, st: &State, c: T, m: Option<Rc<Model>>) -> Option<Rc<Model>> {
        // (name, number of the use) -> bytes
        let mut groups: Vec<(String, usize, Vec<(usize, T)>)> = vec![];
        for v in self.tm.vars.iter() {
            let (base, rest) = match v.name.split_once('#') {
                Some(x) => x,
                None => continue,
            };
            let (k, i) = match rest.split_once('[') {
                Some((k, i)) => (k, i.trim_end_matches(']').parse().ok().unwrap_or(0)),
                None => (rest, 0),
            };
            let k = k.parse().ok().unwrap_or(0);
            match groups.iter_mut().find(|x| x.0 == base && x.1 == k) {
                Some(x) => x.2.push((i, v.term)),
                None => groups.push((base.to_string(), k, vec![(i, v.term)])),
            }
        }
        for g in groups.iter_mut() {
            g.2.sort();
        }
        let mut work: Vec<(bool, Vec<T>)> = vec![];
        for (base, _, g) in groups.iter().rev() {
            if base.starts_with('d') && !["d", "d2", "data", "digest"].contains(&base.as_str()) {
                let mut l = vec![];
                for &(_, t) in g {
                    let z = self.tm.c(0, self.tm.w(t));
                    l.push(self.tm.eq(t, z));
                }
                work.push((true, l));
            }
        }
        // a second use of the same input: as the first
        for (base, k, g) in groups.iter().rev() {
            let f = match groups.iter().find(|x| x.0 == *base && x.1 == 0) {
                Some(f) if *k > 0 && !base.starts_with('d') && f.2.len() == g.len() => f,
                _ => continue,
            };
            let mut l = vec![];
            for (x, y) in f.2.iter().zip(g.iter()) {
                if self.tm.w(x.1) == self.tm.w(y.1) {
                    l.push(self.tm.eq(x.1, y.1));
                }
            }
            work.push((false, l));
        }
        let mut best = m;
        let mut c = c;
        let t0 = std::time::Instant::now();
        let mut tries = 0;
        while let Some((split, g)) = work.pop() {
            if tries >= 120 || t0.elapsed().as_secs() > 10 {
                break;
            }
            tries += 1;
            let mut n = c;
            for &e in g.iter() {
                n = self.tm.and(n, e);
            }
            if n == c {
                continue;
            }
            if let (Res::Sat, Some(m)) = self.feasible_smt(st, n) {
                best = Some(m);
                c = n;
            } else if g.len() > 1 && split {
                let (a, b) = g.split_at(g.len() / 2);
                work.push((true, b.to_vec()));
                work.push((true, a.to_vec()));
            }
        }
        best
    }
    fn assert_(&mut self, st: &mut State, c: T, msg: &str) -> R<()> {
        *self.assert_ids.entry(msg.to_string()).or_insert(0) += 1;
        self.asserts += 1;
        if c == TRUE || st.known.get(&c) == Some(&true) {
            self.asserts_trivial += 1;
            return Ok(());
        }
        let nc = self.tm.not(c);
        let (r, m) = self.feasible_smt(st, nc);
        match r {
            Res::Unsat => {
                self.learn(st, c, true);
                Ok(())
            }
            Res::Sat => {
                let m = if self.violations.len() < 60 { self.simplest(st, nc, m) } else { m };
                self.report(st, "assert", msg, m);
                self.assume(st, c)
            }
            Res::Unknown => {
                self.note_incomplete(st, format!("assertion '{}' undecided", msg), true);
                self.assume(st, c)
            }
        }
    }

    // ----- memory -----
    fn gobj(&mut self, gi: usize) -> Rc<Obj> {
        if let Some(o) = self.consts.get(&gi) {
            return o.clone();
        }
        let data = self.m.global_bytes(&mut self.tm, gi);
        let g = &self.m.gdefs[gi];
        let o = Rc::new(Obj { base: g.addr, size: g.size, data, writable: !g.constant, heap: false });
        self.consts.insert(gi, o.clone());
        o
    }
    fn find(&mut self, st: &State, a: u64) -> Option<Rc<Obj>> {
        if a >= 0x1000_0000 && a < 0x4000_0000 {
            if let Some((_, o)) = st.mem.range(..=a).next_back() {
                if a - o.base <= o.size && o.base >= 0x1000_0000 {
                    return Some(o.clone());
                }
            }
            let i = self.gaddrs.partition_point(|&g| g <= a);
            if i == 0 {
                return None;
            }
            let g = &self.m.gdefs[i - 1];
            if a - g.addr <= g.size {
                return Some(self.gobj(i - 1));
            }
            return None;
        }
        let (_, o) = st.mem.range(..=a).next_back()?;
        if a - o.base <= o.size {
            Some(o.clone())
        } else {
            None
        }
    }
    fn oob<X>(&mut self, what: &str, a: u64, n: u64) -> R<X> {
        Err(Halt::Bad("memory".into(), format!("{} of {} bytes at {:#x} outside any object", what, n, a)))
    }
    fn check(&mut self, st: &State, a: u64, n: u64, what: &str) -> R<Rc<Obj>> {
        match self.find(st, a) {
            Some(o) if a >= o.base && a + n <= o.base + o.size => Ok(o),
            _ => self.oob(what, a, n),
        }
    }
    fn stride(&self, a: T) -> u64 {
        let n = self.tm.nodes[a as usize];
        let tz = |t: T| -> u32 {
            let n = self.tm.nodes[t as usize];
            if n.op == Op::Concat {
                let p = self.tm.cats[n.a as usize][0];
                if self.tm.k(p) == Some(0) {
                    return self.tm.w(p);
                }
            }
            0
        };
        match n.op {
            Op::Sum => {
                let (_, ts) = &self.tm.sums[n.a as usize];
                let mut s = 6;
                for (c, t) in ts.iter() {
                    s = s.min(c.trailing_zeros() + tz(*t));
                }
                1 << s
            }
            Op::Concat => 1 << tz(a).min(6),
            _ => 1,
        }
    }
    /// candidate concrete addresses of a symbolic pointer (all in one object) or a single one
    fn resolve(&mut self, st: &mut State, a: T, n: u64, what: &str) -> R<Vec<u64>> {
        if let Some(k) = self.tm.k(a) {
            self.check(st, k as u64, n, what)?;
            return Ok(vec![k as u64]);
        }
        // pointers that are a choice between constants: fork on the choice
        let nd = self.tm.nodes[a as usize];
        if nd.op == Op::Ite {
            let c = nd.a;
            let v = self.decide(st, c)?;
            let x = if v { nd.b } else { nd.c };
            return self.resolve(st, x, n, what);
        }
        if nd.op == Op::Sum {
            let (k, ts) = self.tm.sums[nd.a as usize].clone();
            for (i, (cf, t)) in ts.iter().enumerate() {
                let tn = self.tm.nodes[*t as usize];
                if tn.op == Op::Ite && *cf == 1 {
                    let v = self.decide(st, tn.a)?;
                    let mut items: Vec<(u128, T)> = ts.to_vec();
                    items[i].1 = if v { tn.b } else { tn.c };
                    let x = self.tm.lin(64, &items, k);
                    return self.resolve(st, x, n, what);
                }
            }
        }
        let v = loop {
            match self.ev(st, a) {
                Some(v) => break v as u64,
                None => {
                    let (r, m) = self.feasible(st, TRUE);
                    match r {
                        Res::Sat => self.set_model(st, m),
                        Res::Unsat => return Err(Halt::Killed),
                        _ => return Err(Halt::Incomplete("no model for address".into())),
                    }
                }
            }
        };
        if st.secret {
            let k = self.tm.c(v as u128, 64);
            let e = self.tm.eq(a, k);
            let ne = self.tm.not(e);
            let (r, m) = self.feasible(st, ne);
            if r != Res::Unsat {
                let m0 = st.model.clone();
                self.leak(st, "an address depends on secret input", m0, m);
            }
        }
        let o = self.check(st, v, n, what)?;
        let (lo, hi) = (self.tm.lo[a as usize], self.tm.hi[a as usize]);
        let (mut l, mut h) = (lo as u64, hi as u64);
        if !(l >= o.base && (h as u128) + n as u128 <= (o.base + o.size) as u128) {
            let b = self.tm.c(o.base as u128, 64);
            let off = self.tm.sub(a, b);
            let mx = self.tm.c((o.size - n) as u128, 64);
            let inb = self.tm.ule(off, mx);
            if !self.decide(st, inb)? {
                return Err(Halt::Incomplete("address resolution".into()));
            }
            l = l.max(o.base);
            h = h.min(o.base + o.size - n);
        }
        let s = self.stride(a);
        // align l to the stride class of v
        let phase = v % s;
        let mut first = l - l % s + phase;
        if first < l {
            first += s;
        }
        let cnt = (h - first) / s + 1;
        if cnt > 300 {
            let v = self.concretize(st, a)? as u64;
            return Ok(vec![v]);
        }
        Ok((0..cnt).map(|i| first + i * s).collect())
    }
    fn read_bytes(&mut self, o: &Obj, off: usize, n: usize) -> T {
        if n == 1 {
            return o.data[off];
        }
        self.tm.concat(&o.data[off..off + n])
    }
    fn load_at(&mut self, st: &mut State, a: u64, ty: &Ty) -> R<Val> {
        let n = ty.store_size();
        if n == 0 {
            return Ok(self.m.zero(&mut self.tm, ty));
        }
        let o = self.check(st, a, n, "read")?;
        self.load_obj(&o, (a - o.base) as usize, ty)
    }
    fn load_obj(&mut self, o: &Obj, off: usize, ty: &Ty) -> R<Val> {
        Ok(match ty {
            Ty::Int(w) => {
                if *w > 128 {
                    return Err(Halt::Incomplete(format!("load of i{}", w)));
                }
                let t = self.read_bytes(o, off, ty.store_size() as usize);
                Val::S(self.tm.extract(t, 0, *w))
            }
            Ty::Ptr => Val::S(self.read_bytes(o, off, 8)),
            Ty::Float(w) => Val::S(self.read_bytes(o, off, *w as usize / 8)),
            Ty::Array(n, t) => {
                let s = t.size() as usize;
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.load_obj(o, off + i * s, t)?);
                }
                Val::A(Rc::new(v))
            }
            Ty::Struct(ts, _) => {
                let (offs, _) = ty.layout();
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.load_obj(o, off + offs[i] as usize, t)?);
                }
                Val::A(Rc::new(v))
            }
            Ty::Vec(n, t) => {
                let b = t.bits();
                if b % 8 != 0 {
                    return Err(Halt::Incomplete("vector of bits load".into()));
                }
                let s = b as usize / 8;
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.load_obj(o, off + i * s, t)?);
                }
                Val::A(Rc::new(v))
            }
            _ => return Err(Halt::Incomplete("load type".into())),
        })
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, o: &Rc<Obj>) -> &'a mut Obj {
        let e = st.mem.entry(o.base).or_insert_with(|| o.clone());
        Rc::make_mut(e)
    }
    fn store_bytes(&mut self, st: &mut State, a: u64, bytes: &[T]) -> R<()> {
        if bytes.is_empty() {
            return Ok(());
        }
        let o = self.check(st, a, bytes.len() as u64, "write")?;
        if !o.writable {
            return Err(Halt::Bad("memory".into(), "write to constant".into()));
        }
        let base = o.base;
        if base < 0x4000_0000 {
            // global: copy on first write
            let om = self.obj_mut(st, &o);
            let off = (a - base) as usize;
            om.data[off..off + bytes.len()].copy_from_slice(bytes);
            return Ok(());
        }
        drop(o);
        let e = st.mem.get_mut(&base).unwrap();
        let om = Rc::make_mut(e);
        let off = (a - base) as usize;
        om.data[off..off + bytes.len()].copy_from_slice(bytes);
        Ok(())
    }
    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64, fill: T, heap: bool) -> R<u64> {
        if size > 64 << 20 {
            return Err(Halt::Incomplete(format!("allocation of {} bytes", size)));
        }
        let al = align.max(16);
        let base = (st.next + al - 1) / al * al;
        st.next = base + size + 64;
        st.mem.insert(base, Rc::new(Obj { base, size, data: vec![fill; size as usize], writable: true, heap }));
        if heap {
            st.live_heap += size;
            st.peak_heap = st.peak_heap.max(st.live_heap);
        }
        Ok(base)
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        match st.mem.get(&a) {
            Some(o) if o.heap => {
                st.live_heap -= o.size;
                st.mem.remove(&a);
                Ok(())
            }
            _ => Err(Halt::Bad("memory".into(), format!("free of {:#x} which is not a live heap block", a))),
        }
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let o = self.check(st, s, n, "read")?;
        let off = (s - o.base) as usize;
        let v: Vec<T> = o.data[off..off + n as usize].to_vec();
        drop(o);
        self.store_bytes(st, d, &v)
    }
    /// copy from an unknown place of one object
    fn copy_any(&mut self, st: &mut State, d: u64, s: T, n: u64) -> R<()> {
        let c = self.resolve(st, s, n, "read")?;
        let mut v: Vec<T> = vec![];
        for x in c {
            let k = self.tm.c(x as u128, 64);
            let e = self.tm.eq(s, k);
            if e == FALSE || self.feasible(st, e).0 == Res::Unsat {
                continue;
            }
            let o = self.check(st, x, n, "read")?;
            let off = (x - o.base) as usize;
            let w = &o.data[off..off + n as usize];
            if v.is_empty() {
                v = w.to_vec();
            } else {
                for i in 0..n as usize {
                    v[i] = self.tm.ite(e, w[i], v[i]);
                }
            }
        }
        self.store_bytes(st, d, &v)
    }
    fn cstr(&mut self, st: &State, p: u64, n: u64) -> R<String> {
        let o = self.check(st, p, n, "read")?;
        let off = (p - o.base) as usize;
        let mut s = String::new();
        for i in 0..n as usize {
            match self.tm.k(o.data[off + i]) {
                Some(b) => s.push(b as u8 as char),
                None => s.push('?'),
            }
        }
        Ok(s)
    }

    // ----- values -----
    #[inline]
    fn val(&self, st: &State, o: &Opnd) -> Val {
        match o {
            Opnd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opnd::C(v) => v.clone(),
        }
    }
    #[inline]
    fn sc(&self, st: &State, o: &Opnd) -> T {
        match o {
            Opnd::R(r) => match &st.frames.last().unwrap().regs[*r as usize] {
                Val::S(t) => *t,
                _ => panic!("aggregate where scalar expected in {}", st.frames.last().unwrap().f.f.name),
            },
            Opnd::C(Val::S(t)) => *t,
            Opnd::C(_) => panic!("aggregate constant"),
        }
    }
    fn set(&self, st: &mut State, d: u32, v: Val) {
        if d != u32::MAX {
            st.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    fn binop(&mut self, st: &mut State, op: BinOp, a: T, b: T) -> R<T> {
        let tm = &mut self.tm;
        Ok(match op {
            BinOp::Add => tm.add(a, b),
            BinOp::Sub => tm.sub(a, b),
            BinOp::Mul => tm.mul(a, b),
            BinOp::And => tm.and(a, b),
            BinOp::Or => tm.or(a, b),
            BinOp::Xor => tm.xor(a, b),
            BinOp::Shl => tm.shl(a, b),
            BinOp::LShr => tm.lshr(a, b),
            BinOp::AShr => tm.ashr(a, b),
            BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem => {
                let w = tm.w(b);
                let z = tm.c(0, w);
                let e = tm.eq(b, z);
                if self.decide(st, e)? {
                    return Err(Halt::Bad("panic".into(), "division by zero".into()));
                }
                let tm = &mut self.tm;
                match op {
                    BinOp::UDiv => tm.udiv(a, b),
                    BinOp::URem => tm.urem(a, b),
                    BinOp::SDiv => tm.sdiv(a, b),
                    _ => tm.srem(a, b),
                }
            }
        })
    }
    fn icmp(&mut self, p: Pred, a: T, b: T) -> T {
        let tm = &mut self.tm;
        match p {
            Pred::Eq => tm.eq(a, b),
            Pred::Ne => {
                let e = tm.eq(a, b);
                tm.not(e)
            }
            Pred::Ult => tm.ult(a, b),
            Pred::Ule => tm.ule(a, b),
            Pred::Ugt => tm.ult(b, a),
            Pred::Uge => tm.ule(b, a),
            Pred::Slt => tm.slt(a, b),
            Pred::Sle => tm.sle(a, b),
            Pred::Sgt => tm.slt(b, a),
            Pred::Sge => tm.sle(b, a),
        }
    }
    fn ite_val(&mut self, c: T, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::S(x), Val::S(y)) => Val::S(self.tm.ite(c, *x, *y)),
            (Val::A(x), Val::A(y)) => {
                let v = x.iter().zip(y.iter()).map(|(p, q)| self.ite_val(c, p, q)).collect();
                Val::A(Rc::new(v))
            }
            _ => panic!("ite_val"),
        }
    }
    fn bits_of(&mut self, v: &Val) -> T {
        match v {
            Val::S(t) => *t,
            Val::A(vs) => {
                let ps: Vec<T> = vs.iter().map(|x| self.bits_of(x)).collect();
                self.tm.concat(&ps)
            }
        }
    }
    fn from_bits(&mut self, t: T, ty: &Ty) -> Val {
        match ty {
            Ty::Vec(n, e) => {
                let w = e.bits();
                let v = (0..*n).map(|i| Val::S(self.tm.extract(t, i * w, w))).collect();
                Val::A(Rc::new(v))
            }
            _ => Val::S(t),
        }
    }

    // ----- running -----
    pub fn run(&mut self, entry: &str) {
        let n: Rc<str> = Rc::from(entry);
        let (ck, _) = self.classify(&n);
        let id = match ck {
            CK::Def(i) => i,
            _ => {
                self.incomplete.push(format!("entry {} not found", entry));
                return;
            }
        };
        let f = self.funcs[id];
        let mut st = State {
            frames: vec![],
            mem: BTreeMap::new(),
            next: 0x4000_0000,
            pc: vec![],
            known: Default::default(),
            model: Some(Rc::new(Model::new())),
            mid: 0,
            occ: HashMap::new(),
            steps: 0,
            allow_panic: false,
            secret: false,
            notes: vec![],
            live_heap: 0,
            peak_heap: 0,
            dom: Default::default(),
            multi: Default::default(),
        };
        st.mid = self.next_mid;
        self.next_mid += 1;
        let z = Val::S(FALSE);
        st.frames.push(Frame { f, regs: vec![z; f.f.nregs], bb: 0, pc: 0, prev: 0, dst: None, normal: None, allocas: vec![] });
        self.stack.push(st);
        while let Some(mut st) = self.stack.pop() {
            self.paths += 1;
            if self.paths > self.max_paths {
                self.incomplete.push(format!("path limit {} reached", self.max_paths));
                break;
            }
            let r = self.run_path(&mut st);
            self.longest = self.longest.max(st.steps);
            match r {
                Halt::End => self.ended += 1,
                Halt::Killed => self.killed += 1,
                Halt::Panic(m) => {
                    self.panicked += 1;
                    if !st.allow_panic {
                        let mut md = st.model.clone();
                        if md.is_none() {
                            let (r, m2) = self.feasible(&st, TRUE);
                            if r == Res::Sat {
                                md = m2;
                            }
                        }
                        if md.is_none() {
                            self.note_incomplete(&st, format!("possible panic {}", m), true);
                        } else {
                            self.report(&st, "panic", &m, md);
                        }
                    }
                }
                Halt::Bad(k, m) => {
                    let md = st.model.clone();
                    self.report(&st, &k, &m, md);
                }
                Halt::Incomplete(m) => {
                    if m.contains(" limit") {
                        self.unended(&st);
                        if self.hangs.len() < 2 {
                            if let Some(i) = (0..self.stack.len()).max_by_key(|&i| self.stack[i].steps) {
                                let o = self.stack.swap_remove(i);
                                self.unended(&o);
                                self.stack.push(o);
                            }
                        }
                    }
                    self.note_incomplete(&st, m, true);
                    if self.incomplete.iter().filter(|x| !x.starts_with("(soft)")).count() > 20 || self.hangs.len() >= 3 {
                        self.incomplete.push("too many incomplete paths; stopped".into());
                        break;
                    }
                }
            }
            if let Some(d) = self.deadline {
                if Instant::now() > d {
                    self.incomplete.push(format!("time limit reached with {} states pending", self.stack.len()));
                    break;
                }
            }
        }
        self.stack.clear();
    }

    fn unended(&mut self, st: &State) {
        if self.hangs.len() < 4 {
            let m = match self.feasible_smt(st, TRUE) {
                (Res::Sat, Some(m)) => Some(m),
                _ => st.model.clone(),
            };
            if let Some(m) = m {
                let m = self.named_model(&m);
                self.hangs.push(m);
            }
        }
    }
    fn run_path(&mut self, st: &mut State) -> Halt {
        loop {
            match self.step(st) {
                Ok(()) => {}
                Err(h) => return h,
            }
            self.steps += 1;
            st.steps += 1;
            if self.steps & 0xfff == 0 {
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        return Halt::Incomplete("time limit".into());
                    }
                }
                if self.steps & 0xfffff == 0 && rss() > 3_600_000_000 {
                    self.deadline = Some(Instant::now());
                    return Halt::Incomplete("memory limit".into());
                }
            }
            if st.steps > self.path_step_limit {
                return Halt::Incomplete("step limit on one path".into());
            }
        }
    }

    fn jump(&mut self, st: &mut State, b: u32) {
        let fr = st.frames.last_mut().unwrap();
        fr.prev = fr.bb;
        fr.bb = b;
        fr.pc = 0;
        let f = fr.f;
        let blk = &f.f.blocks[b as usize];
        if blk.phis.is_empty() {
            return;
        }
        let prev = fr.prev;
        let vals: Vec<(u32, Val)> = blk
            .phis
            .iter()
            .map(|(d, inc)| {
                let o = inc.iter().find(|x| x.0 == prev).map(|x| &x.1).expect("phi");
                (*d, self.val(st, o))
            })
            .collect();
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f;
        self.fsteps[f.id] += 1;
        let inst = &f.f.blocks[fr.bb as usize].insts[fr.pc as usize];
        match inst {
            Inst::Bin { d, op, a, b, .. } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let v = match (&x, &y) {
                    (Val::S(x), Val::S(y)) => Val::S(self.binop(st, *op, *x, *y)?),
                    (Val::A(x), Val::A(y)) => {
                        let mut o = vec![];
                        for (p, q) in x.iter().zip(y.iter()) {
                            o.push(Val::S(self.binop(st, *op, p.s(), q.s())?));
                        }
                        Val::A(Rc::new(o))
                    }
                    _ => panic!("bin"),
                };
                self.set(st, *d, v);
            }
            Inst::ICmp { d, p, a, b } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let v = match (&x, &y) {
                    (Val::S(x), Val::S(y)) => Val::S(self.icmp(*p, *x, *y)),
                    (Val::A(x), Val::A(y)) => {
                        let o = x.iter().zip(y.iter()).map(|(q, r)| Val::S(self.icmp(*p, q.s(), r.s()))).collect();
                        Val::A(Rc::new(o))
                    }
                    _ => panic!("icmp"),
                };
                self.set(st, *d, v);
            }
            Inst::Cast { d, op, from, to, a } => {
                let x = self.val(st, a);
                let v = match op {
                    CastOp::Bit => {
                        if matches!(from, Ty::Vec(..)) || matches!(to, Ty::Vec(..)) {
                            let t = self.bits_of(&x);
                            self.from_bits(t, to)
                        } else {
                            x
                        }
                    }
                    _ => {
                        let w = match to {
                            Ty::Vec(_, e) => e.bits(),
                            t => t.bits(),
                        };
                        let mut one = |t: T| match op {
                            CastOp::Trunc => self.tm.trunc(t, w),
                            CastOp::ZExt => self.tm.zext(t, w),
                            _ => self.tm.sext(t, w),
                        };
                        match &x {
                            Val::S(t) => Val::S(one(*t)),
                            Val::A(vs) => Val::A(Rc::new(vs.iter().map(|t| Val::S(one(t.s()))).collect())),
                        }
                    }
                };
                self.set(st, *d, v);
            }
            Inst::Gep { d, base, off, idx } => {
                let b = self.sc(st, base);
                let t = if idx.is_empty() {
                    if *off == 0 {
                        b
                    } else {
                        let k = self.tm.c(*off as i128 as u128, 64);
                        self.tm.add(b, k)
                    }
                } else if idx.len() == 1 && self.tm.is_c(b) && self.tm.is_c(self.sc(st, &idx[0].0)) {
                    let (o, w, s) = &idx[0];
                    let i = self.sc(st, o);
                    let iv = to_signed(self.tm.k(i).unwrap(), *w) as i64;
                    let r = (self.tm.k(b).unwrap() as u64).wrapping_add(*off as u64).wrapping_add((iv as u64).wrapping_mul(*s));
                    self.tm.c(r as u128, 64)
                } else {
                    let mut items = vec![(1u128, b)];
                    for (o, w, s) in idx {
                        let i = self.sc(st, o);
                        let i = if *w < 64 {
                            self.tm.sext(i, 64)
                        } else if *w > 64 {
                            self.tm.trunc(i, 64)
                        } else {
                            i
                        };
                        items.push((*s as u128, i));
                    }
                    self.tm.lin(64, &items, *off as i128 as u128 & mask(64))
                };
                self.set(st, *d, Val::S(t));
            }
            Inst::Load { d, ty, p } => {
                let a = self.sc(st, p);
                let n = ty.store_size();
                let v = if let Some(k) = self.tm.k(a) {
                    self.load_at(st, k as u64, ty)?
                } else {
                    let c = self.resolve(st, a, n, "read")?;
                    let o = self.check(st, c[0], n, "read")?;
                    let mut v = self.load_obj(&o, (c[0] - o.base) as usize, ty)?;
                    for &x in &c[1..] {
                        let w = self.load_obj(&o, (x - o.base) as usize, ty)?;
                        let k = self.tm.c(x as u128, 64);
                        let e = self.tm.eq(a, k);
                        v = self.ite_val(e, &w, &v);
                    }
                    v
                };
                self.set(st, *d, v);
            }
            Inst::Store { ty, v, p } => {
                let a = self.sc(st, p);
                let x = self.val(st, v);
                let n = ty.store_size() as usize;
                if n == 0 {
                    st.frames.last_mut().unwrap().pc += 1;
                    return Ok(());
                }
                // padding inside aggregates keeps whatever was there before
                if let (Ty::Struct(ts, _), Val::A(vs)) = (ty, &x) {
                    let k = self.concretize(st, a)? as u64;
                    self.check(st, k, n as u64, "write")?;
                    let (offs, _) = ty.layout();
                    for (i, t) in ts.iter().enumerate() {
                        let mut buf = vec![0 as T; t.size() as usize];
                        self.m.flatten(&mut self.tm, &vs[i], t, 0, &mut buf);
                        buf.truncate(t.store_size() as usize);
                        self.store_bytes(st, k + offs[i], &buf)?;
                    }
                    st.frames.last_mut().unwrap().pc += 1;
                    return Ok(());
                }
                let mut buf = vec![0 as T; n];
                self.m.flatten(&mut self.tm, &x, ty, 0, &mut buf);
                if let Some(k) = self.tm.k(a) {
                    self.store_bytes(st, k as u64, &buf)?;
                } else {
                    let c = self.resolve(st, a, n as u64, "write")?;
                    if c.len() == 1 {
                        self.store_bytes(st, c[0], &buf)?;
                    } else {
                        let o = self.check(st, c[0], n as u64, "write")?;
                        let mut data = o.data.clone();
                        for &x in &c {
                            let k = self.tm.c(x as u128, 64);
                            let e = self.tm.eq(a, k);
                            let off = (x - o.base) as usize;
                            for i in 0..n {
                                data[off + i] = self.tm.ite(e, buf[i], data[off + i]);
                            }
                        }
                        let base = o.base;
                        self.store_bytes(st, base, &data)?;
                    }
                }
            }
            Inst::Alloca { d, size, align, count } => {
                let mut sz = *size;
                if let Some(c) = count {
                    let t = self.sc(st, c);
                    sz *= self.concretize(st, t)? as u64;
                }
                let u = self.uninit;
                let a = self.alloc(st, sz, *align, u, false)?;
                st.frames.last_mut().unwrap().allocas.push(a);
                let t = self.tm.c(a as u128, 64);
                self.set(st, *d, Val::S(t));
            }
            Inst::Select { d, c, a, b } => {
                let cv = self.val(st, c);
                let (x, y) = (self.val(st, a), self.val(st, b));
                let v = match &cv {
                    Val::S(c) => self.ite_val(*c, &x, &y),
                    Val::A(cs) => match (&x, &y) {
                        (Val::A(p), Val::A(q)) => {
                            let o = (0..cs.len()).map(|i| self.ite_val(cs[i].s(), &p[i], &q[i])).collect();
                            Val::A(Rc::new(o))
                        }
                        _ => panic!("vselect"),
                    },
                };
                self.set(st, *d, v);
            }
            Inst::ExtractV { d, a, idx } => {
                let mut v = self.val(st, a);
                for &i in idx {
                    v = match &v {
                        Val::A(x) => x[i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::InsertV { d, ty: _, a, v, idx } => {
                let base = self.val(st, a);
                let x = self.val(st, v);
                fn ins(b: &Val, idx: &[u32], x: Val) -> Val {
                    if idx.is_empty() {
                        return x;
                    }
                    match b {
                        Val::A(vs) => {
                            let mut o = (**vs).clone();
                            o[idx[0] as usize] = ins(&vs[idx[0] as usize], &idx[1..], x);
                            Val::A(Rc::new(o))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&base, idx, x);
                self.set(st, *d, r);
            }
            Inst::ExtractE { d, a, i } => {
                let t = self.sc(st, i);
                let k = self.concretize(st, t)? as usize;
                let v = match self.val(st, a) {
                    Val::A(x) => x[k].clone(),
                    _ => panic!("extractelement"),
                };
                self.set(st, *d, v);
            }
            Inst::InsertE { d, a, v, i, .. } => {
                let t = self.sc(st, i);
                let k = self.concretize(st, t)? as usize;
                let x = self.val(st, v);
                let r = match self.val(st, a) {
                    Val::A(y) => {
                        let mut o = (*y).clone();
                        o[k] = x;
                        Val::A(Rc::new(o))
                    }
                    _ => panic!("insertelement"),
                };
                self.set(st, *d, r);
            }
            Inst::Shuffle { d, a, b, m, n } => {
                let (x, y) = (self.val(st, a), self.val(st, b));
                let r = match (&x, &y) {
                    (Val::A(x), Val::A(y)) => {
                        let o = m.iter().map(|&i| if i < *n as i64 { x[i as usize].clone() } else { y[(i - *n as i64) as usize].clone() }).collect();
                        Val::A(Rc::new(o))
                    }
                    _ => panic!("shuffle"),
                };
                self.set(st, *d, r);
            }
            Inst::Call { d, callee, args, ret, normal } => {
                return self.call(st, *d, callee, args, ret, *normal);
            }
            Inst::Br(b) => {
                self.jump(st, *b);
                return Ok(());
            }
            Inst::CondBr(c, a, b) => {
                let t = self.sc(st, c);
                let v = self.decide(st, t)?;
                self.jump(st, if v { *a } else { *b });
                return Ok(());
            }
            Inst::Switch { v, def, cases } => {
                let t = self.sc(st, v);
                if let Some(_) = self.tm.k(t) {
                    let b = cases.iter().find(|c| c.0 == t).map(|c| c.1).unwrap_or(*def);
                    self.jump(st, b);
                    return Ok(());
                }
                // group cases by target
                let mut groups: Vec<(u32, Vec<T>)> = vec![];
                for (k, b) in cases {
                    match groups.iter_mut().find(|g| g.0 == *b) {
                        Some(g) => g.1.push(*k),
                        None => groups.push((*b, vec![*k])),
                    }
                }
                for (b, ks) in groups {
                    if b == *def {
                        continue;
                    }
                    let mut c = FALSE;
                    for k in ks {
                        let e = self.tm.eq(t, k);
                        c = self.tm.or(c, e);
                    }
                    if self.decide(st, c)? {
                        self.jump(st, b);
                        return Ok(());
                    }
                }
                self.jump(st, *def);
                return Ok(());
            }
            Inst::Ret(v) => {
                let val = v.as_ref().map(|o| self.val(st, o));
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.remove(a);
                }
                if st.frames.is_empty() {
                    return Err(Halt::End);
                }
                let top = st.frames.last_mut().unwrap();
                if let Some(d) = fr.dst {
                    if let Some(v) = val {
                        top.regs[d as usize] = v;
                    }
                }
                match fr.normal {
                    Some(b) => self.jump(st, b),
                    None => top.pc += 1,
                }
                return Ok(());
            }
            Inst::Unreachable => {
                return Err(Halt::Bad("ub".into(), "unreachable instruction executed".into()));
            }
            Inst::Rmw { d, op, ty, p, v } => {
                let ta = self.sc(st, p);
                let a = self.concretize(st, ta)? as u64;
                let old = self.load_at(st, a, ty)?.s();
                let x = self.sc(st, v);
                let tm = &mut self.tm;
                let n = match op.as_str() {
                    "add" => tm.add(old, x),
                    "sub" => tm.sub(old, x),
                    "and" => tm.and(old, x),
                    "or" => tm.or(old, x),
                    "xor" => tm.xor(old, x),
                    "xchg" => x,
                    o => return Err(Halt::Incomplete(format!("atomicrmw {}", o))),
                };
                let mut buf = vec![0 as T; ty.store_size() as usize];
                self.m.flatten(&mut self.tm, &Val::S(n), ty, 0, &mut buf);
                self.store_bytes(st, a, &buf)?;
                self.set(st, *d, Val::S(old));
            }
            Inst::CmpXchg { d, ty, p, c, n } => {
                let ta = self.sc(st, p);
                let a = self.concretize(st, ta)? as u64;
                let old = self.load_at(st, a, ty)?.s();
                let cv = self.sc(st, c);
                let e = self.tm.eq(old, cv);
                let ok = self.decide(st, e)?;
                if ok {
                    let nv = self.sc(st, n);
                    let mut buf = vec![0 as T; ty.store_size() as usize];
                    self.m.flatten(&mut self.tm, &Val::S(nv), ty, 0, &mut buf);
                    self.store_bytes(st, a, &buf)?;
                }
                let b = self.tm.b(ok);
                self.set(st, *d, Val::A(Rc::new(vec![Val::S(old), Val::S(b)])));
            }
            Inst::Freeze { d, a } => {
                let v = self.val(st, a);
                self.set(st, *d, v);
            }
            Inst::Nop => {}
            Inst::Unsupported(s) => {
                if s.contains("landingpad") || s.starts_with("resume") {
                    return Err(Halt::Incomplete("landing pad reached".into()));
                }
                return Err(Halt::Incomplete(format!("unsupported instruction {}", s)));
            }
        }
        st.frames.last_mut().unwrap().pc += 1;
        Ok(())
    }

    fn finish(&mut self, st: &mut State, d: Option<u32>, v: Option<Val>, normal: Option<u32>) {
        if let (Some(d), Some(v)) = (d, v) {
            self.set(st, d, v);
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => st.frames.last_mut().unwrap().pc += 1,
        }
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, callee: &Callee, args: &[(Ty, Opnd)], ret: &Ty, normal: Option<u32>) -> R<()> {
        let name: Rc<str> = match callee {
            Callee::Named(n) => n.clone(),
            Callee::Ind(o) => {
                let t = self.sc(st, o);
                let a = self.concretize(st, t)? as u64;
                match self.m.addr_fn.get(&a) {
                    Some(n) => n.clone(),
                    None => return Err(Halt::Bad("memory".into(), format!("call through bad function pointer {:#x}", a))),
                }
            }
            Callee::Asm => {
                if *ret == Ty::Void {
                    self.finish(st, d, None, normal);
                    return Ok(());
                }
                return Err(Halt::Incomplete("inline asm".into()));
            }
        };
        let (ck, target) = self.classify(&name);
        match ck {
            CK::Def(id) => {
                let f = self.funcs[id];
                if st.frames.len() > 2000 {
                    return Err(Halt::Incomplete("recursion too deep".into()));
                }
                let z = Val::S(FALSE);
                let mut regs = vec![z; f.f.nregs];
                for (i, (_, r)) in f.f.params.iter().enumerate() {
                    if i < args.len() {
                        regs[*r as usize] = self.val(st, &args[i].1);
                    }
                }
                if self.trace {
                    eprintln!("{}> {}", " ".repeat(st.frames.len()), demangle(&target));
                }
                st.frames.push(Frame { f, regs, bb: 0, pc: 0, prev: 0, dst: d, normal, allocas: vec![] });
                Ok(())
            }
            CK::Panic => Err(Halt::Panic(demangle(&target))),
            CK::Missing => {
                self.missing.insert(target.to_string());
                Err(Halt::Incomplete(format!("external function {}", target)))
            }
            CK::Llvm | CK::Builtin | CK::Sx => {
                let vals: Vec<Val> = args.iter().map(|a| self.val(st, &a.1)).collect();
                if target.contains(".with.overflow") && ck == CK::Llvm {
                    let v = self.overflow_pair(&target, vals[0].s(), vals[1].s());
                    self.finish(st, d, Some(v), normal);
                    return Ok(());
                }
                let r = match ck {
                    CK::Llvm => self.llvm(st, &target, &vals, ret)?,
                    CK::Builtin => self.builtin(st, &target, &vals)?,
                    _ => {
                        if &*target == "sx_choose" {
                            return self.choose(st, d, &vals, normal);
                        }
                        self.sx(st, &target, &vals)?
                    }
                };
                self.finish(st, d, r.map(Val::S), normal);
                Ok(())
            }
        }
    }

    fn fresh(&mut self, st: &mut State, name: &str, i: Option<usize>, occ: u32, w: u32) -> T {
        let n = match i {
            Some(i) => format!("{}#{}[{}]", name, occ, i),
            None => format!("{}#{}", name, occ),
        };
        let _ = st;
        if let Some(f) = &self.fixed {
            let v = f.get(&n).copied().unwrap_or(0);
            return self.tm.c(v, w);
        }
        self.tm.var(&n, w)
    }
    fn occ(&mut self, st: &mut State, name: &str) -> u32 {
        let e = st.occ.entry(name.to_string()).or_insert(0);
        let v = *e;
        *e += 1;
        v
    }

    fn choose(&mut self, st: &mut State, d: Option<u32>, v: &[Val], normal: Option<u32>) -> R<()> {
        let n = self.concretize(st, v[0].s())? as u64;
        let (p, l) = (self.concretize(st, v[1].s())? as u64, self.concretize(st, v[2].s())? as u64);
        let name = self.cstr(st, p, l)?;
        let o = self.occ(st, &name);
        let x = self.fresh(st, &name, None, o, 64);
        if let Some(k) = self.tm.k(x) {
            let t = self.tm.c(k, 64);
            self.finish(st, d, Some(Val::S(t)), normal);
            return Ok(());
        }
        let vi = self.tm.nodes[x as usize].a;
        if n == 0 {
            return Err(Halt::Killed);
        }
        for i in (1..n).rev() {
            let mut s = st.clone();
            let k = self.tm.c(i as u128, 64);
            let e = self.tm.eq(x, k);
            if let Some(m) = &st.model {
                let mut mm = (**m).clone();
                mm.insert(vi, i as u128);
                self.set_model(&mut s, Some(Rc::new(mm)));
            }
            self.add_pc(&mut s, e);
            self.finish(&mut s, d, Some(Val::S(k)), normal);
            self.forks += 1;
            self.stack.push(s);
        }
        let k = self.tm.c(0, 64);
        let e = self.tm.eq(x, k);
        self.add_pc(st, e);
        if let Some(m) = st.model.clone() {
            let mut mm = (*m).clone();
            mm.insert(vi, 0);
            self.set_model(st, Some(Rc::new(mm)));
        }
        self.finish(st, d, Some(Val::S(k)), normal);
        Ok(())
    }

    fn sx(&mut self, st: &mut State, name: &str, v: &[Val]) -> R<Option<T>> {
        let arg = |i: usize| v[i].s();
        match name {
            "sx_bytes" => {
                // (ptr, len, name, namelen)
                let p = self.concretize(st, arg(0))? as u64;
                let n = self.concretize(st, arg(1))? as u64;
                let (np, nl) = (self.concretize(st, arg(2))? as u64, self.concretize(st, arg(3))? as u64);
                let nm = self.cstr(st, np, nl)?;
                let o = self.occ(st, &nm);
                let mut b = vec![];
                for i in 0..n as usize {
                    b.push(self.fresh(st, &nm, Some(i), o, 8));
                }
                self.store_bytes(st, p, &b)?;
                Ok(None)
            }
            "sx_u64" => {
                let (np, nl) = (self.concretize(st, arg(0))? as u64, self.concretize(st, arg(1))? as u64);
                let nm = self.cstr(st, np, nl)?;
                let o = self.occ(st, &nm);
                Ok(Some(self.fresh(st, &nm, None, o, 64)))
            }
            "sx_assume" => {
                self.assume(st, arg(0))?;
                Ok(None)
            }
            "sx_assert" => {
                let (np, nl) = (self.concretize(st, arg(1))? as u64, self.concretize(st, arg(2))? as u64);
                let nm = self.cstr(st, np, nl)?;
                self.assert_(st, arg(0), &nm)?;
                Ok(None)
            }
            "sx_reach" => {
                let (np, nl) = (self.concretize(st, arg(0))? as u64, self.concretize(st, arg(1))? as u64);
                let nm = self.cstr(st, np, nl)?;
                *self.reached.entry(nm.clone()).or_insert(0) += 1;
                if self.witnesses.iter().filter(|w| w.0 == nm).count() < 2 {
                    let m = match st.model.clone() {
                        Some(m) => Some(m),
                        None => {
                            let all = st.pc.clone();
                            let (r, m) = self.sv.check(&mut self.tm, &all);
                            if r == Res::Sat {
                                m
                            } else {
                                None
                            }
                        }
                    };
                    if let Some(m) = m {
                        let l = self.named_model(&m);
                        self.witnesses.push((nm, l));
                    }
                }
                Ok(None)
            }
            "sx_log" => {
                let (np, nl) = (self.concretize(st, arg(0))? as u64, self.concretize(st, arg(1))? as u64);
                let nm = self.cstr(st, np, nl)?;
                st.notes.push(nm.clone());
                if self.trace {
                    eprintln!("LOG {}", nm);
                }
                Ok(None)
            }
            "sx_param" => {
                let i = self.concretize(st, arg(0))? as usize;
                let x = self.params.get(i).copied().unwrap_or(0);
                Ok(Some(self.tm.c(x as u128, 64)))
            }
            "sx_concretize" => {
                let k = self.concretize(st, arg(0))?;
                Ok(Some(self.tm.c(k, 64)))
            }
            "sx_bytes_eq" => {
                let (p, q) = (self.concretize(st, arg(0))? as u64, self.concretize(st, arg(1))? as u64);
                let n = self.concretize(st, arg(2))? as u64;
                Ok(Some(self.eq_bytes(st, p, q, n)?))
            }
            "sx_equiv" => {
                // (p, q, n, name, len): assert equality of two byte strings by sweeping
                let (p, q) = (self.concretize(st, arg(0))? as u64, self.concretize(st, arg(1))? as u64);
                let n = self.concretize(st, arg(2))? as u64;
                let (np, nl) = (self.concretize(st, arg(3))? as u64, self.concretize(st, arg(4))? as u64);
                let nm = self.cstr(st, np, nl)?;
                self.equiv(st, p, q, n, &nm)?;
                Ok(None)
            }
            "sx_x_u" => Ok(Some(self.xnode(XN::U(arg(0))))),
            "sx_x_s" => Ok(Some(self.xnode(XN::S(arg(0))))),
            "sx_x_v" => {
                let v = self.concretize(st, arg(0))? as u32;
                Ok(Some(self.xnode(XN::V(v))))
            }
            "sx_x_k" => {
                let (p, n) = (self.concretize(st, arg(0))? as u64, self.concretize(st, arg(1))? as u64);
                let o = self.check(st, p, n * 8, "read")?;
                let off = (p - o.base) as usize;
                let mut b = vec![];
                for i in 0..8 * n as usize {
                    match self.tm.k(o.data[off + i]) {
                        Some(k) => b.push(k as u8),
                        None => return Err(Halt::Incomplete("sx_x_k: not constant".into())),
                    }
                }
                Ok(Some(self.xnode(XN::K(b))))
            }
            "sx_x_op" => {
                let (o, a, b) = (self.concretize(st, arg(0))? as u8, self.concretize(st, arg(1))? as u32, self.concretize(st, arg(2))? as u32);
                Ok(Some(self.xnode(XN::Op(o, a, b))))
            }
            "sx_x_claim" => {
                let mut k = [0u32; 4];
                for i in 0..4 {
                    k[i] = self.concretize(st, arg(i))? as u32;
                }
                let (np, nl) = (self.concretize(st, arg(4))? as u64, self.concretize(st, arg(5))? as u64);
                let nm = self.cstr(st, np, nl)?;
                *self.assert_ids.entry(nm.clone()).or_insert(0) += 1;
                self.asserts += 1;
                self.claims.push((k, nm, st.pc.clone()));
                Ok(None)
            }
            "sx_ite" => {
                // (cond, a, b) -> u64
                Ok(Some(self.tm.ite(arg(0), arg(1), arg(2))))
            }
            "sx_map" => {
                // (table of 256 constant bytes, x) -> table[x]
                let p = self.concretize(st, arg(0))? as u64;
                let o = self.check(st, p, 256, "read")?;
                let off = (p - o.base) as usize;
                let mut tab = [0u8; 256];
                for i in 0..256 {
                    match self.tm.k(o.data[off + i]) {
                        Some(k) => tab[i] = k as u8,
                        None => return Err(Halt::Incomplete("sx_map: table not constant".into())),
                    }
                }
                Ok(Some(self.map_table(tab, arg(1))))
            }
            "sx_and" => Ok(Some(self.tm.and(arg(0), arg(1)))),
            "sx_or" => Ok(Some(self.tm.or(arg(0), arg(1)))),
            "sx_allow_panic" => {
                st.allow_panic = self.tm.k(arg(0)) == Some(1);
                Ok(None)
            }
            "sx_secret" => {
                st.secret = self.tm.k(arg(0)) == Some(1);
                Ok(None)
            }
            "sx_kill" => Err(Halt::Killed),
            "sx_done" => Err(Halt::End),
            "sx_is_symx" => Ok(Some(TRUE)),
            "sx_is_k" => Ok(Some(self.tm.b(self.tm.is_c(arg(0))))),
            "sx_valid" => {
                // holds on every input of this path
                let nc = self.tm.not(arg(0));
                let ok = nc == FALSE || self.feasible(st, nc).0 == Res::Unsat;
                Ok(Some(self.tm.b(ok)))
            }
            "sx_is_const" => Ok(Some(self.tm.b(self.tm.is_c(arg(0))))),
            "sx_peak_heap" => Ok(Some(self.tm.c(st.peak_heap as u128, 64))),
            "sx_reset_peak" => {
                st.peak_heap = st.live_heap;
                Ok(None)
            }
            "sx_live_heap" => Ok(Some(self.tm.c(st.live_heap as u128, 64))),
            "sx_dump" => {
                let x = arg(0);
                eprintln!("DUMP {}", self.show(x, 6));
                Ok(None)
            }
            _ => Err(Halt::Incomplete(format!("unknown intrinsic {}", name))),
        }
    }
    fn xnode(&mut self, x: XN) -> T {
        self.xs.push(x);
        self.tm.c(self.xs.len() as u128 - 1, 64)
    }
    /// integer claims, with the terms they are about, for bin/alg.py
    pub fn claims_json(&self) -> String {
        use std::fmt::Write;
        if self.claims.is_empty() {
            return "null".into();
        }
        let mut roots: Vec<T> = vec![];
        for x in &self.xs {
            if let XN::U(t) | XN::S(t) = x {
                roots.push(*t)
            }
        }
        for c in &self.claims {
            roots.extend_from_slice(&c.2);
        }
        let mut seen: std::collections::BTreeSet<T> = Default::default();
        while let Some(t) = roots.pop() {
            if seen.insert(t) {
                self.tm.children(t, &mut |c| roots.push(c));
            }
        }
        let mut o = String::from("{\"terms\":[\n");
        for (i, &t) in seen.iter().enumerate() {
            let n = self.tm.nodes[t as usize];
            let _ = write!(o, "{}[{},\"{:?}\",{}", if i > 0 { ",\n" } else { "" }, t, n.op, n.w);
            match n.op {
                Op::Const => {
                    let _ = write!(o, ",\"{}\"", self.tm.k(t).unwrap());
                }
                Op::Var => {
                    let _ = write!(o, ",{:?}", self.tm.vars[n.a as usize].name);
                }
                Op::Sum => {
                    let (k, ts) = &self.tm.sums[n.a as usize];
                    let _ = write!(o, ",\"{}\"", k);
                    for (c, x) in ts.iter() {
                        let _ = write!(o, ",[\"{}\",{}]", c, x);
                    }
                }
                Op::Extract => {
                    let _ = write!(o, ",{},{}", n.a, n.b);
                }
                _ => self.tm.children(t, &mut |c| {
                    let _ = write!(o, ",{}", c);
                }),
            }
            o.push(']');
        }
        o += "\n],\"xs\":[";
        for (i, x) in self.xs.iter().enumerate() {
            if i > 0 {
                o += ",";
            }
            let _ = match x {
                XN::U(t) => write!(o, "[\"U\",{}]", t),
                XN::S(t) => write!(o, "[\"S\",{}]", t),
                XN::K(b) => write!(o, "[\"K\",{:?}]", b),
                XN::V(v) => write!(o, "[\"V\",{}]", v),
                XN::Op(k, a, b) => write!(o, "[\"{}\",{},{}]", ["add", "sub", "mul"][*k as usize], a, b),
            };
        }
        o += "],\"claims\":[";
        for (i, (k, n, pc)) in self.claims.iter().enumerate() {
            let _ = write!(o, "{}[{},{},{},{},{:?},{:?}]", if i > 0 { "," } else { "" }, k[0], k[1], k[2], k[3], n, pc);
        }
        o += "]}";
        o
    }
    fn map_table(&mut self, tab: [u8; 256], x: T) -> T {
        if let Some(k) = self.tm.k(x) {
            return self.tm.c(tab[(k & 255) as usize] as u128, 8);
        }
        if let Some((t0, x0)) = self.maps.get(&x).cloned() {
            let mut t = [0u8; 256];
            for i in 0..256 {
                t[i] = tab[t0[i] as usize];
            }
            return self.map_table(t, x0);
        }
        let (lo, hi) = (self.tm.lo[x as usize] as usize, (self.tm.hi[x as usize] as usize).min(255));
        if (lo..=hi).all(|i| tab[i] as usize == i) {
            return x;
        }
        // maximal runs with a constant value or a constant difference
        let mut runs: Vec<(usize, usize, bool, u8)> = vec![];
        let mut i = lo;
        while i <= hi {
            let mut j = i;
            while j < hi && tab[j + 1] == tab[i] {
                j += 1;
            }
            let mut k = i;
            while k < hi && tab[k + 1].wrapping_sub((k + 1) as u8) == tab[i].wrapping_sub(i as u8) {
                k += 1;
            }
            if j >= k {
                runs.push((i, j, true, tab[i]));
                i = j + 1;
            } else {
                runs.push((i, k, false, tab[i].wrapping_sub(i as u8)));
                i = k + 1;
            }
        }
        let mut r = None;
        for (_, e, cst, v) in runs.iter().rev() {
            let k = self.tm.c(*v as u128, 8);
            let val = if *cst { k } else { self.tm.add(x, k) };
            r = Some(match r {
                None => val,
                Some(o) => {
                    let e = self.tm.c(*e as u128, 8);
                    let c = self.tm.ule(x, e);
                    self.tm.ite(c, val, o)
                }
            });
        }
        let r = r.unwrap();
        if self.tm.k(r).is_none() && r != x {
            let l = (lo..=hi).map(|i| tab[i]).min().unwrap() as u128;
            let h = (lo..=hi).map(|i| tab[i]).max().unwrap() as u128;
            let (ri, ol, oh) = (r as usize, self.tm.lo[r as usize], self.tm.hi[r as usize]);
            self.tm.lo[ri] = ol.max(l);
            self.tm.hi[ri] = oh.min(h);
            self.maps.insert(r, (Rc::new(tab), x));
        }
        r
    }
    pub fn show(&self, t: T, depth: u32) -> String {
        let n = self.tm.nodes[t as usize];
        if let Some(k) = self.tm.k(t) {
            return format!("{:#x}:{}", k, n.w);
        }
        if n.op == Op::Var {
            return self.tm.vars[n.a as usize].name.clone();
        }
        if depth == 0 {
            return format!("t{}", t);
        }
        let mut ch = vec![];
        self.tm.children(t, &mut |c| ch.push(c));
        let mut s = format!("({:?}:{}", n.op, n.w);
        if n.op == Op::Extract {
            s += &format!("@{}", n.b);
        }
        if n.op == Op::Sum {
            let (k, ts) = &self.tm.sums[n.a as usize];
            s += &format!(" {:#x}", k);
            for (c, x) in ts.iter() {
                s += &format!(" + {:#x}*{}", c, self.show(*x, depth - 1));
            }
            s.push(')');
            return s;
        }
        for c in ch {
            s.push(' ');
            s += &self.show(c, depth - 1);
        }
        s.push(')');
        s
    }

    fn eq_bytes(&mut self, st: &mut State, p: u64, q: u64, n: u64) -> R<T> {
        if n == 0 {
            return Ok(TRUE);
        }
        let a = self.check(st, p, n, "read")?;
        let b = self.check(st, q, n, "read")?;
        let (ao, bo) = ((p - a.base) as usize, (q - b.base) as usize);
        let mut r = TRUE;
        for i in 0..n as usize {
            let e = self.tm.eq(a.data[ao + i], b.data[bo + i]);
            r = self.tm.and(r, e);
            if r == FALSE {
                break;
            }
        }
        Ok(r)
    }

    fn equiv(&mut self, st: &mut State, p: u64, q: u64, n: u64, nm: &str) -> R<()> {
        if n == 0 {
            return self.assert_(st, TRUE, nm);
        }
        let a = self.check(st, p, n, "read")?;
        let b = self.check(st, q, n, "read")?;
        let (ao, bo) = ((p - a.base) as usize, (q - b.base) as usize);
        let pairs: Vec<(T, T)> = (0..n as usize).map(|i| (a.data[ao + i], b.data[bo + i])).collect();
        if pairs.iter().all(|x| x.0 == x.1) {
            return self.assert_(st, TRUE, nm);
        }
        let q0 = (self.sweep.queries, self.sweep.seconds);
        self.sweep.deadline = self.deadline;
        let o = self.sweep.equal(&mut self.tm, &pairs);
        self.sv.st.queries += self.sweep.queries - q0.0;
        self.sv.st.time += self.sweep.seconds - q0.1;
        match o {
            crate::sweep::Outcome::Equal => {
                self.sv.st.unsat += self.sweep.queries - q0.0;
                *self.assert_ids.entry(nm.to_string()).or_insert(0) += 1;
                self.asserts += 1;
                Ok(())
            }
            crate::sweep::Outcome::Differ => {
                // a simulated difference that satisfies the path condition
                let pc = st.pc.clone();
                let mut fixed: std::collections::HashSet<u32> = Default::default();
                for c in &pc {
                    fixed.extend(self.tm.support(*c).iter().copied());
                }
                let base = st.model.clone().unwrap_or_default();
                for k in 0..64 {
                    let mut m: Model = (0..self.tm.vars.len() as u32).map(|v| (v, crate::sweep::sample(v, k) & mask(self.tm.vars[v as usize].w))).collect();
                    // the last half keeps to the path's own model, with more and more of it changed
                    for (v, x) in base.iter() {
                        if fixed.contains(v) || (k >= 32 && crate::sweep::sample(*v, 1000 + k) % 32 >= (k - 32) as u128) {
                            m.insert(*v, *x);
                        }
                    }
                    self.tm.new_eval();
                    let get = |v: u32| m.get(&v).copied().unwrap_or(0);
                    let d = pairs.iter().any(|(x, y)| self.tm.eval(*x, &get) != self.tm.eval(*y, &get)) && pc.iter().all(|c| self.tm.eval(*c, &get) == 1);
                    self.cur_mid = 0;
                    if d {
                        *self.assert_ids.entry(nm.to_string()).or_insert(0) += 1;
                        self.asserts += 1;
                        self.report(st, "assert", nm, Some(Rc::new(m)));
                        return Err(Halt::Killed);
                    }
                }
                let e = self.eq_bytes(st, p, q, n)?;
                self.assert_(st, e, nm)
            }
            crate::sweep::Outcome::Open(w) => {
                if self.deadline.map_or(false, |d| Instant::now() > d) {
                    return Err(Halt::Incomplete(format!("time limit in the comparison '{}'", nm)));
                }
                let e = self.eq_bytes(st, p, q, n)?;
                st.notes.push(w);
                self.assert_(st, e, nm)
            }
        }
    }
    fn builtin(&mut self, st: &mut State, name: &str, v: &[Val]) -> R<Option<T>> {
        let arg = |i: usize| v[i].s();
        let u = self.uninit;
        Ok(match name {
            "malloc" => {
                let n = self.concretize(st, arg(0))? as u64;
                let a = self.alloc(st, n, 16, u, true)?;
                Some(self.tm.c(a as u128, 64))
            }
            "calloc" => {
                let n = self.concretize(st, arg(0))? as u64 * self.concretize(st, arg(1))? as u64;
                let a = self.alloc(st, n, 16, 0, true)?;
                Some(self.tm.c(a as u128, 64))
            }
            "posix_memalign" => {
                let p = self.concretize(st, arg(0))? as u64;
                let al = self.concretize(st, arg(1))? as u64;
                let n = self.concretize(st, arg(2))? as u64;
                let a = self.alloc(st, n, al, u, true)?;
                let t = self.tm.c(a as u128, 64);
                let mut b = vec![0; 8];
                self.m.flatten(&mut self.tm, &Val::S(t), &Ty::Int(64), 0, &mut b);
                self.store_bytes(st, p, &b)?;
                Some(self.tm.c(0, 32))
            }
            "realloc" => {
                let p = self.concretize(st, arg(0))? as u64;
                let n = self.concretize(st, arg(1))? as u64;
                let a = self.alloc(st, n, 16, u, true)?;
                if p != 0 {
                    let old = match st.mem.get(&p) {
                        Some(o) => o.size,
                        None => return Err(Halt::Bad("memory".into(), "realloc of a dead block".into())),
                    };
                    self.copy(st, a, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Some(self.tm.c(a as u128, 64))
            }
            "free" => {
                let p = self.concretize(st, arg(0))? as u64;
                self.free(st, p)?;
                None
            }
            "memcpy" | "memmove" => {
                let n = self.concretize(st, arg(2))? as u64;
                if n > 0 {
                    let d = self.concretize(st, arg(0))? as u64;
                    if self.symcopy && self.tm.k(arg(1)).is_none() {
                        self.copy_any(st, d, arg(1), n)?;
                    } else {
                        let s = self.concretize(st, arg(1))? as u64;
                        self.copy(st, d, s, n)?;
                    }
                }
                Some(arg(0))
            }
            "memset" => {
                let n = self.concretize(st, arg(2))? as u64;
                if n > 0 {
                    let d = self.concretize(st, arg(0))? as u64;
                    let b = self.tm.trunc(arg(1), 8);
                    let bs = vec![b; n as usize];
                    self.store_bytes(st, d, &bs)?;
                }
                Some(arg(0))
            }
            "bcmp" | "memcmp" => {
                let n = self.concretize(st, arg(2))? as u64;
                if n == 0 {
                    return Ok(Some(self.tm.c(0, 32)));
                }
                let p = self.concretize(st, arg(0))? as u64;
                let q = self.concretize(st, arg(1))? as u64;
                let e = self.eq_bytes(st, p, q, n)?;
                let z = self.tm.c(0, 32);
                let one = self.tm.c(1, 32);
                if name == "bcmp" || e == TRUE {
                    return Ok(Some(self.tm.ite(e, z, one)));
                }
                let a = self.check(st, p, n, "read")?;
                let b = self.check(st, q, n, "read")?;
                let (ao, bo) = ((p - a.base) as usize, (q - b.base) as usize);
                // below(i): first difference decides
                let mut lt = FALSE;
                for i in (0..n as usize).rev() {
                    let (x, y) = (a.data[ao + i], b.data[bo + i]);
                    let l = self.tm.ult(x, y);
                    let eq = self.tm.eq(x, y);
                    let r = self.tm.and(eq, lt);
                    lt = self.tm.or(l, r);
                }
                let neg = self.tm.c(mask(32), 32);
                let ne = self.tm.ite(lt, neg, one);
                Some(self.tm.ite(e, z, ne))
            }
            "strlen" => {
                let p = self.concretize(st, arg(0))? as u64;
                let mut n = 0;
                loop {
                    let o = self.check(st, p + n, 1, "read")?;
                    let b = o.data[(p + n - o.base) as usize];
                    let z = self.tm.c(0, 8);
                    let e = self.tm.eq(b, z);
                    if self.decide(st, e)? {
                        break;
                    }
                    n += 1;
                }
                Some(self.tm.c(n as u128, 64))
            }
            "getenv" => Some(self.tm.c(0, 64)),
            "abort" => return Err(Halt::Panic("abort".into())),
            "__cxa_thread_atexit_impl" => Some(self.tm.c(0, 32)),
            "__errno_location" => {
                // one errno cell per path, at a fixed note address
                let a = st.mem.get(&0x3fff_f000).map(|o| o.base);
                let a = match a {
                    Some(a) => a,
                    None => {
                        st.mem.insert(0x3fff_f000, Rc::new(Obj { base: 0x3fff_f000, size: 4, data: vec![0; 4], writable: true, heap: false }));
                        0x3fff_f000
                    }
                };
                Some(self.tm.c(a as u128, 64))
            }
            _ => return Err(Halt::Incomplete(format!("builtin {}", name))),
        })
    }

    fn llvm(&mut self, st: &mut State, name: &str, v: &[Val], ret: &Ty) -> R<Option<T>> {
        let base = |p: &str| name.starts_with(p);
        let arg = |i: usize| v[i].s();
        if base("llvm.memcpy") || base("llvm.memmove") {
            return self.builtin(st, "memmove", v).map(|_| None);
        }
        if base("llvm.memset") {
            return self.builtin(st, "memset", v).map(|_| None);
        }
        if base("llvm.is.constant") {
            return Ok(Some(FALSE));
        }
        if base("llvm.expect") || base("llvm.threadlocal.address") {
            return Ok(Some(arg(0)));
        }
        if base("llvm.x86.sse2.pause") || base("llvm.prefetch") || base("llvm.donothing") {
            return Ok(None);
        }
        if base("llvm.trap") || base("llvm.ubsantrap") {
            return Err(Halt::Panic("llvm.trap".into()));
        }
        if matches!(v.get(0), Some(Val::A(_))) {
            return Err(Halt::Incomplete(format!("vector intrinsic {}", name)));
        }
        let tm = &mut self.tm;
        let w = if v.is_empty() { 0 } else { tm.w(arg(0)) };
        if base("llvm.fshl") {
            let (a, b, s) = (arg(0), arg(1), arg(2));
            return Ok(Some(tm.fshl(a, b, s)));
        }
        if base("llvm.fshr") {
            // fshr(a,b,s) = fshl(a,b,w-s) for s%w != 0 else b
            let (a, b, s) = (arg(0), arg(1), arg(2));
            if let Some(k) = tm.k(s) {
                let k = (k % w as u128) as u32;
                if k == 0 {
                    return Ok(Some(b));
                }
                let sh = tm.c((w - k) as u128, w);
                return Ok(Some(tm.fshl(a, b, sh)));
            }
            return Err(Halt::Incomplete("fshr by a symbolic amount".into()));
        }
        if base("llvm.umax") {
            let c = tm.ult(arg(0), arg(1));
            return Ok(Some(tm.ite(c, arg(1), arg(0))));
        }
        if base("llvm.umin") {
            let c = tm.ult(arg(0), arg(1));
            return Ok(Some(tm.ite(c, arg(0), arg(1))));
        }
        if base("llvm.smax") {
            let c = tm.slt(arg(0), arg(1));
            return Ok(Some(tm.ite(c, arg(1), arg(0))));
        }
        if base("llvm.smin") {
            let c = tm.slt(arg(0), arg(1));
            return Ok(Some(tm.ite(c, arg(0), arg(1))));
        }
        if base("llvm.usub.sat") {
            let c = tm.ult(arg(0), arg(1));
            let z = tm.c(0, w);
            let s = tm.sub(arg(0), arg(1));
            return Ok(Some(tm.ite(c, z, s)));
        }
        if base("llvm.uadd.sat") {
            let o = tm.uaddo(arg(0), arg(1));
            let s = tm.add(arg(0), arg(1));
            let m = tm.c(mask(w), w);
            return Ok(Some(tm.ite(o, m, s)));
        }
        if base("llvm.abs") {
            let z = tm.c(0, w);
            let c = tm.slt(arg(0), z);
            let n = tm.sub(z, arg(0));
            return Ok(Some(tm.ite(c, n, arg(0))));
        }
        if base("llvm.bswap") {
            let n = w / 8;
            let ps: Vec<T> = (0..n).rev().map(|i| tm.extract(arg(0), i * 8, 8)).collect();
            return Ok(Some(tm.concat(&ps)));
        }
        if base("llvm.bitreverse") {
            let ps: Vec<T> = (0..w).rev().map(|i| tm.extract(arg(0), i, 1)).collect();
            return Ok(Some(tm.concat(&ps)));
        }
        if base("llvm.ctpop") {
            let mut items = vec![];
            for i in 0..w {
                let b = tm.extract(arg(0), i, 1);
                items.push((1u128, tm.zext(b, w)));
            }
            return Ok(Some(tm.lin(w, &items, 0)));
        }
        if base("llvm.cttz") || base("llvm.ctlz") {
            let tz = base("llvm.cttz");
            let mut r = tm.c(w as u128, w);
            for k in (0..w).rev() {
                let i = if tz { k } else { w - 1 - k };
                let b = tm.extract(arg(0), i, 1);
                let kk = tm.c(k as u128, w);
                r = tm.ite(b, kk, r);
            }
            return Ok(Some(r));
        }
        if base("llvm.ucmp") || base("llvm.scmp") {
            let rw = ret.bits();
            let s = base("llvm.scmp");
            let lt = if s { tm.slt(arg(0), arg(1)) } else { tm.ult(arg(0), arg(1)) };
            let gt = if s { tm.slt(arg(1), arg(0)) } else { tm.ult(arg(1), arg(0)) };
            let (m1, z, one) = (tm.c(mask(rw), rw), tm.c(0, rw), tm.c(1, rw));
            let x = tm.ite(gt, one, z);
            return Ok(Some(tm.ite(lt, m1, x)));
        }
        if name.contains(".with.overflow") {
            return Err(Halt::Incomplete("overflow intrinsic (handled elsewhere)".into()));
        }
        Err(Halt::Incomplete(format!("intrinsic {}", name)))
    }

    pub fn overflow_pair(&mut self, name: &str, a: T, b: T) -> Val {
        let tm = &mut self.tm;
        let (r, o) = if name.starts_with("llvm.uadd") {
            (tm.add(a, b), tm.uaddo(a, b))
        } else if name.starts_with("llvm.usub") {
            (tm.sub(a, b), tm.usubo(a, b))
        } else if name.starts_with("llvm.umul") {
            (tm.mul(a, b), tm.umulo(a, b))
        } else if name.starts_with("llvm.sadd") {
            (tm.add(a, b), tm.saddo(a, b))
        } else if name.starts_with("llvm.ssub") {
            (tm.sub(a, b), tm.ssubo(a, b))
        } else {
            (tm.mul(a, b), tm.smulo(a, b))
        };
        Val::A(Rc::new(vec![Val::S(r), Val::S(o)]))
    }
    pub fn functions(&self) -> Vec<(String, u64)> {
        let mut v: Vec<(String, u64)> =
            self.funcs.iter().map(|f| (demangle(&f.f.name), self.fsteps[f.id])).filter(|x| x.1 > 0).collect();
        v.sort_by(|a, b| b.1.cmp(&a.1));
        v
    }
}

fn is_builtin(n: &str) -> bool {
    matches!(
        n,
        "malloc"
            | "calloc"
            | "realloc"
            | "posix_memalign"
            | "free"
            | "memcpy"
            | "memmove"
            | "memset"
            | "bcmp"
            | "memcmp"
            | "strlen"
            | "getenv"
            | "abort"
            | "__errno_location"
            | "__cxa_thread_atexit_impl"
    )
}

fn rss() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4096
}
