//! SMT-LIB back end: one incremental z3 process plus a one-shot portfolio (z3, cvc5) for hard queries.
use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}
pub type Model = HashMap<u32, u128>; // var index -> value

pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub hard: u64,
    pub time: f64,
    pub max_time: f64,
}

struct Proc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    emitted: Vec<bool>,
    n_emitted: usize,
}

pub struct Solver {
    p: Option<Proc>,
    cache: HashMap<Vec<T>, (Res, Option<std::rc::Rc<Model>>)>,
    pub st: Stats,
    pub quick_ms: u64,
    pub hard_ms: u64,
    pub log: Option<std::fs::File>,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn sort_of(w: u32) -> String {
    if w == 1 {
        "Bool".into()
    } else {
        format!("(_ BitVec {})", w)
    }
}
fn cst(v: u128, w: u32) -> String {
    if w == 1 {
        return if v == 1 { "true".into() } else { "false".into() };
    }
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}
pub fn name(tm: &Terms, t: T) -> String {
    if let Some(v) = tm.k(t) {
        return cst(v, tm.w(t));
    }
    if tm.op(t) == Op::Var {
        return format!("v{}", tm.nodes[t as usize].a);
    }
    format!("t{}", t)
}
/// as bit-vector even for width 1
fn bvname(tm: &Terms, t: T) -> String {
    if tm.w(t) == 1 {
        match tm.k(t) {
            Some(0) => "#b0".into(),
            Some(_) => "#b1".into(),
            None => format!("(ite {} #b1 #b0)", name(tm, t)),
        }
    } else {
        name(tm, t)
    }
}

pub fn smt_expr(tm: &Terms, t: T) -> String {
    let n = tm.nodes[t as usize];
    let w = n.w as u32;
    let nm = |x: T| name(tm, x);
    let bin = |f: &str| format!("({} {} {})", f, nm(n.a), nm(n.b));
    match n.op {
        Op::Const | Op::Var => nm(t),
        Op::Not => format!("({} {})", if w == 1 { "not" } else { "bvnot" }, nm(n.a)),
        Op::And => bin(if w == 1 { "and" } else { "bvand" }),
        Op::Or => bin(if w == 1 { "or" } else { "bvor" }),
        Op::Xor => bin(if w == 1 { "xor" } else { "bvxor" }),
        Op::Sum => {
            let (k, ts) = &tm.sums[n.a as usize];
            let mut s = String::new();
            let mut cnt = 0;
            let mut first = true;
            // positives first so that subtraction can be used
            let m = mask(w);
            let mut pos = vec![];
            let mut neg = vec![];
            for (c, x) in ts.iter() {
                if to_signed(*c, w) < 0 && w > 1 {
                    neg.push((0u128.wrapping_sub(*c) & m, *x))
                } else {
                    pos.push((*c, *x))
                }
            }
            let one = |c: u128, x: T| if c == 1 { nm(x) } else { format!("(bvmul {} {})", cst(c, w), nm(x)) };
            for (c, x) in &pos {
                if first {
                    s = one(*c, *x);
                    first = false;
                } else {
                    s = format!("(bvadd {} {})", s, one(*c, *x));
                }
                cnt += 1;
            }
            let _ = cnt;
            if first {
                s = cst(*k, w);
                first = false;
            } else if *k != 0 {
                s = format!("(bvadd {} {})", s, cst(*k, w));
            }
            let _ = first;
            for (c, x) in &neg {
                s = format!("(bvsub {} {})", s, one(*c, *x));
            }
            s
        }
        Op::Mul => bin("bvmul"),
        Op::UDiv => bin("bvudiv"),
        Op::URem => bin("bvurem"),
        Op::SDiv => bin("bvsdiv"),
        Op::SRem => bin("bvsrem"),
        Op::Shl => bin("bvshl"),
        Op::LShr => bin("bvlshr"),
        Op::AShr => bin("bvashr"),
        Op::Concat => {
            let mut s = String::from("(concat");
            for &p in tm.cats[n.a as usize].iter().rev() {
                let _ = write!(s, " {}", bvname(tm, p));
            }
            s.push(')');
            s
        }
        Op::Extract => {
            if w == 1 {
                format!("(= ((_ extract {} {}) {}) #b1)", n.b, n.b, nm(n.a))
            } else {
                format!("((_ extract {} {}) {})", n.b + w - 1, n.b, nm(n.a))
            }
        }
        Op::SExt => {
            let aw = tm.w(n.a);
            format!("((_ sign_extend {}) {})", w - aw, bvname(tm, n.a))
        }
        Op::Eq => bin("="),
        Op::Ult => bin("bvult"),
        Op::Slt => bin("bvslt"),
        Op::Ite => format!("(ite {} {} {})", nm(n.a), nm(n.b), nm(n.c)),
        Op::UAddO => {
            let aw = tm.w(n.a);
            format!(
                "(= ((_ extract {0} {0}) (bvadd ((_ zero_extend 1) {1}) ((_ zero_extend 1) {2}))) #b1)",
                aw,
                nm(n.a),
                nm(n.b)
            )
        }
        Op::UMulO => {
            let aw = tm.w(n.a);
            format!(
                "(not (= ((_ extract {} {}) (bvmul ((_ zero_extend {}) {}) ((_ zero_extend {}) {}))) {}))",
                2 * aw - 1,
                aw,
                aw,
                nm(n.a),
                aw,
                nm(n.b),
                cst(0, aw)
            )
        }
        Op::SAddO | Op::SSubO => {
            let aw = tm.w(n.a);
            let f = if n.op == Op::SAddO { "bvadd" } else { "bvsub" };
            format!(
                "(let ((s ({} ((_ sign_extend 1) {}) ((_ sign_extend 1) {})))) (not (= ((_ extract {} {}) s) ((_ extract {} {}) s))))",
                f, nm(n.a), nm(n.b), aw, aw, aw - 1, aw - 1
            )
        }
        Op::SMulO => {
            let aw = tm.w(n.a);
            format!(
                "(let ((s (bvmul ((_ sign_extend {0}) {1}) ((_ sign_extend {0}) {2})))) (not (= s ((_ sign_extend {0}) ((_ extract {3} 0) s)))))",
                aw, nm(n.a), nm(n.b), aw - 1
            )
        }
    }
}

/// post-order list of non-leaf nodes and variables below the given roots
pub fn cone(tm: &Terms, roots: &[T]) -> (Vec<T>, Vec<u32>) {
    let mut seen: FxMap<T, bool> = Default::default();
    let mut order = vec![];
    let mut vars = vec![];
    let mut st: Vec<T> = roots.to_vec();
    while let Some(&x) = st.last() {
        match seen.get(&x) {
            Some(true) => {
                st.pop();
                continue;
            }
            Some(false) => {
                seen.insert(x, true);
                order.push(x);
                st.pop();
                continue;
            }
            None => {}
        }
        match tm.op(x) {
            Op::Const => {
                seen.insert(x, true);
                st.pop();
            }
            Op::Var => {
                seen.insert(x, true);
                vars.push(tm.nodes[x as usize].a);
                st.pop();
            }
            _ => {
                seen.insert(x, false);
                tm.children(x, &mut |c| {
                    if !seen.contains_key(&c) {
                        st.push(c)
                    }
                });
            }
        }
    }
    (order, vars)
}

pub fn script(tm: &Terms, asserts: &[T], want_model: bool) -> (String, Vec<u32>) {
    let (order, vars) = cone(tm, asserts);
    let mut s = String::from("(set-logic QF_BV)\n");
    if want_model {
        s.insert_str(0, "(set-option :produce-models true)\n");
    }
    for &v in &vars {
        let _ = writeln!(s, "(declare-const v{} {})", v, sort_of(tm.vars[v as usize].w));
    }
    for &t in &order {
        let _ = writeln!(s, "(define-fun t{} () {} {})", t, sort_of(tm.w(t)), smt_expr(tm, t));
    }
    for &a in asserts {
        let _ = writeln!(s, "(assert {})", name(tm, a));
    }
    s.push_str("(check-sat)\n");
    (s, vars)
}

pub fn parse_val(s: &str) -> Option<u128> {
    if s == "true" {
        return Some(1);
    }
    if s == "false" {
        return Some(0);
    }
    if let Some(h) = s.strip_prefix("#x") {
        return u128::from_str_radix(h, 16).ok();
    }
    if let Some(h) = s.strip_prefix("#b") {
        return u128::from_str_radix(h, 2).ok();
    }
    None
}
fn parse_model(txt: &str) -> Model {
    let mut m = Model::new();
    let toks: Vec<&str> = txt.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(n) = toks[i].strip_prefix('v') {
            if let (Ok(v), Some(x)) = (n.parse::<u32>(), parse_val(toks[i + 1])) {
                m.insert(v, x);
                i += 2;
                continue;
            }
        }
        i += 1;
    }
    m
}

impl Solver {
    pub fn new() -> Self {
        Solver {
            p: None,
            cache: HashMap::new(),
            st: Stats { queries: 0, sat: 0, unsat: 0, unknown: 0, cached: 0, hard: 0, time: 0.0, max_time: 0.0 },
            quick_ms: 1500,
            hard_ms: 60000,
            log: None,
        }
    }
    fn start(&mut self) {
        let mut child = Command::new("z3-new")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start z3-new");
        let mut inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let _ = writeln!(inp, "(set-option :global-declarations true)");
        let _ = writeln!(inp, "(set-option :timeout {})", self.quick_ms);
        self.p = Some(Proc { child, inp, out, emitted: vec![], n_emitted: 0 });
    }
    fn quick(&mut self, tm: &Terms, asserts: &[T]) -> (Res, Option<Model>) {
        if let Some(p) = &self.p {
            if p.n_emitted > 400_000 {
                self.p = None;
            }
        }
        if self.p.is_none() {
            self.start();
        }
        let p = self.p.as_mut().unwrap();
        // emit missing definitions
        let mut buf = String::new();
        let mut vars = vec![];
        {
            let em = &mut p.emitted;
            if em.len() < tm.len() {
                em.resize(tm.len(), false);
            }
            let mut st: Vec<(T, bool)> = asserts.iter().map(|&a| (a, false)).collect();
            while let Some((x, done)) = st.pop() {
                if em[x as usize] || tm.is_c(x) {
                    continue;
                }
                if tm.op(x) == Op::Var {
                    let v = tm.nodes[x as usize].a;
                    let _ = writeln!(buf, "(declare-const v{} {})", v, sort_of(tm.w(x)));
                    em[x as usize] = true;
                    continue;
                }
                if done {
                    let _ = writeln!(buf, "(define-fun t{} () {} {})", x, sort_of(tm.w(x)), smt_expr(tm, x));
                    em[x as usize] = true;
                    p.n_emitted += 1;
                } else {
                    st.push((x, true));
                    tm.children(x, &mut |c| {
                        if !em[c as usize] {
                            st.push((c, false))
                        }
                    });
                }
            }
        }
        buf.push_str("(push)\n");
        for &a in asserts {
            let _ = writeln!(buf, "(assert {})", name(tm, a));
        }
        buf.push_str("(check-sat)\n");
        if p.inp.write_all(buf.as_bytes()).is_err() || p.inp.flush().is_err() {
            self.p = None;
            return (Res::Unknown, None);
        }
        // the solver's own timeout does not cover all of its preprocessing
        if p.out.buffer().is_empty() && !readable(&p.out, self.quick_ms * 2 + 3000) {
            let _ = p.child.kill();
            let _ = p.child.wait();
            self.p = None;
            return (Res::Unknown, None);
        }
        let mut line = String::new();
        if p.out.read_line(&mut line).unwrap_or(0) == 0 {
            self.p = None;
            return (Res::Unknown, None);
        }
        let r = match line.trim() {
            "sat" => Res::Sat,
            "unsat" => Res::Unsat,
            "unknown" | "timeout" => Res::Unknown,
            e => {
                eprintln!("symx: solver said: {}", e);
                if e.contains("error") {
                    if let Some(f) = &mut self.log {
                        let _ = writeln!(f, "; error {}\n{}", e, buf);
                    }
                }
                self.p = None;
                return (Res::Unknown, None);
            }
        };
        let mut model = None;
        if r == Res::Sat {
            for &a in asserts {
                let (_, vs) = (0, &tm_support(tm, a));
                vars.extend_from_slice(vs);
            }
            vars.sort_unstable();
            vars.dedup();
            if vars.is_empty() {
                model = Some(Model::new());
            } else {
                let mut q = String::from("(get-value (");
                for v in &vars {
                    let _ = write!(q, "v{} ", v);
                }
                q.push_str("))\n(echo \"END\")\n");
                let _ = p.inp.write_all(q.as_bytes());
                let _ = p.inp.flush();
                let mut txt = String::new();
                loop {
                    let mut l = String::new();
                    if p.out.read_line(&mut l).unwrap_or(0) == 0 {
                        self.p = None;
                        return (Res::Unknown, None);
                    }
                    if l.trim() == "END" || l.trim() == "\"END\"" {
                        break;
                    }
                    txt.push_str(&l);
                }
                model = Some(parse_model(&txt));
            }
        }
        let p = self.p.as_mut().unwrap();
        let _ = p.inp.write_all(b"(pop)\n");
        (r, model)
    }

    /// one-shot portfolio for hard queries
    fn hard(&mut self, tm: &Terms, asserts: &[T]) -> (Res, Option<Model>) {
        let (mut s, vars) = script(tm, asserts, true);
        if !vars.is_empty() {
            s.push_str("(get-value (");
            for v in &vars {
                let _ = write!(s, "v{} ", v);
            }
            s.push_str("))\n");
        }
        let (r, txt) = portfolio(&s, self.hard_ms);
        let m = if r == Res::Sat { Some(parse_model(&txt)) } else { None };
        (r, m)
    }

    pub fn check(&mut self, tm: &mut Terms, asserts: &[T]) -> (Res, Option<std::rc::Rc<Model>>) {
        let mut key: Vec<T> = vec![];
        for &a in asserts {
            if a == FALSE {
                return (Res::Unsat, None);
            }
            if a != TRUE {
                key.push(a);
            }
        }
        key.sort_unstable();
        key.dedup();
        if key.is_empty() {
            return (Res::Sat, Some(std::rc::Rc::new(Model::new())));
        }
        if let Some((r, m)) = self.cache.get(&key) {
            self.st.cached += 1;
            return (*r, m.clone());
        }
        for &k in &key {
            tm.support(k);
        }
        let t0 = Instant::now();
        let (mut r, mut m) = self.quick(tm, &key);
        if r == Res::Unknown && self.hard_ms > 0 {
            self.st.hard += 1;
            let (r2, m2) = self.hard(tm, &key);
            r = r2;
            m = m2;
        }
        let dt = t0.elapsed().as_secs_f64();
        self.st.queries += 1;
        self.st.time += dt;
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        match r {
            Res::Sat => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        let mr = m.map(std::rc::Rc::new);
        if r != Res::Unknown {
            self.cache.insert(key, (r, mr.clone()));
        }
        (r, mr)
    }
}

fn readable<X: std::os::fd::AsRawFd>(r: &BufReader<X>, ms: u64) -> bool {
    #[repr(C)]
    struct PollFd {
        fd: i32,
        events: i16,
        revents: i16,
    }
    extern "C" {
        fn poll(p: *mut PollFd, n: u64, timeout: i32) -> i32;
    }
    let mut p = PollFd { fd: r.get_ref().as_raw_fd(), events: 1, revents: 0 };
    let t0 = Instant::now();
    loop {
        let left = ms as i64 - t0.elapsed().as_millis() as i64;
        let n = unsafe { poll(&mut p, 1, left.max(0) as i32) };
        if n > 0 {
            return true;
        }
        if n == 0 || left <= 0 {
            return false;
        }
    }
}
fn tm_support(tm: &Terms, a: T) -> Vec<u32> {
    cone(tm, &[a]).1
}

/// Run a complete SMT-LIB script on several solvers at once; first definite answer wins.
pub fn portfolio(s: &str, ms: u64) -> (Res, String) {
    let cmds: Vec<(&str, Vec<String>)> = vec![
        ("z3-new", vec!["-smt2".into(), format!("-T:{}", (ms / 1000).max(1))]),
        ("cvc5", vec!["--bv-solver=bitblast".into(), format!("--tlimit={}", ms), "--produce-models".into()]),
    ];
    portfolio_with(s, ms, cmds)
}
pub fn portfolio_with(s: &str, ms: u64, cmds: Vec<(&str, Vec<String>)>) -> (Res, String) {
    use std::sync::atomic::{AtomicU64, Ordering};
    static CTR: AtomicU64 = AtomicU64::new(0);
    let dir = std::env::temp_dir();
    let path = dir.join(format!("symx-{}-{}.smt2", std::process::id(), CTR.fetch_add(1, Ordering::Relaxed)));
    if std::fs::write(&path, s).is_err() {
        return (Res::Unknown, String::new());
    }
    let mut procs: Vec<(Child, std::path::PathBuf)> = vec![];
    for (i, (c, args)) in cmds.iter().enumerate() {
        let o = path.with_extension(format!("out{}", i));
        if let Ok(f) = std::fs::File::create(&o) {
            if let Ok(ch) = Command::new(c).args(args).arg(&path).stdout(f).stderr(Stdio::null()).spawn() {
                procs.push((ch, o));
            }
        }
    }
    let t0 = Instant::now();
    let mut res = (Res::Unknown, String::new());
    let mut done = vec![false; procs.len()];
    'outer: loop {
        let mut all = true;
        for i in 0..procs.len() {
            if done[i] {
                continue;
            }
            match procs[i].0.try_wait() {
                Ok(Some(_)) => {
                    done[i] = true;
                    let txt = std::fs::read_to_string(&procs[i].1).unwrap_or_default();
                    let first = txt.lines().next().unwrap_or("").trim().to_string();
                    if first == "sat" {
                        res = (Res::Sat, txt);
                        break 'outer;
                    }
                    if first == "unsat" {
                        res = (Res::Unsat, txt);
                        break 'outer;
                    }
                }
                _ => all = false,
            }
        }
        if all || t0.elapsed() > Duration::from_millis(ms + 2000) {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for (c, o) in procs.iter_mut() {
        let _ = c.kill();
        let _ = c.wait();
        let _ = std::fs::remove_file(o);
    }
    let _ = std::fs::remove_file(&path);
    res
}
