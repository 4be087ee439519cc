//! Equality of two term DAGs by sweeping: nodes that agree on sample inputs are candidates;
//! a candidate pair is merged only when the solver proves it equal over a cut of the DAG
//! (an over-approximation of the nodes' values, so `unsat` is a proof).
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};

pub const K: usize = 6;
pub enum Outcome {
    Equal,
    Differ,
    Open(String),
}
#[derive(Default)]
pub struct Sweep {
    rep: FxMap<T, T>,
    sig: FxMap<T, [u128; K]>,
    class: FxMap<(u32, [u128; K]), Vec<T>>,
    lemmas: HashMap<String, Res>,
    pub queries: u64,
    pub merged: u64,
    pub by_lemma: u64,
    pub seconds: f64,
    pub failed: u64,
    pub deadline: Option<std::time::Instant>,
}
fn mixh(a: u64) -> u64 {
    let mut x = a.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}
pub fn sample(v: u32, k: usize) -> u128 {
    match k {
        0 => 0,
        1 => u128::MAX,
        _ => (mixh((v as u64) << 8 | k as u64) as u128) << 64 | mixh((v as u64) << 8 | 0x80 | k as u64) as u128,
    }
}
impl Sweep {
    fn sig(&mut self, tm: &Terms, t: T) -> [u128; K] {
        if let Some(s) = self.sig.get(&t) {
            return *s;
        }
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if self.sig.contains_key(&x) {
                st.pop();
                continue;
            }
            let l = st.len();
            let sig = &self.sig;
            tm.children(x, &mut |c| {
                if !sig.contains_key(&c) {
                    st.push(c)
                }
            });
            if st.len() > l {
                continue;
            }
            st.pop();
            let mut r = [0u128; K];
            for k in 0..K {
                r[k] = match tm.op(x) {
                    Op::Const => tm.k(x).unwrap(),
                    Op::Var => sample(tm.nodes[x as usize].a, k) & mask(tm.w(x)),
                    _ => tm.eval_with(x, &|c| self.sig[&c][k]),
                };
            }
            self.sig.insert(x, r);
        }
        self.sig[&t]
    }
    /// Expand a and b downwards, highest node first, stopping at nodes below both.
    fn cut(&self, tm: &Terms, a: T, b: T, open: &[T], limit: usize) -> Option<(Vec<T>, Vec<T>)> {
        let mut heap: BTreeMap<T, u8> = BTreeMap::new();
        heap.insert(a, 1);
        *heap.entry(b).or_insert(0) |= 2;
        let (mut inner, mut leaves) = (vec![], vec![]);
        while let Some((x, s)) = heap.pop_last() {
            if tm.is_c(x) {
                continue;
            }
            if tm.op(x) == Op::Var || (s == 3 && !open.contains(&x) && !matches!(tm.op(x), Op::And | Op::Or | Op::Xor | Op::Not)) {
                leaves.push(x);
                continue;
            }
            inner.push(x);
            if inner.len() > limit {
                return None;
            }
            tm.children(x, &mut |c| *heap.entry(c).or_insert(0) |= s);
        }
        Some((inner, leaves))
    }
    fn prove(&mut self, tm: &Terms, a: T, b: T) -> bool {
        let mut open: Vec<T> = vec![];
        for _round in 0..3 {
            let (mut inner, leaves) = match self.cut(tm, a, b, &open, 300) {
                Some(x) => x,
                None => return false,
            };
            inner.sort_unstable();
            let mut s = String::new();
            let mut lv = leaves.clone();
            lv.sort_unstable();
            for &l in &lv {
                s += &format!("(declare-const {} {})\n", name(tm, l), sort_of(tm.w(l)));
            }
            for &t in &inner {
                s += &format!("(define-fun t{} () {} {})\n", t, sort_of(tm.w(t)), smt_expr(tm, t));
            }
            s += &format!("(assert (not (= {} {})))\n(check-sat)\n", name(tm, a), name(tm, b));
            let key = canon(&s);
            let r = match self.lemmas.get(&key) {
                Some(r) => {
                    self.by_lemma += 1;
                    *r
                }
                None => {
                    let t0 = std::time::Instant::now();
                    let (r, _) = portfolio(&format!("(set-logic QF_BV)\n{}", key), 10000);
                    self.queries += 1;
                    if std::env::var("SWEEP_LOG").is_ok() {
                        eprintln!("--- {:?} {:.3}\n{}", r, t0.elapsed().as_secs_f64(), key);
                    }
                    self.seconds += t0.elapsed().as_secs_f64();
                    self.lemmas.insert(key, r);
                    r
                }
            };
            match r {
                Res::Unsat => return true,
                Res::Unknown => return false,
                Res::Sat => {
                    let more: Vec<T> = leaves.iter().copied().filter(|&x| tm.op(x) != Op::Var).collect();
                    if more.is_empty() {
                        return false;
                    }
                    open.extend(more);
                }
            }
        }
        false
    }
    fn late(&self) -> bool {
        self.deadline.map_or(false, |d| std::time::Instant::now() > d)
    }
    fn represent(&mut self, tm: &mut Terms, roots: &[T]) {
        let (order, _) = cone(tm, roots);
        for x in order {
            if self.rep.contains_key(&x) {
                continue;
            }
            let y = {
                let rep = &self.rep;
                tm.rebuild(x, &|c| rep.get(&c).copied().unwrap_or(c))
            };
            if y != x {
                if let Some(&r) = self.rep.get(&y) {
                    self.rep.insert(x, r);
                    continue;
                }
            }
            if tm.is_c(y) || tm.op(y) == Op::Var {
                self.rep.insert(x, y);
                continue;
            }
            let w = tm.w(y);
            let sg = self.sig(tm, y);
            let key = (w, sg);
            let cand = self.class.get(&key).cloned().unwrap_or_default();
            let mut r = y;
            if self.late() {
                return;
            }
            if w >= 32 || (w >= 8 && !matches!(tm.op(y), Op::Extract | Op::Concat)) {
                if sg.iter().all(|v| *v == sg[0]) {
                    let k = tm.c(sg[0], w);
                    if self.prove(tm, y, k) {
                        r = k;
                    }
                }
                for &c in &cand {
                    if r != y || c == y {
                        break;
                    }
                    if self.prove(tm, y, c) {
                        self.merged += 1;
                        r = c;
                    } else {
                        self.failed += 1;
                    }
                }
            }
            if r == y && cand.len() < 4 && !cand.contains(&y) {
                self.class.entry(key).or_default().push(y);
            }
            self.rep.insert(x, r);
            self.rep.insert(y, r);
        }
    }
    pub fn equal(&mut self, tm: &mut Terms, pairs: &[(T, T)]) -> Outcome {
        for &(a, b) in pairs {
            if a != b {
                if self.sig(tm, a) != self.sig(tm, b) {
                    return Outcome::Differ;
                }
            }
        }
        self.rep.clear();
        self.class.clear();
        let roots: Vec<T> = pairs.iter().flat_map(|x| [x.0, x.1]).collect();
        self.represent(tm, &roots);
        for &(a, b) in pairs {
            if a == b {
                continue;
            }
            let (x, y) = (self.rep.get(&a).copied().unwrap_or(a), self.rep.get(&b).copied().unwrap_or(b));
            if x != y {
                if !self.late() && self.prove(tm, x, y) {
                    continue;
                }
                return Outcome::Open(format!("{} and {} not merged", x, y));
            }
        }
        Outcome::Equal
    }
}
/// names replaced by their order of appearance
fn canon(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = String::with_capacity(s.len());
    let mut m: HashMap<&str, usize> = HashMap::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let start = i == 0 || matches!(b[i - 1], b' ' | b'(' | b'\n');
        if start && (c == b't' || c == b'v') && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            let st = i;
            i += 1;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let n = m.len();
            let k = *m.entry(&s[st..i]).or_insert(n);
            o += &format!("n{}", k);
        } else {
            o.push(c as char);
            i += 1;
        }
    }
    o
}
