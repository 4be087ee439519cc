#!/usr/bin/env python3
"""Decide integer claims (congruences and inequalities) about bit-vector terms.

Input: the "alg" part of the executor's output.  Every term is turned into an integer
polynomial over atoms, equal to the term modulo 2^width; an atom is an input word or a
floor division R = 2^k*q + r of such a polynomial, with an interval.  A congruence holds
when the polynomial, with every r replaced by R - 2^k*q, has all coefficients divisible by
the modulus (confirmed by z3 over opaque monomials); inequalities and the ranges that make
a word equal to its polynomial are decided by intervals or by z3's linear arithmetic over
the definitions of the atoms.  Claims that do not hold are turned into input values.
  alg.py IN.json OUT.json [seed]"""
import json, random, sys, time
import z3

BASE = 1 << 256  # weight for readability only


class Ctx:
    def __init__(self, alg, pc, fixed=None, lim=8000, deadline=None):
        self.terms = {t[0]: t[1:] for t in alg["terms"]}
        self.xs = alg["xs"]
        self.fixed = fixed or {}
        self.lo, self.hi, self.df, self.nm = [], [], [], []
        self.memo, self.fmemo, self.full_memo = {}, {}, {}
        self.queries, self.zt, self.lim = 0, 0.0, lim
        self.deadline = deadline
        self.rng_memo = {}
        self.cuts = {}
        for t in self.terms.values():
            if t[0] == "Extract":
                b, l, n = t[2], t[3], t[1]
                self.cuts.setdefault(b, set()).update((l, l + n))
        self.vatom = {}
        self.vs = {}
        self.asked = set()
        self.pcs = []
        self.assume(pc)

    # ---- polynomials: {tuple of atoms: coefficient}
    @staticmethod
    def k(c):
        return {(): c} if c else {}

    @staticmethod
    def add(a, b, f=1):
        o = dict(a)
        for m, c in b.items():
            v = o.get(m, 0) + f * c
            if v:
                o[m] = v
            else:
                o.pop(m, None)
        return o

    @staticmethod
    def scale(a, f):
        return {m: c * f for m, c in a.items()} if f else {}

    @staticmethod
    def mul(a, b, mod=None):
        o = {}
        for m, c in a.items():
            for n, d in b.items():
                t = tuple(sorted(m + n))
                v = o.get(t, 0) + c * d
                if mod:
                    v %= mod
                o[t] = v
        return {m: c for m, c in o.items() if c}

    def atom(self, lo, hi, df, nm=None):
        self.lo.append(lo)
        self.hi.append(hi)
        self.df.append(df)
        self.nm.append(nm)
        return len(self.lo) - 1

    def mono(self, m):
        l, h = 1, 1
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            a, b, e = self.lo[m[i]], self.hi[m[i]], j - i
            if e % 2 == 0 and a < 0 < b:
                x, y = 0, max(a ** e, b ** e)
            else:
                x, y = sorted((a ** e, b ** e))
            c = (l * x, l * y, h * x, h * y)
            l, h = min(c), max(c)
            i = j
        return l, h

    def rng(self, p):
        l = h = 0
        for m, c in p.items():
            a, b = self.mono(m)
            if c > 0:
                l += c * a
                h += c * b
            else:
                l += c * b
                h += c * a
        key = tuple(sorted(p.items()))
        if key in self.rng_memo:
            a, b = self.rng_memo[key]
            l, h = max(l, a), min(h, b)
        return l, h

    # ---- floor division by 2^k and the rest
    def floor(self, p, k):
        if k == 0:
            return p
        l, h = self.rng(p)
        if l >> k == h >> k:
            return self.k(l >> k)
        if -1 <= l and h <= 0:
            return p
        v = [m for m in p if m]
        if len(v) == 1:
            a, b = self.mono(v[0])
            if b == a + 1:
                c, d = p[v[0]], p.get((), 0)
                x, y = (d + c * a) >> k, (d + c * b) >> k
                return self.add(self.k(x - (y - x) * a), {v[0]: y - x} if x != y else {})
        M = 1 << k
        out, rest = {}, {}
        for m, c in p.items():
            q, r = divmod(c, M)
            if r == 0:
                out[m] = q
            else:
                # the representative of smallest absolute value
                if r > M // 2:
                    q, r = q + 1, r - M
                if q:
                    out[m] = q
                rest[m] = r
        # a low group that cannot reach the next multiple of a power dividing the others
        for j in range(k - 1, 0, -1):
            g = {m: c for m, c in rest.items() if c % (1 << j)}
            if not g or len(g) == len(rest):
                continue
            a, b = self.rng(g)
            if 0 <= a and b < (1 << j):
                hi = {m: c >> j for m, c in rest.items() if m not in g}
                return self.add(out, self.floor(hi, k - j))
        if not rest:
            return out
        l, h = self.rng(rest)
        if l >> k == h >> k:
            return self.add(out, self.k(l >> k))
        return self.add(out, self.floor_raw(rest, k))

    def floor_raw(self, p, k):
        key = (tuple(sorted(p.items())), k)
        if key not in self.fmemo:
            l, h = self.rng(p)
            q = self.atom(l >> k, h >> k, ("q", p, k))
            r = self.atom(0, (1 << k) - 1, ("r", p, k, q))
            self.fmemo[key] = (q, r)
        return {(self.fmemo[key][0],): 1}

    def low(self, p, k):
        """p mod 2^k"""
        l, h = self.rng(p)
        if l >= 0 and h < (1 << k):
            return p
        if -1 <= l and h <= 0:
            return self.scale(p, -((1 << k) - 1))
        f = self.floor(p, k)
        key = None
        # the plain case keeps the rest as an atom of its own
        M = 1 << k
        rest = self.small(p, k)
        l, h = self.rng(rest)
        if l >= 0 and h < M:
            return rest
        if -1 <= l and h <= 0:
            return self.scale(rest, -(M - 1))
        key = (tuple(sorted(rest.items())), k)
        if key in self.fmemo:
            return {(self.fmemo[key][1],): 1}
        d = self.add(p, self.scale(f, M), -1)
        if len(d) > 1:
            # name it, so that its interval is known
            self.rng_memo[tuple(sorted(d.items()))] = (0, M - 1)
        return d

    # ---- terms
    def w(self, t):
        return self.terms[t][1]

    def cut(self, b, lo):
        """floor(E_b / 2^lo), through the cut points below lo"""
        p = self.E(b)
        w = self.w(b)
        at = 0
        for c in sorted(x for x in self.cuts.get(b, ()) if 0 < x <= lo and x < w):
            p = self.floor(p, c - at)
            at = c
        return self.floor(p, lo - at)

    def E(self, t):
        if t in self.memo:
            return self.memo[t]
        # avoid deep recursion: children first
        st = [t]
        while st:
            x = st[-1]
            if x in self.memo:
                st.pop()
                continue
            ch = [c for c in self.kids(x) if c not in self.memo]
            if ch:
                st.extend(ch)
                continue
            self.memo[x] = self.conv(x)
            st.pop()
        return self.memo[t]

    def kids(self, t):
        x = self.terms[t]
        if x[0] in ("Const", "Var"):
            return []
        if x[0] == "Sum":
            return [c[1] for c in x[3:]]
        if x[0] == "Extract":
            return [x[2]]
        return list(x[2:])

    def conv(self, t):
        x = self.terms[t]
        op, w = x[0], x[1]
        M = 1 << w
        if op == "Const":
            v = int(x[2])
            return self.k(v)
        if op == "Var":
            if x[2] in self.fixed:
                return self.k(self.fixed[x[2]] % M)
            a = self.atom(0, M - 1, None, x[2])
            self.vatom[x[2]] = a
            return {(a,): 1}
        if op == "Sum":
            v = int(x[2])
            p = self.k(v - M if v >= M // 2 else v)
            for c, y in x[3:]:
                c = int(c)
                p = self.add(p, self.E(y), c - M if c >= M // 2 else c)
            return p
        if op == "Mul":
            return self.mul(self.E(x[2]), self.E(x[3]))
        if op == "Extract":
            return self.cut(x[2], x[3])
        if op == "Concat":
            p, pos = {}, 0
            for i, y in enumerate(x[2:]):
                last = i == len(x) - 3
                e = self.E(y) if last else self.U(y)
                p = self.add(p, e, 1 << pos)
                pos += self.w(y)
            return p
        if op == "ZExt":
            return self.U(x[2])
        if op == "SExt":
            return self.S(x[2])
        if op == "Not":
            return self.add(self.k(1 if w == 1 else -1), self.U(x[2]), -1)
        if op == "Ult":
            d = self.add(self.U(x[2]), self.U(x[3]), -1)
            return self.scale(self.floor(d, self.w(x[2])), -1)
        if op == "Slt":
            d = self.add(self.S(x[2]), self.S(x[3]), -1)
            return self.scale(self.floor(d, self.w(x[2])), -1)
        if op == "Ite":
            c, a, b = self.U(x[2]), self.U(x[3]), self.U(x[4])
            if len(c) == 0:
                return b
            if c == {(): 1}:
                return a
            p = self.add(b, self.mul(c, self.add(a, b, -1)))
            (al, ah), (bl, bh) = self.rng(a), self.rng(b)
            self.rng_memo[tuple(sorted(p.items()))] = (min(al, bl), max(ah, bh))
            return p
        if op in ("And", "Or", "Xor"):
            a, b = self.U(x[2]), self.U(x[3])
            y = None
            if w == 1:
                y = self.mul(a, b)
            else:
                for u, v in ((a, b), (b, a)):
                    # a mask of equal bits: a multiple of 2^w-1
                    m = self.bit(u, M - 1)
                    if m is not None:
                        y = self.mul(m, v)
                        break
            if y is not None:
                if op == "And":
                    return y
                return self.add(self.add(a, b), y, -1 if op == "Or" else -2)
        return {(self.atom(0, M - 1, None, None),): 1}

    def bit(self, p, f):
        if all(c % f == 0 for c in p.values()):
            b = {m: c // f for m, c in p.items()}
            l, h = self.rng(b)
            if l >= 0 and h <= 1:
                return b
        return None

    def U(self, t):
        p, w = self.E(t), self.w(t)
        M = 1 << w
        p = self.small(p, w)
        l, h = self.rng(p)
        if 0 <= l and h < M:
            return p
        if -1 <= l and h <= 0:
            return self.scale(p, -(M - 1))
        if l >= -2 * M and h <= 3 * M and self.within(p, 0, M - 1):
            return p
        x = self.terms[t]
        if x[0] == "Extract":
            cs = sorted(c for c in self.cuts.get(x[2], ()) if x[3] < c < x[3] + w)
            if cs:
                o, at = {}, x[3]
                for c in cs + [x[3] + w]:
                    o = self.add(o, self.low(self.cut(x[2], at), c - at), 1 << (at - x[3]))
                    at = c
                self.cut(x[2], at)
                return o
        return self.low(p, w)

    @staticmethod
    def small(p, w):
        """coefficients of smallest absolute value modulo 2^w"""
        M = 1 << w
        o = {}
        for m, c in p.items():
            r = c % M
            if r > M // 2:
                r -= M
            if r:
                o[m] = r
        return o

    def S(self, t):
        p, w = self.E(t), self.w(t)
        H = 1 << (w - 1)
        l, h = self.rng(p)
        if -H <= l and h < H:
            return p
        if -2 * H <= l and h < 2 * H and self.within(p, -H, H - 1):
            return p
        u = self.U(t)
        return self.add(u, self.scale(self.floor(u, w - 1), 2 * H), -1)

    # ---- linear arithmetic over the definitions
    def cone(self, polys, top=0):
        """atoms and monomials reached from polys and the path condition, looking into the
        definitions of atoms from number top on"""
        need, todo = set(), [a for p in polys + self.pcs for m in p for a in m]
        mons = set(m for p in polys + self.pcs for m in p if m)
        while todo:
            a = todo.pop()
            if a in need:
                continue
            need.add(a)
            d = self.df[a]
            if d and a >= top:
                for m in d[1]:
                    if m:
                        mons.add(m)
                        todo.extend(m)
                todo.append(self.rest(a) if d[0] == "q" else d[3])
        return need, mons

    def rest(self, q):
        d = self.df[q]
        return self.fmemo[(tuple(sorted(d[1].items())), d[2])][1]

    def solver(self, polys, real=False, top=0):
        """the definitions as linear constraints; real: without integrality"""
        need, mons = self.cone(polys, top)
        mk = z3.Real if real else z3.Int
        v = {(a,): mk("x%d" % a) for a in need}
        for m in mons:
            if m not in v:
                v[m] = mk("m" + "_".join(map(str, m)))
        s = z3.SolverFor("QF_LRA" if real else "QF_LIA")
        s.set("timeout", self.lim)
        for m, x in v.items():
            l, h = self.mono(m)
            s.add(x >= l, x <= h)
        for a in need:
            d = self.df[a]
            if d and d[0] == "q" and a >= top:
                s.add(self.z(d[1], v) == (1 << d[2]) * v[(a,)] + v[(self.rest(a),)])
        for p in self.pcs:
            s.add(self.z(p, v) >= 1)
        return s, v

    @staticmethod
    def z(p, v):
        return z3.Sum([c * v[m] if m else z3.IntVal(c) for m, c in p.items()] + [z3.IntVal(0)])

    def check(self, s):
        t = time.time()
        if self.deadline:
            left = int((self.deadline - t) * 1000)
            if left <= 0:
                return "unknown"
            s.set("timeout", max(1, min(self.lim, left)))
        r = s.check()
        self.queries += 1
        self.zt += time.time() - t
        return str(r)

    def never(self, p, a, b):
        """no values of the inputs make p less than a or more than b"""
        l, h = self.rng(p)
        if a <= l and h <= b:
            return True
        return self.refute(p, lambda x: z3.Or(x <= a - 1, x >= b + 1))

    def refute(self, p, neg):
        """no values of the inputs make neg(p) true: first over the reals, with integrality
        only for the small atoms that turn out fractional, then over the integers"""
        at = sorted(self.cone([p])[0])
        tops = [at[-i] for i in (100, 200, 400) if i < len(at)]
        for top in tops + [0]:
            s, v = self.solver([p], True, top)
            s.add(neg(self.z(p, v)))
            split = set()
            for _ in range(40):
                r = self.check(s)
                if r == "unsat":
                    return True
                if r != "sat":
                    break
                mo = s.model()
                fr = []
                for m, x in v.items():
                    if m not in split:
                        l, h = self.mono(m)
                        if h - l <= 16:
                            y = mo.eval(x)
                            if z3.is_rational_value(y) and y.denominator_as_long() != 1:
                                fr.append((m, l, h))
                if not fr:
                    break
                fr.sort()
                for m, l, h in fr[:1]:
                    split.add(m)
                    s.add(z3.Or([v[m] == i for i in range(l, h + 1)]))
        s, v = self.solver([p])
        s.add(neg(self.z(p, v)))
        return self.check(s) == "unsat"

    def within(self, p, a, b):
        """decides only questions with few definitions; others are left to the end"""
        key = tuple(sorted(p.items()))
        l, h = self.rng(p)
        if a <= l and h <= b:
            return True
        if (key, a, b) in self.asked or len(self.cone([p])[0]) > 40:
            return False
        self.asked.add((key, a, b))
        if not self.never(p, a, b):
            return False
        self.rng_memo[key] = (max(a, l), min(b, h))
        return True

    def assume(self, pc):
        for t in pc:
            # bounds on single atoms refine their interval, the rest goes to the solver
            neg, x = False, t
            while self.terms[x][0] == "Not":
                neg, x = not neg, self.terms[x][2]
            y = self.terms[x]
            if y[0] == "Ult":
                p, q = self.E(y[2]), self.E(y[3])
                for u, other, up in ((p, q, not neg), (q, p, neg)):
                    if len(u) == 1 and all(not m for m in other):
                        (m, c), = u.items()
                        if c == 1 and len(m) == 1:
                            k = other.get((), 0)
                            b = k if neg else (k - 1 if up else k + 1)
                            a = m[0]
                            # the term must be the atom itself
                            if up and 0 <= self.lo[a]:
                                self.hi[a] = min(self.hi[a], b)
                            elif 0 <= self.lo[a]:
                                self.lo[a] = max(self.lo[a], b)
                self.memo.pop(x, None)
            self.pcs.append(self.U(t))
        self.pcs = [p for p in self.pcs if any(p)]

    # ---- integer expressions of the claims
    def X(self, i, memo=None):
        memo = {} if memo is None else memo
        st = [i]
        while st:
            j = st[-1]
            if j in memo:
                st.pop()
                continue
            x = self.xs[j]
            if x[0] in ("add", "sub", "mul"):
                ch = [c for c in x[1:] if c not in memo]
                if ch:
                    st.extend(ch)
                    continue
                a, b = memo[x[1]], memo[x[2]]
                memo[j] = self.mul(a, b) if x[0] == "mul" else self.add(a, b, 1 if x[0] == "add" else -1)
            elif x[0] == "V":
                if x[1] not in self.vs:
                    self.vs[x[1]] = self.atom(0, (1 << 255) - 1, None, None)
                memo[j] = {(self.vs[x[1]],): 1}
            elif x[0] == "K":
                memo[j] = self.k(int.from_bytes(bytes(x[1]), "little"))
            else:
                memo[j] = self.U(x[1]) if x[0] == "U" else self.S(x[1])
            st.pop()
        return memo[i]

    def full(self, a, m):
        """atom a with every rest replaced, modulo m"""
        d = self.df[a]
        if not d or d[0] == "q":
            return {(a,): 1}
        if (a, m) not in self.full_memo:
            self.full_memo[(a, m)] = self.add(self.expand(d[1], m), {(d[3],): 1}, -(1 << d[2]))
        return self.full_memo[(a, m)]

    def expand(self, p, m):
        o = {}
        fm = {}
        for mo, c in p.items():
            if mo not in fm:
                x = {(): 1}
                for a in mo:
                    x = self.mul(x, self.full(a, m), m)
                fm[mo] = x
            for k, v in fm[mo].items():
                o[k] = (o.get(k, 0) + c * v) % m
        return {k: v for k, v in o.items() if v}

    def less(self, D):
        return self.refute(D, lambda x: x >= 0)

    def congruent(self, a, b, m):
        D = self.add(self.X(a), self.X(b), -1)
        e = self.expand(D, m)
        # what is left can only be quotients that are always the same
        for a in sorted(set(a for mo in e for a in mo), reverse=True):
            if self.df[a] and self.hi[a] - self.lo[a] < 1 << 14 and self.lo[a] <= 0 <= self.hi[a]:
                if not self.never({(a,): 1}, 0, 0):
                    return False, D
                self.lo[a] = self.hi[a] = 0
                e = {mo: c for mo, c in e.items() if a not in mo}
        if e:
            return False, D
        # the solver's verdict: with every definition as a constraint on opaque monomials
        # (linear case), or on the expanded polynomial
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", self.lim)
        X = self.expand_int(D)
        v = {mo: z3.Int("m" + "_".join(map(str, mo))) for mo in X if mo}
        for mo, x in v.items():
            l, h = self.mono(mo)
            s.add(x >= l, x <= h)
        s.add(self.z(X, v) % m != 0)
        return self.check(s) == "unsat", D

    def expand_int(self, p):
        memo = {}

        def full(a):
            d = self.df[a]
            if not d or d[0] == "q":
                return {(a,): 1}
            if a not in memo:
                memo[a] = self.add(ex(d[1]), {(d[3],): 1}, -(1 << d[2]))
            return memo[a]

        def ex(p):
            o = {}
            for mo, c in p.items():
                x = {(): 1}
                for a in mo:
                    x = self.mul(x, full(a))
                for k, v in x.items():
                    o[k] = o.get(k, 0) + c * v
            return {k: v for k, v in o.items() if v}

        return ex(p)


# ---- concrete evaluation, for turning a failed claim into input values
def evaluate(alg, vals):
    M = {}
    for t in alg["terms"]:
        i, op, w, x = t[0], t[1], t[2], t[3:]
        k = (1 << w) - 1
        u = lambda j: M[j][0]
        sg = lambda j: M[j][0] - (1 << M[j][1]) if M[j][0] >> (M[j][1] - 1) else M[j][0]
        if op == "Const":
            v = int(x[0])
        elif op == "Var":
            v = vals.get(x[0], 0)
        elif op == "Sum":
            v = int(x[0]) + sum(int(c) * u(j) for c, j in x[1:])
        elif op == "Mul":
            v = u(x[0]) * u(x[1])
        elif op == "Extract":
            v = u(x[0]) >> x[1]
        elif op == "Concat":
            v = pos = 0
            for j in x:
                v |= u(j) << pos
                pos += M[j][1]
        elif op == "ZExt":
            v = u(x[0])
        elif op == "SExt":
            v = sg(x[0])
        elif op == "Not":
            v = ~u(x[0])
        elif op == "Ult":
            v = int(u(x[0]) < u(x[1]))
        elif op == "Slt":
            v = int(sg(x[0]) < sg(x[1]))
        elif op == "Eq":
            v = int(u(x[0]) == u(x[1]))
        elif op == "Ite":
            v = u(x[1]) if u(x[0]) else u(x[2])
        elif op == "And":
            v = u(x[0]) & u(x[1])
        elif op == "Or":
            v = u(x[0]) | u(x[1])
        elif op == "Xor":
            v = u(x[0]) ^ u(x[1])
        else:
            return None, None
        M[i] = (v & k, w)
    X = []
    for x in alg["xs"]:
        if x[0] == "V":
            X.append(pow(7, x[1] * 1000003 + 12345, (1 << 255) - 19))
            continue
        if x[0] == "U":
            X.append(M[x[1]][0])
        elif x[0] == "S":
            v, w = M[x[1]]
            X.append(v - (1 << w) if v >> (w - 1) else v)
        elif x[0] == "K":
            X.append(int.from_bytes(bytes(x[1]), "little"))
        else:
            a, b = X[x[1]], X[x[2]]
            X.append(a + b if x[0] == "add" else a - b if x[0] == "sub" else a * b)
    return M, X


def fails(alg, claim, vals):
    try:
        M, X = evaluate(alg, vals)
    except KeyError:
        return False
    if M is None:
        return False
    kind, a, b, m, _, pc = claim
    if any(not M[t][0] for t in pc):
        return False
    if kind == 0:
        return (X[a] - X[b]) % X[m] != 0
    return not X[a] < X[b]


def words(alg):
    return [(t[3], t[2]) for t in alg["terms"] if t[1] == "Var"]


def search(alg, claim, rnd, deadline):
    """input values for which the claim fails"""
    vs = words(alg)
    kind, a, b, m, name, pc = claim

    def pick(w):
        M = (1 << w) - 1
        c = rnd.random()
        if c < .2:
            return rnd.choice([0, 1, 2, 18, 19, M, M - 1, M - 18])
        if c < .6 and w == 64:
            B = rnd.choice([51, 52, 54])
            return max(0, min(M, rnd.choice([0, 1 << B, (1 << B) - 1, (1 << 51) - 19]) + rnd.choice([-20, -19, -18, -1, 0, 1])))
        return rnd.getrandbits(w)

    # the solver, with all inputs but one group fixed
    groups = sorted(set(n.split("#")[0] for n, _ in vs))
    plans = []
    for how in ("none", "one", "max", "rnd", "rnd", "rnd"):
        for g in groups:
            fx = {n: {"one": 1, "max": (1 << w) - 1}.get(how) if how in ("one", "max") else rnd.getrandbits(w)
                  for n, w in vs if n.split("#")[0] != g} if how != "none" else {}
            plans.append((g, fx))
            if how == "none":
                break
    for i in range(300):
        v = {n: pick(w) for n, w in vs}
        if fails(alg, claim, v):
            return v
    for g, fx in plans:
        if time.time() > deadline:
            break
        try:
            c = Ctx(alg, pc, fx, lim=15000, deadline=deadline)
            if kind == 0:
                D = c.add(c.X(a), c.X(b), -1)
                e = c.expand(D, int_of(alg, m))
                if not e:
                    continue
                s, v = c.solver([D])
                k, t = z3.Int("K"), z3.Int("t")
                s.add(c.z(D, v) == int_of(alg, m) * k + t, t >= 1, t < int_of(alg, m))
            else:
                D = c.add(c.X(a), c.X(b), -1)
                s, v = c.solver([D])
                s.add(c.z(D, v) >= 0)
            for _ in range(3):
                if c.check(s) != "sat":
                    break
                mo = s.model()
                val = dict(fx)
                cl = []
                for n, at in c.vatom.items():
                    x = v.get((at,))
                    z = mo.eval(x, model_completion=True).as_long() if x is not None else c.lo[at]
                    val[n] = z
                    if x is not None:
                        cl.append(x != z)
                if fails(alg, claim, val):
                    return val
                if not cl:
                    break
                s.add(z3.Or(cl))
        except z3.Z3Exception:
            pass
    while time.time() < deadline:
        v = {n: pick(w) for n, w in vs}
        if fails(alg, claim, v):
            return v
    return None


def int_of(alg, i):
    x = alg["xs"][i]
    if x[0] == "K":
        return int.from_bytes(bytes(x[1]), "little")
    raise ValueError("modulus")


def decide(alg, seed=1, limit=120, verbose=False):
    rnd = random.Random(seed)
    out = {"claims": 0, "proved": 0, "cex": [], "open": [], "queries": 0, "seconds": 0.0, "kinds": {}, "atoms": 0}
    t0 = time.time()
    ctxs = {}
    for cl in alg["claims"]:
        kind, a, b, m, name, pc = cl
        out["claims"] += 1
        key = tuple(pc)
        t = time.time()
        try:
            if key not in ctxs:
                ctxs[key] = Ctx(alg, pc, lim=20000, deadline=t0 + limit)
            c = ctxs[key]
            if kind == 0:
                ok, _ = c.congruent(a, b, int_of(alg, m))
            else:
                D = c.add(c.X(a), c.X(b), -1)
                ok = c.less(D)
        except RecursionError:
            ok = False
        if verbose:
            print("%-30s %s %.1fs" % (name, ok, time.time() - t))
        if ok:
            out["proved"] += 1
            out["kinds"][name] = out["kinds"].get(name, 0) + 1
            continue
        if any(x["name"] == name for x in out["cex"]):
            continue
        v = search(alg, cl, rnd, min(time.time() + 60, t0 + limit))
        if v is None:
            out["open"].append(name)
        else:
            out["cex"].append({"name": name, "model": {n: str(x) for n, x in v.items()}})
    out["queries"] = sum(c.queries for c in ctxs.values())
    out["solver_seconds"] = round(sum(c.zt for c in ctxs.values()), 2)
    out["atoms"] = sum(len(c.lo) for c in ctxs.values())
    out["seconds"] = round(time.time() - t0, 2)
    return out


if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    alg = json.load(open(sys.argv[1]))
    alg = alg.get("alg", alg)
    r = decide(alg, int(sys.argv[3]) if len(sys.argv) > 3 else 1, verbose="-v" in sys.argv)
    json.dump(r, open(sys.argv[2], "w"))
    if "-v" in sys.argv:
        print({k: v for k, v in r.items() if k != "cex"}, [c["name"] for c in r["cex"]])
