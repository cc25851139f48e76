"""Quick unsatisfiability prover: exact translation of bit-vector constraints to linear integer arithmetic where the
operations are linear (wrap-around made explicit), unconstrained variables elsewhere.  Only an 'unsat' answer is used."""
import z3
import term as tm
from term import T


class Lia:
    def __init__(self, timeout=150):
        self.timeout = timeout
        self.memo = {}
        self.side = {}
        self.n = 0
        self.tries = self.hits = 0

    def var(self, lo, hi, out):
        self.n += 1
        v = z3.Int(f"i{self.n}")
        out.append(v >= lo)
        out.append(v <= hi)
        return v

    def iv(self, x):
        """(expr, lo, hi)"""
        if isinstance(x, int):
            return z3.IntVal(x), x, x
        r = self.memo.get(x)
        if r is not None:
            self.use(x)
            return r
        side = []
        kids = set()
        r = self._iv(x, side, kids)
        self.memo[x] = r
        self.side[x] = (side, tuple(kids))
        self.use(x)
        return r

    def use(self, x):
        if self.acc is None or x in self.acc:
            return
        self.acc.add(x)
        s = self.side.get(x)
        if s:
            self.out.extend(s[0])
            for k in s[1]:
                self.use(k)

    def sub(self, x, kids):
        if isinstance(x, T):
            kids.add(x)
        return self.iv(x)

    def _iv(self, x, side, kids):
        op, w, a = x.op, x.w, x.a
        m = 1 << w
        if op == "lin":
            c, ts = a
            best = None
            parts = []
            lo = hi = 0
            for t, k in ts:
                e, l, h = self.sub(t, kids)
                ks = k if k < m // 2 else k - m
                parts.append(e if ks == 1 else ks * e)
                if ks > 0:
                    lo += ks * l
                    hi += ks * h
                else:
                    lo += ks * h
                    hi += ks * l
            cs = c if c < m // 2 else c - m
            lo += cs
            hi += cs
            if cs:
                parts.append(z3.IntVal(cs))
            S = z3.Sum(parts) if len(parts) > 1 else parts[0]
            q1, q2 = lo // m, hi // m
            if q1 == q2:
                e = S - q1 * m if q1 else S
                return e, max(lo - q1 * m, 0), min(hi - q1 * m, m - 1)
            q = self.var(q1, q2, side)
            v = self.var(x.lo, x.hi, side)
            side.append(v == S - m * q)
            return v, x.lo, x.hi
        if op == "cat":
            parts = []
            lo = hi = 0
            sh = w
            for v, n in a:
                sh -= n
                e, l, h = self.sub(v, kids) if not (isinstance(v, T) and v.w == 1) else self.bit(v, kids)
                parts.append(e * (1 << sh) if sh else e)
                lo += l << sh
                hi += h << sh
            return z3.Sum(parts), lo, hi
        if op == "ext":
            h_, l_ = a[1], a[2]
            e, l, h = self.sub(a[0], kids)
            ww = a[0].w
            if l_ == 0 and h <= tm.mask(h_ + 1):
                return e, l, h
            top = self.var(0, h >> (h_ + 1), side) if h >> (h_ + 1) else None
            bot = self.var(0, (1 << l_) - 1, side) if l_ else None
            v = self.var(x.lo, x.hi, side)
            s = v * (1 << l_) if l_ else v
            if top is not None:
                s = s + top * (1 << (h_ + 1))
            if bot is not None:
                s = s + bot
            side.append(e == s)
            return v, x.lo, x.hi
        if op == "sext":
            e, l, h = self.sub(a[0], kids)
            n = a[0].w
            if h < 1 << (n - 1):
                return e, l, h
            v = self.var(0, m - 1, side)
            side.append(v == z3.If(e >= (1 << (n - 1)), e + (m - (1 << n)), e))
            return v, 0, m - 1
        if op == "ite" and w > 1:
            c = self.bv(a[0], kids)
            e1, l1, h1 = self.sub(a[1], kids)
            e2, l2, h2 = self.sub(a[2], kids)
            lo, hi = min(l1, l2), max(h1, h2)
            v = self.var(lo, hi, side)
            side.append(v == z3.If(c, e1, e2))
            return v, lo, hi
        if op == "udiv" and isinstance(a[1], int) and a[1]:
            e, l, h = self.sub(a[0], kids)
            q = self.var(x.lo, x.hi, side)
            r = self.var(0, a[1] - 1, side)
            side.append(e == q * a[1] + r)
            return q, x.lo, x.hi
        v = self.var(x.lo, x.hi, side)
        return v, x.lo, x.hi

    def bit(self, v, kids):
        b = self.bv(v, kids)
        return z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1

    def bv(self, x, kids=None):
        """boolean"""
        if isinstance(x, int):
            return z3.BoolVal(bool(x))
        if kids is not None:
            kids.add(x)
        r = self.memo.get(x)
        if r is not None:
            self.use(x)
            return r
        side = []
        k = set()
        r = self._bv(x, side, k)
        self.memo[x] = r
        self.side[x] = (side, tuple(k))
        self.use(x)
        return r

    def _bv(self, x, side, kids):
        op, a = x.op, x.a
        if op == "not":
            return z3.Not(self.bv(a[0], kids))
        if op in ("band", "bor", "bxor"):
            p, q = self.bv(a[0], kids), self.bv(a[1], kids)
            return z3.And(p, q) if op == "band" else z3.Or(p, q) if op == "bor" else z3.Xor(p, q)
        if op == "ite":
            return z3.If(self.bv(a[0], kids), self.bv(a[1], kids), self.bv(a[2], kids))
        if op in ("eq", "ult", "slt"):
            w = a[0].w if isinstance(a[0], T) else a[1].w
            if w == 1:
                p, q = self.bv(a[0], kids), self.bv(a[1], kids)
                if op == "eq":
                    return p == q
                if op == "ult":
                    return z3.And(z3.Not(p), q)
                return z3.And(p, z3.Not(q))
            (e1, l1, h1), (e2, l2, h2) = self.sub(a[0], kids), self.sub(a[1], kids)
            if op == "eq":
                return e1 == e2
            if op == "ult":
                return e1 < e2
            hf, m = 1 << (w - 1), 1 << w

            def sg(e, l, h):
                if h < hf:
                    return e
                if l >= hf:
                    return e - m
                return z3.If(e >= hf, e - m, e)
            return sg(e1, l1, h1) < sg(e2, l2, h2)
        self.n += 1
        if op == "ext":
            e, l, h = self.sub(a[0], kids)
            b = z3.Bool(f"b{self.n}")
            l_ = a[2]
            top = self.var(0, h >> (l_ + 1), side) if h >> (l_ + 1) else None
            bot = self.var(0, (1 << l_) - 1, side) if l_ else None
            s = z3.If(b, z3.IntVal(1 << l_), z3.IntVal(0))
            if top is not None:
                s = s + top * (1 << (l_ + 1))
            if bot is not None:
                s = s + bot
            side.append(e == s)
            return b
        return z3.Bool(f"b{self.n}")

    def worth(self, ts):
        return any(self.has_lin(t) for t in ts)

    _hl = {}

    def has_lin(self, t):
        r = self._hl.get(t)
        if r is None:
            if t.op in ("ult", "slt", "eq"):
                w = t.a[0].w if isinstance(t.a[0], T) else t.a[1].w
                r = w >= 16 and any(isinstance(x, T) and x.op == "lin" for x in t.a)
                r = r or (w >= 32 and all(isinstance(x, T) for x in t.a))
                if not r:
                    r = False
            elif t.op in ("not", "band", "bor", "ite"):
                r = any(isinstance(x, T) and x.w == 1 and self.has_lin(x) for x in t.a)
            else:
                r = False
            self._hl[t] = r
        return r

    def unsat(self, ts, goal=()):
        groups = {}
        for t in goal:
            for x in tm.atoms(t):
                if x.op == "sel":
                    groups.setdefault(x.a[0], []).append(x)
        pairs = [(x, y) for g in groups.values() if 2 <= len(g) <= 6 for i, x in enumerate(g) for y in g[:i]]
        if not pairs and not self.worth(ts):
            return False
        self.tries += 1
        self.acc = set()
        self.out = []
        cons = [self.bv(t) for t in ts]
        s = z3.SolverFor("QF_LIA")
        s.set("timeout", self.timeout)
        for x, y in pairs:
            (i, _, _), (j, _, _), (v, _, _), (w, _, _) = self.iv(x.a[1]), self.iv(y.a[1]), self.iv(x), self.iv(y)
            cons.append(z3.Implies(i == j, v == w))
        s.add(*self.out)
        s.add(*cons)
        r = s.check() == z3.unsat
        self.acc = None
        self.hits += r
        return r
