"""Path-condition solver: constraint slicing, query cache, array elimination by congruence (array reads become
constants), a linear-integer pre-prover, z3 bit-vector solving, escalation to other tactics and cvc5."""
import subprocess
import tempfile
import time
import os
import z3
import term as tm
from term import T


DEBUG = bool(os.environ.get("VC_CHECKLIA"))


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.cached = 0
        self.backend = {}

    def __repr__(self):
        return f"q={self.queries} t={self.time:.1f} sat={self.sat} unsat={self.unsat} unk={self.unknown} cached={self.cached} {self.backend}"


_has_z3 = {}


def has_z3op(t):
    r = _has_z3.get(t)
    if r is None:
        r = any(x.op == "z3" for x in tm.atoms(t))
        if not r:
            for s in sels_of(t):
                if not isinstance(s.a[1], int) and has_z3op(s.a[1]):
                    r = True
        _has_z3[t] = r
    return r


_sels = {}


def sels_of(t):
    """set of sel terms inside t (including those inside indices)"""
    r = _sels.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in _sels:
            st.pop()
            continue
        d = tm.deps(x)
        kids = [y for y in d if y not in _sels]
        if kids:
            st.extend(kids)
            continue
        acc = frozenset()
        for y in d:
            s = _sels[y]
            if not s <= acc:
                acc = acc | s
        if x.op == "sel":
            acc = acc | {x}
        _sels[x] = acc
        st.pop()
    return _sels[t]


def congruence(a, b):
    if a.a[0] != b.a[0]:
        return None
    e = tm.eq(64, a.a[1], b.a[1])
    if isinstance(e, int) and e == 0:
        return None
    return z3.Implies(tm.zb(e), tm.z(a) == tm.z(b))


class Solver:
    def __init__(self, timeout_ms=4000, hard_ms=60000, cvc5=True):
        self.timeout_ms = timeout_ms
        self.hard_ms = hard_ms
        self.stats = Stats()
        self.use_cvc5 = cvc5
        self.cache = {}
        self.deadline = None
        self.lia = None
        import lia
        self.lia = lia.Lia()

    # ------------------------------------------------------------------
    def _slice(self, pc, extra):
        """constraints connected to `extra`; array reads count as independent unless they may alias"""
        A = tm.atoms
        bases = {}
        mixed = set()
        at = []
        for t in pc:
            at.append(A(t))
        ex = [A(t) for t in extra]
        for s in at + ex:
            for x in s:
                if x.op == "sel" and x.a[0] not in mixed:
                    b = tm.sel_base(x)
                    o = bases.setdefault(x.a[0], b)
                    if o != b:
                        mixed.add(x.a[0])
        idx = {}
        if mixed:
            def keys(s):
                out = set(s)
                for x in s:
                    if x.op == "sel" and x.a[0] in mixed:
                        out.add(x.a[0])
                        if isinstance(x.a[1], T):
                            out |= A(x.a[1])
                # nested indices
                return out
            at = [keys(s) for s in at]
            ex = [keys(s) for s in ex]
        for i, s in enumerate(at):
            for x in s:
                idx.setdefault(x, []).append(i)
        seen = set()
        todo = [x for s in ex for x in s]
        vis = set(todo)
        while todo:
            x = todo.pop()
            for i in idx.get(x, ()):
                if i not in seen:
                    seen.add(i)
                    for y in at[i]:
                        if y not in vis:
                            vis.add(y)
                            todo.append(y)
        return [pc[i] for i in sorted(seen)]

    def _all(self, ts):
        out = []
        known = []
        ks = set()
        for t in ts:
            for x in sels_of(t):
                if x not in ks:
                    for y in known:
                        c = congruence(x, y)
                        if c is not None:
                            out.append(c)
                    known.append(x)
                    ks.add(x)
            out.append(tm.zb(t))
        return out, known

    def check(self, pc, extra=(), hard=False, base=None):
        """-> ('sat', Model) | ('unsat', None) | ('unknown', None)"""
        st = self.stats
        st.queries += 1
        t0 = time.time()
        try:
            ex = []
            for t in extra:
                if isinstance(t, int):
                    if not t:
                        st.unsat += 1
                        return "unsat", None
                else:
                    ex.append(t)
            if any(has_z3op(t) for t in ex):
                return self._generic(pc, ex)
            if any(has_z3op(t) for t in pc):
                # floating-point constraints: first without them (an over-approximation unless the answer has to be exact)
                r, m = self.check([t for t in pc if not has_z3op(t)], ex, hard, base)
                return (r, m) if r == "unsat" or not hard else self._generic(pc, ex)
            full = base is None or not ex
            sl = list(pc) if full else self._slice(pc, ex)
            if len(sl) == len(pc):
                full = True
            key = (frozenset(sl), frozenset(ex))
            c = self.cache.get(key)
            if c is not None and (c[0] != "unknown" or not hard):
                st.cached += 1
                r, m = c
            else:
                r, m = self._solve(sl, ex, hard)
                self.cache[key] = (r, m)
            if r == "sat":
                st.sat += 1
                if not full:
                    m = self._merge(base, m, pc, sl, ex)
                return "sat", m
            if r == "unsat":
                st.unsat += 1
            else:
                st.unknown += 1
            return r, None
        finally:
            st.time += time.time() - t0

    def _merge(self, base, m, pc, sl, ex):
        """the solver's values for the slice, the previous model's values for everything else"""
        vals = dict(base.v)
        selv = {}
        bs = base.selv
        for t in pc:
            for x in sels_of(t):
                v = bs.get(x)
                if v is not None:
                    selv[x] = v
        for t in sl + ex:
            for x in tm.atoms(t):
                if x.op == "sym":
                    vals[x.a[0]] = m.ev(x)
            for x in sels_of(t):
                if x in m.selv:
                    selv[x] = m.selv[x]
        return tm.Model(vals=vals, selv=selv)

    def _solve(self, sl, ex, hard):
        st = self.stats
        ts = sl + ex
        if self.lia.unsat(ts, ex):
            st.backend["z3-lia"] = st.backend.get("z3-lia", 0) + 1
            if DEBUG:
                s = z3.Solver()
                s.set("timeout", 20000)
                s.add(*self._all(ts)[0])
                assert s.check() != z3.sat, ts
            return "unsat", None
        cons, known = self._all(ts)
        s = z3.SolverFor("QF_BV")
        s.set("timeout", self.timeout_ms)
        s.add(*cons)
        r = s.check()
        if r == z3.sat:
            return "sat", self._model(s, known, ts)
        if r == z3.unsat:
            st.backend["z3-bv"] = st.backend.get("z3-bv", 0) + 1
            return "unsat", None
        for tac in ("smt", "qfbv"):
            s = z3.Solver() if tac == "smt" else z3.Then("simplify", "solve-eqs", "bit-blast", "sat").solver()
            s.set("timeout", self.hard_ms if hard else self.timeout_ms * 2)
            s.add(*cons)
            r = s.check()
            if r == z3.unsat:
                st.backend["z3-" + tac] = st.backend.get("z3-" + tac, 0) + 1
                return "unsat", None
            if r == z3.sat:
                return "sat", self._model(s, known, ts)
        if self.use_cvc5 and hard:
            r = self.cvc5(cons, self.hard_ms)
            if r == "unsat":
                st.backend["cvc5"] = st.backend.get("cvc5", 0) + 1
                return "unsat", None
        return "unknown", None

    def _model(self, s, known, ts):
        m = tm.Model(z3m=s.model(), sels=known)
        # explicit values, so that the model can be merged and outlives the solver
        for t in ts:
            for x in tm.atoms(t):
                m.ev(x)
            for q in sels_of(t):
                m.ev(q)
        return m

    def _generic(self, pc, extra):
        st = self.stats
        cons, known = self._all(list(pc) + list(extra))
        s = z3.Solver()
        s.set("timeout", self.hard_ms)
        s.add(*cons)
        r = s.check()
        if r == z3.sat:
            st.sat += 1
            return "sat", tm.Model(z3m=s.model(), sels=known)
        if r == z3.unsat:
            st.unsat += 1
            st.backend["z3-fp"] = st.backend.get("z3-fp", 0) + 1
            return "unsat", None
        st.unknown += 1
        return "unknown", None

    def cvc5(self, cons, ms):
        s = z3.Solver()
        s.add(*cons)
        smt = "(set-logic QF_BV)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
        fd, p = tempfile.mkstemp(suffix=".smt2")
        try:
            with os.fdopen(fd, "w") as f:
                f.write(smt)
            r = subprocess.run(["cvc5", f"--tlimit={ms}", p], capture_output=True, text=True, timeout=ms / 1000 + 10)
            return r.stdout.strip().split("\n")[0]
        except Exception:
            return "unknown"
        finally:
            os.unlink(p)
