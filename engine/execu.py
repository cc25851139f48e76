"""Symbolic executor / verification-condition generator over LLVM IR."""
import re
import time
import math
import z3
import term as tm
from solver import has_z3op
from term import T
from mem import *
from llir import Reg, GlobalRef, Undef
import solver as sv

M64 = (1 << 64) - 1


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


class PathEnd(Exception):
    pass


class LoopLimit(Exception):
    def __init__(self, key):
        self.key = key


class Frame:
    __slots__ = ("fn", "regs", "bi", "ip", "prev", "allocas", "loops", "onret")

    def __init__(self, fn):
        self.fn = fn
        self.regs = [None] * fn.nregs
        self.bi = 0
        self.ip = 0
        self.prev = -1
        self.allocas = []
        self.loops = {}
        self.onret = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.bi, f.ip, f.prev = self.fn, list(self.regs), self.bi, self.ip, self.prev
        f.allocas = list(self.allocas)
        f.loops = dict(self.loops)
        f.onret = self.onret
        return f


class State:
    __slots__ = ("frames", "mem", "pc", "facts", "model", "exc", "caught", "token", "names", "steps", "replace", "trace", "inv", "meta", "fpints")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.facts = set()
        self.model = tm.Model()
        self.exc = None
        self.caught = []
        self.token = object()
        self.names = {}
        self.steps = 0
        self.replace = {}
        self.trace = []
        self.inv = None
        self.meta = {}
        self.fpints = {} # intervals of integers which result from converting floating-point values

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = set(self.facts)
        s.model = self.model
        s.exc = self.exc
        s.caught = list(self.caught)
        s.token = object()
        self.token = object()
        s.names = dict(self.names)
        s.steps = self.steps
        s.replace = self.replace
        s.trace = list(self.trace)
        s.inv = self.inv
        s.meta = dict(self.meta)
        s.fpints = self.fpints
        return s

    def add(self, c):
        if isinstance(c, int):
            assert c
            return
        if c.op == "band":
            self.add(c.a[0])
            self.add(c.a[1])
            self.facts.add(c)
            return
        if c in self.facts:
            return
        self.pc.append(c)
        self.facts.add(c)


STD_BASES = {
    "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt12out_of_range": ["_ZTISt11logic_error"],
    "_ZTISt16invalid_argument": ["_ZTISt11logic_error"], "_ZTISt11logic_error": ["_ZTISt9exception"],
    "_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt9bad_alloc": ["_ZTISt9exception"],
    "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"], "_ZTISt12system_error": ["_ZTISt13runtime_error"],
    "_ZTINSt8ios_base7failureB5cxx11E": ["_ZTISt12system_error"], "_ZTISt8bad_cast": ["_ZTISt9exception"],
    "_ZTISt17bad_function_call": ["_ZTISt9exception"], "_ZTISt19bad_optional_access": ["_ZTISt9exception"],
    "_ZTISt18bad_variant_access": ["_ZTISt9exception"], "_ZTISt11range_error": ["_ZTISt13runtime_error"],
    "_ZTIN12CppUtilities19ConversionExceptionE": ["_ZTISt13runtime_error"],
    "_ZTINSt10filesystem7__cxx1116filesystem_errorE": ["_ZTISt12system_error"],
}


class Engine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        o = dict(max_paths=20000, max_steps=20_000_000, unroll=64, conc_unroll=3000, time=600, max_enum=64, timeout_ms=4000, hard_ms=60000)
        o.update(opts or {})
        self.o = o
        self.solver = sv.Solver(o["timeout_ms"], o["hard_ms"])
        self.nobj = 0
        self.gids = {}
        self.violations = []
        self.undecided = []
        self.oblig = {}      # (label) -> dict(count, discharged, trivial)
        self.covers = set()
        self.covers_seen = set()
        self.paths = 0
        self.dropped = 0
        self.steps = 0
        self.fns = {}
        self.tids = {}
        self.replaced_used = {}
        self.models_used = set()
        self.bounded = []
        self.inv_loops = {}
        self.builtin_cache = {}
        self.dem2fn = None
        self.assumed = set()
        import builtins_vc
        self.bi = builtins_vc.Builtins(self)
        self.jumped = builtins_vc.Jumped
        self.disp = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith("op_")}
        self.work = []
        self.stop = False
        self.t0 = time.time()
        self.inputs = {}
        self.forks = {}
        self.loopeng = None

    # ------------------------------------------------------------------ objects
    def new_obj(self, st, size, base, name, kind, ro=False):
        self.nobj += 1
        o = Obj(self.nobj, size, base, name, kind, st.token, ro)
        st.mem[o.id] = o
        return o

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner is not st.token:
            o = o.clone(st.token)
            st.mem[oid] = o
        return o

    def gobj(self, st, name):
        gid = self.gids.get(name)
        if gid is None:
            self.nobj += 1
            gid = self.gids[name] = self.nobj
        if gid not in st.mem:
            m = self.mod
            g = m.globals.get(name)
            if g is None:
                raise Unsupported(f"unknown global {name}")
            import llir
            Lb = llir.lib()
            ty = m.ty(Lb.LLVMGlobalGetValueType(g))
            ini = Lb.LLVMGetInitializer(g)
            ro = bool(Lb.LLVMIsGlobalConstant(g))
            o = Obj(gid, ty.size, L_ZERO if ini else L_UNDEF, name, "global", st.token, ro)
            if ini:
                self.init_cells(o.cells, 0, ty, m.const(ini))
            elif not name.startswith("_ZT"):
                o.base = L("arr", f"ext!{name}")
                o.size = ty.size or 8
            st.mem[gid] = o
        return gid

    def init_cells(self, cells, off, ty, v):
        if isinstance(v, Undef):
            return
        if ty.k in ("struct",):
            if v == 0:
                return
            for e, o, x in zip(ty.elems, ty.offs, v):
                self.init_cells(cells, off + o, e, x)
        elif ty.k in ("array", "vector"):
            if v == 0:
                return
            e = ty.elems[0]
            for i, x in enumerate(v):
                self.init_cells(cells, off + i * e.size, e, x)
        else:
            if isinstance(v, int) and v == 0:
                return  # zero background
            if isinstance(v, int) and ty.size > 8:
                for i in range(0, ty.size, 8):
                    cells[off + i] = (8, (v >> (8 * i)) & M64)
                return
            if isinstance(v, GlobalRef):
                v = self.resolve_gref(v)
            cells[off] = (ty.store, v)

    def resolve_gref(self, v):
        n = self.mod.resolve(v.name)
        if n in self.mod.funcs:
            return FnPtr(n)
        return ("g", n, v.off)

    # ------------------------------------------------------------------ solver helpers
    def ev(self, st, c):
        """value of c under the cached model, or None"""
        if isinstance(c, int):
            return c
        m = st.model
        if m is None:
            return None
        try:
            return m.ev(c)
        except tm.NoEval:
            return None

    def get_model(self, st):
        if st.model is None:
            r, m = self.solver.check(st.pc)
            if r == "unsat":
                raise PathEnd()
            st.model = m
        return st.model

    def assume(self, st, c):
        """add c; PathEnd if infeasible"""
        if isinstance(c, int):
            if not c:
                raise PathEnd()
            return
        if c in st.facts:
            return
        if self.ev(st, c) == 1:
            st.add(c)
            return
        r, m = self.solver.check(st.pc, (c,), base=st.model)
        if r == "unsat":
            raise PathEnd()
        st.add(c)
        st.model = m

    def must(self, st, c):
        if isinstance(c, int):
            return bool(c)
        if c in st.facts:
            return True
        if c.op == "not" and c.a[0] in st.facts:
            pass
        if self.ev(st, c) == 0:
            return False
        r, m = self.solver.check(st.pc, (tm.bnot(c),), base=st.model)
        if r == "unsat":
            st.facts.add(c)
            return True
        return False

    def decide(self, st, c):
        """1 / 0 if forced, None if both possible; forks are up to the caller"""
        if isinstance(c, int):
            return c
        if c in st.facts:
            return 1
        n = tm.bnot(c)
        if n in st.facts:
            return 0
        v = self.ev(st, c)
        if v is None:
            m = self.get_model(st)
            v = self.ev(st, c) if m else None
        if v == 1:
            r, m = self.solver.check(st.pc, (n,), base=st.model)
            if r == "unsat":
                st.facts.add(c)
                return 1
            return None
        if v == 0:
            r, m = self.solver.check(st.pc, (c,), base=st.model)
            if r == "unsat":
                st.facts.add(n)
                return 0
            return None
        r, _ = self.solver.check(st.pc, (n,), base=st.model)
        if r == "unsat":
            st.facts.add(c)
            return 1
        r, _ = self.solver.check(st.pc, (c,), base=st.model)
        if r == "unsat":
            st.facts.add(n)
            return 0
        return None

    def require(self, st, c):
        """bool value of c on this path (forks when both are possible)"""
        d = self.decide(st, c)
        if d is None:
            raise Fork([c, tm.bnot(c)])
        return bool(d)

    def concretize(self, st, t, w=64, limit=None, what="value"):
        if isinstance(t, int):
            return t
        limit = limit or self.o["max_enum"]
        vals = []
        m = self.get_model(st)
        extra = []
        while True:
            if m is None:
                raise Unsupported(f"cannot enumerate {what}")
            v = m.ev(t)
            vals.append(v)
            extra.append(tm.ne(w, t, v))
            if len(vals) > limit:
                raise Unsupported(f"too many values for {what}: {tm.show(t)[:200]}")
            r, m = self.solver.check(st.pc, tuple(extra), base=st.model)
            if r == "unsat":
                break
            if r == "unknown":
                raise Unsupported(f"cannot enumerate {what}")
        if len(vals) == 1:
            st.facts.add(tm.eq(w, t, vals[0]))
            return vals[0]
        raise Fork([tm.eq(w, t, v) for v in sorted(vals)])

    # ------------------------------------------------------------------ obligations
    def where(self, st):
        out = []
        for f in reversed(st.frames):
            I = f.fn.blocks[f.bi].insts[min(f.ip, len(f.fn.blocks[f.bi].insts) - 1)]
            out.append((f.fn.demangled, I.file, I.line))
        return out

    def oblige(self, st, c, label, kind="ensure"):
        """obligation c; on failure records a violation and continues with c assumed"""
        ob = self.oblig.setdefault(label, dict(kind=kind, vcs=0, discharged=0, failed=0, undecided=0))
        if isinstance(c, int):
            ob["vcs"] += 1
            if c:
                ob["discharged"] += 1
                return
            ob["failed"] += 1
            m = self.get_model(st)
            self.violate(st, m, label, kind)
            raise PathEnd()
        ob["vcs"] += 1
        if c in st.facts:
            ob["discharged"] += 1
            return
        n = tm.bnot(c)
        if self.ev(st, c) == 0 and not any(has_z3op(t) for t in st.pc):
            self.violate(st, st.model, label, kind)
            ob["failed"] += 1
        else:
            r, m = self.solver.check(st.pc, (n,), hard=True, base=st.model)
            if r == "unsat":
                ob["discharged"] += 1
                st.facts.add(c)
                return
            if r == "sat":
                ob["failed"] += 1
                self.violate(st, m, label, kind)
            else:
                ob["undecided"] += 1
                self.undecided.append((label, "solver gave no answer", self.where(st)[:3]))
        self.assume(st, c)

    def violate(self, st, m, label, kind):
        if st.inv is not None and st.inv.discovering:
            raise PathEnd()
        abstract = bool(st.meta.get("abstract"))
        v = dict(label=label, kind=kind, where=self.where(st)[:12], inputs=None, abstract=abstract)
        if m is not None:
            v["inputs"] = self.dump_inputs(st, m)
        self.violations.append(v)
        n = sum(1 for x in self.violations if x["label"] == label)
        if n >= self.o.get("max_viol_per_label", 6) or len(self.violations) >= self.o.get("max_viol", 24):
            self.stop = len(self.violations) >= self.o.get("max_viol", 24)

    def dump_inputs(self, st, m):
        """values of the harness inputs, by name, in order of creation"""
        out = []
        for name, (kind, w) in st.names.items():
            if kind == "sym":
                out.append((name, "u", m.ev(tm.sym(name, w))))
            elif kind == "arr":
                d = {}
                for t in list(tm.array_sels.get(name, ())):
                    try:
                        i = m.ev(t.a[1])
                        d[i] = m.ev(t)
                    except tm.NoEval:
                        pass
                d.update(m.ar.get(name, {}))
                out.append((name, "b", {k: v for k, v in sorted(d.items()) if v}))
        return out

    # ------------------------------------------------------------------ memory
    def access(self, st, p, n, what, write=False):
        """check a memory access, return object"""
        if isinstance(p, tuple):
            p = self.gptr(st, p)
        if not isinstance(p, Ptr):
            if isinstance(p, int):
                self.oblige(st, 0, f"valid pointer in {what}" + self.fname(st), "memory")
            raise Unsupported(f"dereference of {p!r}")
        o = st.mem.get(p.o)
        if o is None:
            raise Unsupported("dangling object id")
        if not o.alive:
            self.oblige(st, 0, "no use of freed memory" + self.fname(st), "memory")
        off, size = p.off, o.size
        if isinstance(off, int) and isinstance(size, int) and isinstance(n, int):
            if off + n <= size:
                return o
            self.oblige(st, 0, f"{what} in bounds" + self.fname(st), "memory")
        c = self.inb(off, n, size)
        if c != 1:
            self.oblige(st, c, f"{what} in bounds" + self.fname(st), "memory")
        return o

    @staticmethod
    def inb(off, n, size):
        if isinstance(n, int) and n == 0:
            return tm.ule(64, off, size)
        if isinstance(n, int) and isinstance(size, int):
            if n > size:
                return 0
            return tm.ule(64, off, size - n)
        return tm.band(1, tm.ule(64, off, size), tm.ule(64, n, tm.sub(64, size, off)))

    def fname(self, st):
        """nearest frame inside the library under test, as obligation owner"""
        for f in reversed(st.frames):
            d = f.fn.demangled
            if "TagParser::" in d.split("(")[0] or "CppUtilities::" in d.split("(")[0]:
                return " [" + re.sub(r"\(.*", "", d) + "]"
        return " [" + re.sub(r"\(.*", "", st.frames[-1].fn.demangled) + "]"

    def gptr(self, st, t):
        return Ptr(self.gobj(st, t[1]), t[2] & M64)

    def load(self, st, p, ty):
        if ty.k == "struct":
            return [self.load(st, self.padd(st, p, o), e) for e, o in zip(ty.elems, ty.offs)]
        if ty.k in ("array", "vector"):
            e = ty.elems[0]
            return [self.load(st, self.padd(st, p, i * e.size), e) for i in range(ty.n)]
        n = ty.store
        o = self.access(st, p, n, "read")
        if isinstance(p, tuple):
            p = self.gptr(st, p)
        if n > 8:
            if ty.k != "int":
                raise Unsupported(f"load of {ty.k}")
            parts = []
            i = 0
            while i < n:
                k = min(8, n - i)
                parts.append((self.read(st, o, tm.add(64, p.off, i), k), 8 * k))
                i += k
            v = tm.cat(list(reversed(parts)))
            return tm.trunc(ty.w, v) if ty.w < 8 * n else v
        v = self.read(st, o, p.off, n)
        return self.as_type(st, v, ty, n)

    def as_type(self, st, v, ty, n):
        if isinstance(v, tuple):
            v = self.gptr(st, v)
        k = ty.k
        if k == "int":
            if isinstance(v, float):
                return f2i(v, n)
            if isinstance(v, FV):
                return fp_bits(v)
            if ty.w < 8 * n and isinstance(v, (int, T)):
                return tm.trunc(ty.w, v)
            return v
        if k == "ptr":
            return v
        if k in ("float", "double"):
            if isinstance(v, (float, FV)):
                return v
            if isinstance(v, int):
                return i2f(v, n)
            if isinstance(v, T):
                return FV(z3.fpBVToFP(tm.z(v), fsort(ty.w)), ty.w)
        raise Unsupported(f"load of {k}")

    def read(self, st, o, off, n):
        if isinstance(off, int):
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                return c[1]
        und = []
        v = self._rd(st, L("cells", o.cells, o.base) if o.cells else o.base, off, n, und)
        if und and isinstance(off, int) and not isinstance(v, PtrByte):
            w = self.wobj(st, o.id)
            self.write(st, w, off, n, v)
        return v

    def _asm(self, st, layer, off, n, und):
        return assemble([self._rd(st, layer, tm.add(64, off, i), 1, und) for i in range(n)])

    def _ite(self, st, n, c, a, b):
        if isinstance(c, int):
            return a if c else b
        if isinstance(a, (int, T)) and isinstance(b, (int, T)):
            return tm.ite(8 * n, c, a, b)
        if type(a) is type(b) and a == b:
            return a
        raise Fork([c, tm.bnot(c)])

    def _rd(self, st, layer, off, n, und):
        while True:
            k = layer.kind
            if k == "cells":
                d = layer.x
                if isinstance(off, int):
                    c = d.get(off)
                    if c is not None and c[0] == n:
                        return c[1]
                    hit = None
                    for o in range(off - 7, off + n):
                        c = d.get(o)
                        if c is not None and o + c[0] > off:
                            hit = (o, c)
                            break
                    if hit is None:
                        layer = layer.parent
                        continue
                    o, c = hit
                    if o <= off and o + c[0] >= off + n:
                        v = c[1]
                        if n == 1:
                            return byte_of(v, c[0], off - o)
                        if isinstance(v, (int, T)):
                            return tm.extract(v, 8 * (off - o + n) - 1, 8 * (off - o))
                    if n == 1:
                        return byte_of(c[1], c[0], off - o)
                    return self._asm(st, layer, off, n, und)
                # symbolic offset
                if not d:
                    layer = layer.parent
                    continue
                lo, hi = tm.lo_(off), tm.hi_(off)
                c0, ts = tm._lin_parts(off, 64)
                g = 0
                for x, cf in ts:
                    if x.op == "cat" and x.a[-1][0] == 0:
                        cf <<= x.a[-1][1]
                    g = math.gcd(g, cf)
                g = g & -g if g else 1
                cand = []
                exact = g % n == 0
                for o, (sz, v) in d.items():
                    if o + sz <= lo or o >= hi + n:
                        continue
                    if sz == n and exact and (o - c0) % n == 0:
                        if (o - c0) % g == 0:
                            cand.append((o, v))
                        continue
                    exact = False
                    break
                if exact:
                    if len(cand) > 1100:
                        raise Unsupported("symbolic read from a large table")
                    rest = None
                    if len(cand) >= 64 and layer.parent is not None and layer.parent.kind in ("zero", "undef"):
                        cd = dict(cand)
                        top = max(cd) // n + 1
                        if n & (n - 1) == 0 and top < 5000 and layer.parent.kind == "zero" and all(isinstance(v, int) for v in cd.values()) and hi < top * n:
                            vals = [cd.get(i * n, 0) for i in range(top)]
                            key = (n, tuple(vals))
                            tm.tables.setdefault(key, (n, vals))
                            return tm.tab(key, off, 8 * n)
                    if len(cand) > 4:
                        # restrict to what the path allows
                        cand = self._feasible(st, off, cand)
                    try:
                        rest = self._rd(st, layer.parent, off, n, und)
                    except Unsupported:
                        if not cand:
                            raise
                        rest = cand[0][1]
                    r = rest
                    for o, v in sorted(cand, key=lambda p: p[0]):
                        if isinstance(v, tuple):
                            v = self.gptr(st, v)
                        if not isinstance(v, (int, T)) or not isinstance(r, (int, T)):
                            self.concretize(st, off, 64, 300, "index into a table of pointers")
                            off = self.fact_const(st, off)
                            return self._rd(st, layer, off, n, und)
                        r = tm.ite(8 * n, tm.eq(64, off, o), v, r)
                    return r
                if n > 1:
                    return self._asm(st, layer, off, n, und)
                r = self._rd(st, layer.parent, off, 1, und)
                bs = []
                for o, (sz, v) in d.items():
                    if o + sz <= lo or o > hi:
                        continue
                    for j in range(sz):
                        bs.append((o + j, v, sz, j))
                if len(bs) > 8:
                    f = dict.fromkeys(x for x, _ in self._feasible(st, off, [(b[0], 0) for b in bs]))
                    bs = [b for b in bs if b[0] in f]
                if len(bs) > 2000:
                    raise Unsupported("symbolic read from a large object")
                for o, v, sz, j in sorted(bs, key=lambda b: b[0]):
                    b = byte_of(v, sz, j)
                    r = self._ite(st, 1, tm.eq(64, off, o), b, r)
                return r
            if k == "store":
                o2, n2, v = layer.x
                dd = tm.sub(64, off, o2)
                if isinstance(dd, int):
                    if dd == 0 and n == n2:
                        return v
                    if dd >= n2 and dd <= (1 << 64) - n:
                        layer = layer.parent
                        continue
                    if dd + n <= n2:
                        if n == 1:
                            return byte_of(v, n2, dd)
                        if isinstance(v, (int, T)):
                            return tm.extract(v, 8 * (dd + n) - 1, 8 * dd)
                    if n == 1:
                        return byte_of(v, n2, dd)
                    return self._asm(st, layer, off, n, und)
                if n == n2:
                    if self.must(st, tm.eq(64, dd, 0)):
                        return v
                dis = tm.band(1, tm.ule(64, n2, dd), tm.ule(64, dd, (1 << 64) - n))
                if self.must(st, dis):
                    layer = layer.parent
                    continue
                if n == n2 and n > 1 and self.must(st, tm.bor(1, dis, tm.eq(64, dd, 0))):
                    return self._ite(st, n, tm.eq(64, dd, 0), v, self._rd(st, layer.parent, off, n, und))
                if n > 1:
                    return self._asm(st, layer, off, n, und)
                r = self._rd(st, layer.parent, off, 1, und)
                for j in range(n2):
                    r = self._ite(st, 1, tm.eq(64, dd, j), byte_of(v, n2, j), r)
                return r
            if k == "fill" or k == "copy":
                o2, ln = layer.x[0], layer.x[1]
                dd = tm.sub(64, off, o2)
                # inside: dd < ln and dd + n <= ln
                ins = self.inb(dd, n, ln)
                if n == 1:
                    ins = tm.ult(64, dd, ln)
                if ins == 1 or self.must(st, ins):
                    if k == "fill":
                        b = layer.x[2]
                        return b if n == 1 else tm.cat([(b, 8)] * n)
                    off = tm.add(64, dd, layer.x[3])
                    layer = layer.x[2]
                    continue
                dis = tm.band(1, tm.ule(64, ln, dd), tm.ule(64, dd, (1 << 64) - n))
                if dis == 1 or self.must(st, dis):
                    layer = layer.parent
                    continue
                if n > 1:
                    return self._asm(st, layer, off, n, und)
                rest = self._rd(st, layer.parent, off, 1, und)
                if k == "fill":
                    x = layer.x[2]
                else:
                    x = self._rd(st, layer.x[2], tm.add(64, dd, layer.x[3]), 1, und)
                if rest is UNDEF:
                    rest = tm.fresh("undef", 8)
                return self._ite(st, 1, tm.ult(64, dd, ln), x, rest)
            if k == "arr":
                name = layer.x
                bs = [tm.sel(name, tm.add(64, off, i)) for i in range(n)]
                return assemble(bs)
            if k == "arrn":
                # array of wider elements: (name, width in bytes)
                name, wn = layer.x
                if isinstance(off, int):
                    if off % wn == 0 and n == wn:
                        return tm.sel(name, off // wn, 8 * wn)
                    if n < wn and off % wn + n <= wn:
                        return tm.extract(tm.sel(name, off // wn, 8 * wn), 8 * (off % wn + n) - 1, 8 * (off % wn))
                else:
                    low = tm.extract(off, wn.bit_length() - 2, 0)
                    if low == 0 and n == wn:
                        return tm.sel(name, tm.lshr(64, off, wn.bit_length() - 1), 8 * wn)
                raise Unsupported("unaligned access to a typed symbolic array")
            if k == "zero":
                return 0
            if k == "undef":
                und.append(1)
                return tm.fresh("undef", 8 * n)
            raise AssertionError(k)

    def fact_const(self, st, t):
        m = self.get_model(st)
        return m.ev(t)

    def _feasible(self, st, off, cand):
        lo, hi = self.bounds(st, off)
        return [c for c in cand if lo <= c[0] <= hi]

    def bounds(self, st, t):
        """unsigned bounds of t on this path (by solver, coarse)"""
        if isinstance(t, int):
            return t, t
        key = ("bnd", t)
        r = st.meta.get(key)
        if r is not None:
            return r
        lo, hi = t.lo, t.hi
        # upper bound by doubling search on bit-length, then refine
        b = 1
        while (1 << b) - 1 < hi:
            if self.must(st, tm.ule(t.w, t, (1 << b) - 1)):
                hi = (1 << b) - 1
                break
            b = b * 2 if b < 4 else b + 2
        if hi - lo <= 1 << 14:
            l2, h2 = lo, hi
            while l2 < h2:
                mid = (l2 + h2) // 2
                if self.must(st, tm.ule(t.w, t, mid)):
                    h2 = mid
                else:
                    l2 = mid + 1
            hi = h2
            l2, h2 = lo, hi
            while l2 < h2:
                mid = (l2 + h2 + 1) // 2
                if self.must(st, tm.ule(t.w, mid, t)):
                    l2 = mid
                else:
                    h2 = mid - 1
            lo = l2
        st.meta[key] = (lo, hi)
        return lo, hi

    def store(self, st, p, v, ty):
        if isinstance(p, tuple):
            p = self.gptr(st, p)
        if ty.k == "struct":
            for e, o, x in zip(ty.elems, ty.offs, v if isinstance(v, list) else [0] * len(ty.elems)):
                self.store(st, self.padd(st, p, o), x, e)
            return
        if ty.k in ("array", "vector"):
            e = ty.elems[0]
            for i in range(ty.n):
                self.store(st, self.padd(st, p, i * e.size), v[i] if isinstance(v, list) else 0, e)
            return
        n = ty.store
        o = self.access(st, p, n, "write", True)
        if o.ro:
            self.oblige(st, 0, "no write to constant memory" + self.fname(st), "memory")
        o = self.wobj(st, p.o)
        if isinstance(v, (int, T)) and ty.k == "int" and ty.w < 8 * n:
            v = tm.zext(8 * n, v, ty.w)
        if n > 8:
            if ty.k != "int":
                raise Unsupported(f"store of {ty.k}")
            i = 0
            while i < n:
                k = min(8, n - i)
                self.write(st, o, tm.add(64, p.off, i), k, tm.extract(v, 8 * (i + k) - 1, 8 * i))
                i += k
            return
        self.write(st, o, p.off, n, v)

    def write(self, st, o, off, n, v):
        """o must be owned"""
        if not isinstance(off, int):
            f = st.meta.get(("const", off))
            if f is not None:
                off = f
            else:
                o.freeze()
                o.base = L("store", (off, n, v), o.base)
                return
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        self.punch(cells, off, n)
        cells[off] = (n, v)

    def punch(self, cells, off, n):
        """remove [off, off+n) from cells"""
        for o in range(off - 7, off + n if n <= 64 else off):
            c = cells.get(o)
            if c is not None and o + c[0] > off:
                self._split(cells, o, c, off, n)
        if n > 64:
            for o in [o for o in cells if off <= o < off + n]:
                self._split(cells, o, cells[o], off, n)

    def _split(self, cells, o, c, off, n):
        del cells[o]
        for j in range(c[0]):
            if not (off <= o + j < off + n):
                cells[o + j] = (1, byte_of(c[1], c[0], j))

    def memcpy(self, st, d, s, n):
        if isinstance(d, tuple):
            d = self.gptr(st, d)
        if isinstance(s, tuple):
            s = self.gptr(st, s)
        if isinstance(n, int) and n == 0:
            return
        if not isinstance(n, int) and (isinstance(s, int) or isinstance(d, int)):
            if self.require(st, tm.eq(64, n, 0)):
                return
        so = self.access(st, s, n, "read")
        do = self.access(st, d, n, "write", True)
        if do.ro:
            self.oblige(st, 0, "no write to constant memory" + self.fname(st), "memory")
        if isinstance(n, int) and n <= 4096 and isinstance(s.off, int) and isinstance(d.off, int):
            # cell-wise
            items = []
            i = 0
            while i < n:
                c = so.cells.get(s.off + i)
                if c is not None and i + c[0] <= n:
                    items.append((i, c[0], c[1]))
                    i += c[0]
                    continue
                # widest run not starting at a top cell
                k = 1
                for w in (8, 4, 2):
                    if i + w <= n and (s.off + i) % w == 0 and not any((s.off + i + j) in so.cells for j in range(w)):
                        k = w
                        break
                try:
                    v = self._rdw(st, so, s.off + i, k)
                except Unsupported:
                    k = 1
                    v = self._rdw(st, so, s.off + i, 1)
                items.append((i, k, v))
                i += k
            do = self.wobj(st, d.o)
            self.punch(do.cells, d.off, n)
            for i, k, v in items:
                do.cells[d.off + i] = (k, v)
            return
        if isinstance(n, int) and n <= 8:
            v = self.read(st, so, s.off, n)
            do = self.wobj(st, d.o)
            self.write(st, do, d.off, n, v)
            return
        so = self.wobj(st, s.o)
        snap = so.freeze()
        do = self.wobj(st, d.o)
        do.freeze()
        do.base = L("copy", (d.off, n, snap, s.off), do.base)

    def _rdw(self, st, o, off, n):
        # do not let reads of a pointer cell be torn
        return self.read(st, st.mem[o.id], off, n)

    def memset(self, st, d, b, n):
        if isinstance(d, tuple):
            d = self.gptr(st, d)
        if isinstance(n, int) and n == 0:
            return
        do = self.access(st, d, n, "write", True)
        if isinstance(b, T) and b.w > 8:
            b = tm.trunc(8, b)
        if isinstance(b, int):
            b &= 255
        do = self.wobj(st, d.o)
        if isinstance(n, int) and isinstance(d.off, int) and n <= 4096:
            self.punch(do.cells, d.off, n)
            i = 0
            while i < n:
                k = 8 if i + 8 <= n and (d.off + i) % 8 == 0 else 4 if i + 4 <= n and (d.off + i) % 4 == 0 else 1
                do.cells[d.off + i] = (k, tm.cat([(b, 8)] * k))
                i += k
            return
        do.freeze()
        do.base = L("fill", (d.off, n, b), do.base)

    # ------------------------------------------------------------------ pointers
    def padd(self, st, p, k):
        if isinstance(k, int) and k == 0:
            return p
        if isinstance(p, Ptr):
            return Ptr(p.o, tm.add(64, p.off, k))
        if isinstance(p, tuple):
            if isinstance(k, int):
                return ("g", p[1], p[2] + k)
            p = self.gptr(st, p)
            return Ptr(p.o, tm.add(64, p.off, k))
        if isinstance(p, (int, T)):
            return tm.add(64, p, k)
        if isinstance(p, FnPtr):
            return p
        raise Unsupported("pointer arithmetic")

    # ------------------------------------------------------------------ operands
    def val(self, st, fr, a, ty=None):
        if isinstance(a, Reg):
            return fr.regs[a.i]
        if isinstance(a, GlobalRef):
            r = self.resolve_gref(a)
            return self.gptr(st, r) if isinstance(r, tuple) else r
        if isinstance(a, Undef):
            return self.undef(a.ty)
        if isinstance(a, list):
            return [self.val(st, fr, x) for x in a]
        return a

    def undef(self, ty):
        if ty.k == "int":
            return tm.fresh("undef", ty.w)
        if ty.k == "ptr":
            return 0
        if ty.k in ("float", "double"):
            return 0.0
        if ty.k == "struct":
            return [self.undef(e) for e in ty.elems]
        if ty.k in ("array", "vector"):
            return [self.undef(ty.elems[0]) for _ in range(ty.n)]
        return 0

    # ------------------------------------------------------------------ instructions
    def step(self, st):
        fr = st.frames[-1]
        I = fr.fn.blocks[fr.bi].insts[fr.ip]
        self.steps += 1
        st.steps += 1
        h = self.disp.get(I.op)
        if h is None:
            raise Unsupported(f"instruction {I.op}")
        h(st, fr, I)

    def _bin(f):
        def op(self, st, fr, I):
            a = self.val(st, fr, I.a[0])
            b = self.val(st, fr, I.a[1])
            if type(a) is int and type(b) is int or (isinstance(a, (int, T)) and isinstance(b, (int, T))):
                fr.regs[I.dst] = f(I.ty.w, a, b)
            else:
                fr.regs[I.dst] = self.ptrbin(st, f, I.ty.w, a, b)
            fr.ip += 1
        return op

    op_add = _bin(tm.add)
    op_sub = _bin(tm.sub)
    op_mul = _bin(tm.mul)
    op_and = _bin(tm.band)
    op_or = _bin(tm.bor)
    op_xor = _bin(tm.xor)

    def _shift(f):
        def op(self, st, fr, I):
            a = self.val(st, fr, I.a[0])
            b = self.val(st, fr, I.a[1])
            w = I.ty.w
            if not isinstance(b, (int, T)) or not isinstance(a, (int, T)):
                raise Unsupported("shift of pointer")
            c = tm.ult(w, b, w)
            if c != 1 and self.must(st, c):
                c = 1
            # an over-long shift yields an unspecified value (it may be speculated by the optimiser, so it is not an error by itself)
            fr.regs[I.dst] = f(w, a, b) if c == 1 else tm.ite(w, c, f(w, a, b), tm.fresh("undef", w))
            fr.ip += 1
        return op
    op_shl = _shift(tm.shl)
    op_lshr = _shift(tm.lshr)
    op_ashr = _shift(tm.ashr)

    def _div(f, signed):
        def op(self, st, fr, I):
            a = self.val(st, fr, I.a[0])
            b = self.val(st, fr, I.a[1])
            w = I.ty.w
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Unsupported("division of pointer")
            c = tm.ne(w, b, 0)
            if c != 1:
                self.oblige(st, c, "no division by zero" + self.fname(st), "arith")
            fr.regs[I.dst] = f(w, a, b)
            fr.ip += 1
        return op
    op_udiv = _div(tm.udiv, False)
    op_urem = _div(tm.urem, False)
    op_sdiv = _div(tm.sdiv, True)
    op_srem = _div(tm.srem, True)

    def ptrbin(self, st, f, w, a, b):
        if isinstance(a, tuple):
            a = self.gptr(st, a)
        if isinstance(b, tuple):
            b = self.gptr(st, b)
        if f is tm.add:
            if isinstance(a, Ptr) and isinstance(b, (int, T)):
                return self.padd(st, a, b)
            if isinstance(b, Ptr) and isinstance(a, (int, T)):
                return self.padd(st, b, a)
        if f is tm.sub:
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    return tm.sub(64, a.off, b.off)
                # different objects: addresses far apart, ordered by id
                return tm.sub(64, tm.add(64, a.off, a.o << 40), tm.add(64, b.off, b.o << 40))
            if isinstance(a, Ptr) and isinstance(b, (int, T)):
                return Ptr(a.o, tm.sub(64, a.off, b))
            if isinstance(a, FnPtr) and a == b:
                return 0
            if a == 0 and isinstance(b, Ptr):
                return tm.sub(64, 0, tm.add(64, b.off, b.o << 40))
        if f is tm.band and isinstance(b, int) and isinstance(a, Ptr) and b < 16:
            return tm.band(64, a.off, b)
        if f is tm.band and isinstance(a, FnPtr) and isinstance(b, int):
            return 0 if b < 16 else a
        if f is tm.bor and isinstance(a, int) and a == 0:
            return b
        if f is tm.bor and isinstance(b, int) and b == 0:
            return a
        raise Unsupported(f"pointer arithmetic {a!r} {b!r}")

    def op_icmp(self, st, fr, I):
        a = self.val(st, fr, I.a[0])
        b = self.val(st, fr, I.a[1])
        pred, ty = I.x
        fr.regs[I.dst] = self.icmp(st, pred, ty, a, b)
        fr.ip += 1

    def icmp(self, st, pred, ty, a, b):
        w = ty.w
        if not (isinstance(a, (int, T)) and isinstance(b, (int, T))):
            if isinstance(a, list):
                raise Unsupported("vector compare")
            if isinstance(a, tuple):
                a = self.gptr(st, a)
            if isinstance(b, tuple):
                b = self.gptr(st, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o:
                    a, b = a.off, b.off
                    # offsets are signed: a pointer before the object is less than its beginning
                    if pred[0] == "u":
                        pred = "s" + pred[1:]
                elif pred == "eq":
                    return 0
                elif pred == "ne":
                    return 1
                else:
                    a, b = a.o, b.o
            elif isinstance(a, FnPtr) or isinstance(b, FnPtr):
                if pred == "eq":
                    return int(a == b)
                if pred == "ne":
                    return int(a != b)
                raise Unsupported("function pointer compare")
            else:
                # pointer against integer
                if isinstance(a, Ptr):
                    p, i, flip = a, b, False
                else:
                    p, i, flip = b, a, True
                if isinstance(i, T):
                    raise Unsupported("pointer compared with symbolic integer")
                if pred == "eq":
                    return 0
                if pred == "ne":
                    return 1
                # any pointer is larger than a small integer, smaller than a huge one
                pv = (p.o << 40)
                a, b = (i, pv) if flip else (pv, i)
        f = {"eq": tm.eq, "ne": tm.ne, "ult": tm.ult, "ule": tm.ule, "slt": tm.slt, "sle": tm.sle}.get(pred)
        if f:
            return f(w, a, b)
        f = {"ugt": tm.ult, "uge": tm.ule, "sgt": tm.slt, "sge": tm.sle}[pred]
        return f(w, b, a)

    def op_select(self, st, fr, I):
        c = self.val(st, fr, I.a[0])
        a = self.val(st, fr, I.a[1])
        b = self.val(st, fr, I.a[2])
        fr.regs[I.dst] = self.select(st, I.ty, c, a, b)
        fr.ip += 1

    def select(self, st, ty, c, a, b):
        if isinstance(c, int):
            return a if c else b
        if isinstance(a, (int, T)) and isinstance(b, (int, T)) and ty.k in ("int", "ptr"):
            if ty.k == "ptr" and not (isinstance(a, int) and isinstance(b, int) and a == b):
                raise Fork([c, tm.bnot(c)])
            return tm.ite(ty.w, c, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
            return Ptr(a.o, tm.ite(64, c, a.off, b.off))
        if ty.k in ("float", "double"):
            if isinstance(a, float) and a == b:
                return a
            return FV(z3.If(tm.zb(c), tofp(a, ty.w), tofp(b, ty.w)), ty.w)
        d = self.decide(st, c)
        if d is None:
            raise Fork([c, tm.bnot(c)])
        return a if d else b

    def op_zext(self, st, fr, I):
        a = self.val(st, fr, I.a[0])
        if not isinstance(a, (int, T)):
            raise Unsupported("zext of pointer")
        fr.regs[I.dst] = tm.zext(I.ty.w, a, I.x[0].w)
        fr.ip += 1

    def op_sext(self, st, fr, I):
        fr.regs[I.dst] = tm.sext(I.ty.w, self.val(st, fr, I.a[0]), I.x[0].w)
        fr.ip += 1

    def op_trunc(self, st, fr, I):
        a = self.val(st, fr, I.a[0])
        if isinstance(a, Ptr):
            a = tm.add(64, a.off, a.o << 40)
        fr.regs[I.dst] = tm.trunc(I.ty.w, a)
        fr.ip += 1

    def op_copy(self, st, fr, I):
        fr.regs[I.dst] = self.val(st, fr, I.a[0])
        fr.ip += 1
    op_ptrtoint = op_inttoptr = op_freeze = op_copy

    def op_bitcast(self, st, fr, I):
        v = self.val(st, fr, I.a[0])
        if isinstance(v, list):
            raise Unsupported("vector bitcast")
        fr.regs[I.dst] = self.as_type(st, v, I.ty, I.ty.store)
        fr.ip += 1

    def op_gep(self, st, fr, I):
        p = self.val(st, fr, I.a[0])
        off, var = I.x
        for o, sc, w in var:
            v = self.val(st, fr, o)
            if not isinstance(v, (int, T)):
                raise Unsupported("pointer used as index")
            v = tm.sext(64, v, w) if w < 64 else v
            off = tm.add(64, off & M64, tm.mul(64, v, sc))
        if isinstance(off, int):
            off &= M64
        fr.regs[I.dst] = self.padd(st, p, off)
        fr.ip += 1

    def op_alloca(self, st, fr, I):
        n = self.val(st, fr, I.a[0])
        if not isinstance(n, int):
            raise Unsupported("dynamic alloca")
        o = self.new_obj(st, I.x.size * n, L_UNDEF, f"{fr.fn.demangled[:40]}:{I.dst}", "stack")
        fr.allocas.append(o.id)
        fr.regs[I.dst] = Ptr(o.id, 0)
        fr.ip += 1

    def op_load(self, st, fr, I):
        p = self.val(st, fr, I.a[0])
        fr.regs[I.dst] = self.load(st, p, I.ty)
        fr.ip += 1

    def op_store(self, st, fr, I):
        v = self.val(st, fr, I.a[0])
        p = self.val(st, fr, I.a[1])
        self.store(st, p, v, I.x[0])
        fr.ip += 1

    def op_extractvalue(self, st, fr, I):
        v = self.val(st, fr, I.a[0])
        for i in I.x:
            v = v[i]
        fr.regs[I.dst] = v
        fr.ip += 1

    def op_insertvalue(self, st, fr, I):
        a = self.val(st, fr, I.a[0])
        v = self.val(st, fr, I.a[1])

        def ins(x, path):
            x = list(x)
            if len(path) == 1:
                x[path[0]] = v
            else:
                x[path[0]] = ins(x[path[0]], path[1:])
            return x
        fr.regs[I.dst] = ins(a, I.x)
        fr.ip += 1

    def op_fence(self, st, fr, I):
        fr.ip += 1

    def op_atomicrmw(self, st, fr, I):
        opn, tys = I.x
        p = self.val(st, fr, I.a[0])
        v = self.val(st, fr, I.a[1])
        ty = I.ty
        old = self.load(st, p, ty)
        w = ty.w
        f = {0: lambda: v, 1: lambda: tm.add(w, old, v), 2: lambda: tm.sub(w, old, v), 3: lambda: tm.band(w, old, v),
             5: lambda: tm.bor(w, old, v), 6: lambda: tm.xor(w, old, v)}.get(opn)
        if f is None:
            raise Unsupported("atomicrmw")
        self.store(st, p, f(), ty)
        fr.regs[I.dst] = old
        fr.ip += 1

    # --- vectors (rare)
    def op_extractelement(self, st, fr, I):
        v = self.val(st, fr, I.a[0])
        fr.regs[I.dst] = v[self.val(st, fr, I.a[1])]
        fr.ip += 1

    def op_insertelement(self, st, fr, I):
        v = list(self.val(st, fr, I.a[0]))
        v[self.val(st, fr, I.a[2])] = self.val(st, fr, I.a[1])
        fr.regs[I.dst] = v
        fr.ip += 1

    # --- floating point
    def interval(self, st, v):
        """finite interval the floating-point value v is known to be in (rounding is monotonic so the bounds are computed
        with the very same operations) or None; bounds of integers are proved by the solver"""
        if isinstance(v, float):
            return None if math.isnan(v) or math.isinf(v) else (v, v)
        s = v.src
        if s is None:
            return None
        if s[0] == "ext":
            return self.interval(st, s[1])
        if s[0] == "int":
            _, t, w, sg = s
            pc = [c for c in st.pc if not has_z3op(c)]
            known = st.fpints.get(t)
            if known:
                return known
            if has_z3op(t):
                return None

            def proved(c):
                return isinstance(c, int) and bool(c) or not isinstance(c, int) and self.solver.check(pc, (tm.bnot(c),), base=None)[0] == "unsat"
            top = w - 1 if sg else w
            if sg and not proved(tm.bnot(tm.ult(w, (1 << top) - 1, t))):
                return None
            hi = top
            for k in (8, 16, 32, 40, 48):
                if k < top and proved(tm.ult(w, t, 1 << k)):
                    hi = k
                    break
            lo = 1 if proved(tm.bnot(tm.eq(w, t, 0))) else 0
            r = (float(lo), float((1 << hi) - 1))
            return (f32(r[0]), f32(r[1])) if v.w == 32 else r
        pyf, name, a, b = s
        x, y = self.interval(st, a), self.interval(st, b)
        if x is None or y is None or name == "div" and y[0] <= 0 <= y[1]:
            return None
        c = [pyf(p, q) for p in x for q in y]
        if v.w == 32:
            c = [f32(p) for p in c]
        if any(math.isnan(p) or math.isinf(p) for p in c):
            return None
        return (min(c), max(c))

    def _fbin(pyf, zf, name=None):
        def op(self, st, fr, I):
            a = self.val(st, fr, I.a[0])
            b = self.val(st, fr, I.a[1])
            w = I.ty.w
            if isinstance(a, float) and isinstance(b, float):
                r = pyf(a, b)
                fr.regs[I.dst] = f32(r) if w == 32 else r
            else:
                fr.regs[I.dst] = FV(zf(tofp(a, w), tofp(b, w)), w, (pyf, name, a, b))
            fr.ip += 1
        return op

    def _pydiv(a, b):
        if b == 0:
            if a == 0 or math.isnan(a):
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1, b)
        return a / b
    op_fadd = _fbin(lambda a, b: a + b, lambda a, b: z3.fpAdd(z3.RNE(), a, b), "add")
    op_fsub = _fbin(lambda a, b: a - b, lambda a, b: z3.fpSub(z3.RNE(), a, b), "sub")
    op_fmul = _fbin(lambda a, b: a * b, lambda a, b: z3.fpMul(z3.RNE(), a, b), "mul")
    op_fdiv = _fbin(_pydiv, lambda a, b: z3.fpDiv(z3.RNE(), a, b), "div")

    def op_fneg(self, st, fr, I):
        a = self.val(st, fr, I.a[0])
        fr.regs[I.dst] = -a if isinstance(a, float) else FV(z3.fpNeg(a.e), a.w)
        fr.ip += 1

    def fcmp_interval(self, st, a, b, p):
        if p[1:] not in ("gt", "ge", "lt", "le"):
            return None
        x = self.interval(st, a)
        y = self.interval(st, b) if x else None
        if y is None:
            return None
        if p[1:] in ("lt", "le"):
            x, y = y, x
        if p[2] == "t":
            return 1 if x[0] > y[1] else 0 if x[1] <= y[0] else None
        return 1 if x[0] >= y[1] else 0 if x[1] < y[0] else None

    def op_fcmp(self, st, fr, I):
        a = self.val(st, fr, I.a[0])
        b = self.val(st, fr, I.a[1])
        p, ty = I.x
        if isinstance(a, float) and isinstance(b, float):
            nan = math.isnan(a) or math.isnan(b)
            r = {"eq": a == b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b, "ne": a != b}.get(p[1:])
            if p in ("ord", "uno"):
                r = (not nan) if p == "ord" else nan
            elif p in ("true", "false"):
                r = p == "true"
            elif p[0] == "o":
                r = r and not nan
            else:
                r = r or nan
            fr.regs[I.dst] = int(r)
        elif (d := self.fcmp_interval(st, a, b, p)) is not None:
            fr.regs[I.dst] = d
        else:
            x, y = tofp(a, ty.w), tofp(b, ty.w)
            nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            if p in ("ord", "uno"):
                e = z3.Not(nan) if p == "ord" else nan
            else:
                e = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "ne": lambda q, r: z3.Not(z3.fpEQ(q, r))}[p[1:]](x, y)
                if p[0] == "u":
                    e = z3.Or(nan, e)
                elif p == "one":
                    e = z3.And(e, z3.Not(nan))
            fr.regs[I.dst] = tm.zexpr(z3.simplify(e), 1)
            e = fr.regs[I.dst]._z
            if z3.is_true(e) or z3.is_false(e):
                fr.regs[I.dst] = int(z3.is_true(e))
        fr.ip += 1

    def op_uitofp(self, st, fr, I):
        a = self.val(st, fr, I.a[0])
        w = I.ty.w
        sg = I.op == "sitofp"
        if isinstance(a, int):
            ws = I.x[0].w
            if sg and a >= 1 << (ws - 1):
                a -= 1 << ws
            r = float(a)
            if w == 32:
                r = f32(r)
            fr.regs[I.dst] = r
        else:
            f = z3.fpSignedToFP if sg else z3.fpUnsignedToFP
            fr.regs[I.dst] = FV(f(z3.RNE(), tm.zvv(a, I.x[0].w), fsort(w)), w, ("int", a, I.x[0].w, sg))
        fr.ip += 1
    op_sitofp = op_uitofp

    def op_fptoui(self, st, fr, I):
        a = self.val(st, fr, I.a[0])
        sg = I.op == "fptosi"
        w = I.ty.w
        lo = -(1 << (w - 1)) if sg else 0
        hi = (1 << (w - 1)) if sg else (1 << w)
        lab = "floating-point value representable in the integer type" + self.fname(st)
        if isinstance(a, float):
            ok = not (math.isnan(a) or math.isinf(a)) and lo - 1 < a < hi
            self.oblige(st, int(ok), lab, "arith")
            fr.regs[I.dst] = int(a) & tm.mask(w)
        else:
            s = fsort(a.w)
            ok = z3.And(z3.Not(z3.fpIsNaN(a.e)), z3.fpGT(a.e, z3.FPVal(lo - 1 if w < 53 else (lo if lo else -1), s)), z3.fpLT(a.e, z3.FPVal(hi, s)))
            iv = self.interval(st, a)
            if iv and lo - 1 < iv[0] and iv[1] < hi:
                ob = self.oblig.setdefault(lab, dict(kind="arith", vcs=0, discharged=0, failed=0, undecided=0))
                ob["vcs"] += 1
                ob["discharged"] += 1
                self.solver.stats.backend["interval"] = self.solver.stats.backend.get("interval", 0) + 1
            else:
                self.oblige(st, tm.zexpr(ok, 1), lab, "arith")
            f = z3.fpToSBV if sg else z3.fpToUBV
            fr.regs[I.dst] = tm.zexpr(f(z3.RTZ(), a.e, z3.BitVecSort(w)), w)
            if iv and iv[0] >= 0 and iv[1] < 2.0**52:
                st.fpints = {**st.fpints, fr.regs[I.dst]: (float(int(iv[0])), float(int(iv[1])))}
        fr.ip += 1
    op_fptosi = op_fptoui

    def op_fpext(self, st, fr, I):
        a = self.val(st, fr, I.a[0])
        fr.regs[I.dst] = a if isinstance(a, float) else FV(z3.fpFPToFP(z3.RNE(), a.e, z3.Float64()), 64, ("ext", a))
        fr.ip += 1

    def op_fptrunc(self, st, fr, I):
        a = self.val(st, fr, I.a[0])
        fr.regs[I.dst] = f32(a) if isinstance(a, float) else FV(z3.fpFPToFP(z3.RNE(), a.e, z3.Float32()), 32)
        fr.ip += 1

    # --- control flow
    def jump(self, st, fr, target):
        blk = fr.fn.blocks[target]
        prev = fr.bi
        if target in fr.fn.loops and not self.enter_loop(st, fr, prev, target):
            return
        if blk.nphi:
            vals = []
            for I in blk.insts[:blk.nphi]:
                vals.append((I.dst, self.val(st, fr, I.a[prev])))
            for d, v in vals:
                fr.regs[d] = v
        fr.prev = prev
        fr.bi = target
        fr.ip = blk.nphi
        if self.loopeng is not None and target in fr.fn.loops:
            self.loopeng.at_header(st, fr, prev, target)

    def loop_key(self, fr, target):
        return (fr.fn.name, target)

    def enter_loop(self, st, fr, prev, target):
        body = fr.fn.loops[target]
        if prev not in body:
            fr.loops[target] = (0, len(st.pc))
            # entering anew resets nested loops
            for h in list(fr.loops):
                if h != target and h in body:
                    del fr.loops[h]
            return True
        n, pcl = fr.loops.get(target, (0, 0))
        n += 1
        # iterations that added path constraints count against the unrolling limit
        fr.loops[target] = (n, pcl)
        symb = len(st.pc) > pcl
        lim = self.o["unroll"] if symb else self.o["conc_unroll"]
        if n > lim:
            raise LoopLimit((fr.fn.name, fr.fn.demangled, target, self.loop_line(fr, target)))
        return True

    def loop_line(self, fr, target):
        for I in fr.fn.blocks[target].insts:
            if I.line:
                return (I.file, I.line)
        for b in sorted(fr.fn.loops[target]):
            for I in fr.fn.blocks[b].insts:
                if I.line:
                    return (I.file, I.line)
        return None

    def op_br(self, st, fr, I):
        if not I.a:
            self.jump(st, fr, I.x[0])
            return
        c = self.val(st, fr, I.a[0])
        if not isinstance(c, int):
            # successors: LLVM order [true, false]
            c = int(self.require(st, c))
        self.jump(st, fr, I.x[0] if c else I.x[1])

    def op_switch(self, st, fr, I):
        v = self.val(st, fr, I.a[0])
        default, cases, ty = I.x
        if isinstance(v, int):
            for k, b in cases:
                if k == v:
                    self.jump(st, fr, b)
                    return
            self.jump(st, fr, default)
            return
        groups = {}
        ndef = 1
        for k, b in cases:
            c = tm.eq(ty.w, v, k)
            groups[b] = tm.bor(1, groups.get(b, 0), c)
            ndef = tm.band(1, ndef, tm.bnot(c))
        groups[default] = tm.bor(1, groups.get(default, 0), ndef)
        # group phis: a destination may need the case value through phi only; fine
        feas = []
        for b, c in groups.items():
            if isinstance(c, int):
                if c:
                    feas = [(b, c)]
                    break
                continue
            if c in st.facts:
                feas = [(b, c)]
                break
            if tm.bnot(c) in st.facts:
                continue
            if self.ev(st, c) == 1:
                feas.append((b, c))
                continue
            r, _ = self.solver.check(st.pc, (c,), base=st.model)
            if r != "unsat":
                feas.append((b, c))
        if not feas:
            raise PathEnd()
        if len(feas) == 1:
            if not isinstance(feas[0][1], int):
                st.facts.add(feas[0][1])
            self.jump(st, fr, feas[0][0])
            return
        raise Fork([c for _, c in feas])

    def op_unreachable(self, st, fr, I):
        self.oblige(st, 0, "unreachable code is not reached" + self.fname(st), "arith")

    def op_ret(self, st, fr, I):
        v = self.val(st, fr, I.a[0]) if I.a else None
        self.ret(st, v)

    def free_frame(self, st, fr):
        for oid in fr.allocas:
            o = st.mem.get(oid)
            if o is not None:
                del st.mem[oid]

    def ret(self, st, v):
        fr = st.frames.pop()
        self.free_frame(st, fr)
        if not st.frames:
            raise PathEnd()
        if fr.onret is not None:
            v = fr.onret(st, v)
        up = st.frames[-1]
        I = up.fn.blocks[up.bi].insts[up.ip]
        self.finish_call(st, up, I, v)

    def finish_call(self, st, fr, I, v):
        if I.ty.k != "void":
            fr.regs[I.dst] = v
        if I.op == "invoke":
            self.jump(st, fr, I.x[2])
        else:
            fr.ip += 1

    def op_call(self, st, fr, I):
        callee = I.x[0]
        if callee == "asm":
            raise Unsupported("inline asm")
        args = [self.val(st, fr, a) if a is not None else None for a in I.a]
        if isinstance(callee, GlobalRef):
            name = self.mod.resolve(callee.name)
        else:
            f = self.val(st, fr, callee)
            if not isinstance(f, FnPtr):
                if isinstance(f, int):
                    self.oblige(st, 0, "valid function pointer" + self.fname(st), "memory")
                raise Unsupported(f"call through {f!r}")
            name = f.name
        self.call(st, fr, I, name, args)
    op_invoke = op_call

    def call(self, st, fr, I, name, args):
        r = st.replace.get(name)
        if r is not None and not any(f.fn.name == r for f in st.frames):
            self.replaced_used[name] = r
            st.meta["abstract"] = True
            name = r
        b = self.bi.lookup(name)
        if b is not None:
            if b[0] == "model":
                self.models_used.add(name)
                name = b[1]
            else:
                v = b[1](st, fr, I, name, args)
                if v is not self.jumped:
                    self.finish_call(st, fr, I, v)
                return
        f = self.mod.funcs.get(name)
        if f is None or f.decl:
            raise Unsupported(f"external function {f.demangled if f else name}")
        self.push(st, f, args)

    def push(self, st, f, args):
        f.decode()
        if len(st.frames) > 120:
            raise Unsupported("recursion too deep")
        nf = Frame(f)
        for i, a in enumerate(args[:f.nparams]):
            nf.regs[i] = a
        st.frames.append(nf)
        c = self.fns.get(f.name)
        self.fns[f.name] = (c or 0) + 1
        return nf

    # --- exceptions
    def throw(self, st, ptr, tinfo):
        st.exc = (ptr, tinfo)
        self.unwind(st)

    def unwind(self, st):
        """the top frame is the one whose current instruction raised"""
        ptr, tinfo = st.exc
        while st.frames:
            fr = st.frames[-1]
            I = fr.fn.blocks[fr.bi].insts[fr.ip]
            if I.op == "invoke":
                ud = I.x[3]
                blk = fr.fn.blocks[ud]
                lp = next(x for x in blk.insts if x.op == "landingpad")
                cleanup, clauses = lp.x
                s = 0
                for kind, c in clauses:
                    if kind != "catch":
                        continue
                    if c is None or c == 0:
                        s = self.tid(None)
                        break
                    if self.is_base(c.name, tinfo):
                        s = self.tid(c.name)
                        break
                if s or cleanup:
                    self.jump(st, fr, ud)
                    # skip to landingpad
                    while fr.fn.blocks[fr.bi].insts[fr.ip] is not lp:
                        fr.ip += 1
                    fr.regs[lp.dst] = [ptr, s]
                    fr.ip += 1
                    return
            self.free_frame(st, fr)
            st.frames.pop()
        # uncaught
        self.uncaught(st, tinfo)

    def uncaught(self, st, tinfo):
        ob = self.oblig.setdefault("no unexpected exception", dict(kind="exception", vcs=0, discharged=0, failed=0, undecided=0))
        ob["vcs"] += 1
        ob["failed"] += 1
        self.violate(st, self.get_model(st), f"no unexpected exception", "exception")
        raise PathEnd()

    def tid(self, name):
        return self.tids.setdefault(name, len(self.tids) + 1)

    def bases(self, n):
        if n in STD_BASES:
            return STD_BASES[n]
        g = self.mod.globals.get(n)
        if g is None:
            return []
        import llir
        ini = llir.lib().LLVMGetInitializer(g)
        if not ini:
            return []
        c = self.mod.const(ini)
        return [x.name for x in c[2:] if isinstance(x, GlobalRef) and x.name.startswith("_ZTI")]

    def is_base(self, base, derived):
        seen = set()
        w = [derived]
        while w:
            x = w.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            w.extend(self.bases(x))
        return False

    def op_resume(self, st, fr, I):
        v = self.val(st, fr, I.a[0])
        # continue unwinding past this frame
        self.free_frame(st, fr)
        st.frames.pop()
        if not st.frames:
            self.uncaught(st, st.exc[1])
        self.unwind(st)

    def op_landingpad(self, st, fr, I):
        raise Unsupported("landingpad reached directly")

    # ------------------------------------------------------------------ driver
    def run(self, entry):
        f = self.mod.funcs[entry]
        st = State()
        self.push(st, f, [])
        self.work = [st]
        self.loop_limits = {}
        while self.work and not self.stop:
            st = self.work.pop()
            self.run_path(st)
            if time.time() - self.t0 > self.o["time"]:
                self.undecided.append(("time limit", f"{len(self.work)} paths left", []))
                break
            if self.paths > self.o["max_paths"]:
                self.undecided.append(("path limit", f"{len(self.work)} paths left", []))
                break

    def run_path(self, st):
        try:
            n = 0
            while True:
                try:
                    while True:
                        self.step(st)
                        n += 1
                        if n & 0x3fff == 0:
                            if time.time() - self.t0 > self.o["time"]:
                                self.undecided.append(("time limit", "inside a path", self.where(st)[:3]))
                                self.stop = True
                                return
                            if st.steps > self.o["max_steps"]:
                                raise Unsupported("too many steps")
                except Fork as f:
                    alts = f.conds
                    if st.frames:
                        w = self.where(st)[0]
                        k = (w[0][:90], w[1], w[2])
                        self.forks[k] = self.forks.get(k, 0) + 1
                    nst = []
                    for i, c in enumerate(alts):
                        s2 = st.copy() if i < len(alts) - 1 else st
                        nst.append((s2, c))
                    live = []
                    for s2, c in nst:
                        try:
                            self.assume(s2, c)
                            live.append(s2)
                        except PathEnd:
                            pass
                    if not live:
                        raise PathEnd()
                    self.work.extend(live[1:])
                    st = live[0]
        except PathEnd:
            self.paths += 1
        except LoopLimit as l:
            self.paths += 1
            self.loop_limits[l.key] = self.loop_limits.get(l.key, 0) + 1
        except Unsupported as u:
            self.paths += 1
            self.dropped += 1
            self.undecided.append(("unsupported", str(u), self.where(st)[:6]))
