"""Bit-vector terms: hash-consed, with normal forms (linear sums, bit concatenations), unsigned
intervals, translation to z3 and evaluation under a model.

A value of width w is either a Python int (constant) or a T.  Width-1 terms are truth values.
"""
import z3

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "w", "a", "lo", "hi", "id", "_z", "__weakref__")

    def __repr__(self):
        return show(self)


def _mk(op, w, *a, lo=0, hi=None):
    k = (op, w) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.w, t.a = op, w, a
        t.lo = lo
        t.hi = (1 << w) - 1 if hi is None else hi
        _n[0] += 1
        t.id = _n[0]
        t._z = None
        _tab[k] = t
    return t


def show(t, d=0):
    if isinstance(t, int):
        return hex(t) if t > 9 else str(t)
    if not isinstance(t, T):
        return repr(t)
    if t.op == "sym":
        return t.a[0]
    if d > 7:
        return "..."
    if t.op == "lin":
        c, ts = t.a
        m = 1 << t.w
        s = " + ".join((f"{k}*" if k != 1 else "") + show(x, d + 1) for x, k in [(x, k if k < m // 2 else k - m) for x, k in ts])
        cs = c if c < m // 2 else c - m
        return f"({s} + {cs})" if c else f"({s})"
    if t.op == "cat":
        return "cat(" + ",".join(f"{show(v, d + 1)}:{w}" for v, w in t.a) + ")"
    return f"{t.op}{t.w}(" + ",".join(show(x, d + 1) for x in t.a) + ")"


def mask(w):
    return (1 << w) - 1


syms = {}     # name -> T
arrays = {}   # name -> z3 array
array_sels = {}  # name -> list of sel terms


def sym(name, w, lo=0, hi=None):
    t = _mk("sym", w, name, lo=lo, hi=hi)
    syms[name] = t
    return t


_fresh = [0]


def fresh(prefix, w):
    _fresh[0] += 1
    return sym(f"{prefix}!{_fresh[0]}", w)


def lo_(x):
    return x if isinstance(x, int) else x.lo


def hi_(x):
    return x if isinstance(x, int) else x.hi


# ------------------------------------------------------------------ linear sums
def _lin_parts(x, w):
    if isinstance(x, int):
        return x, ()
    if x.op == "lin":
        return x.a
    return 0, ((x, 1),)


def _mk_lin(w, c, d):
    m = mask(w)
    c &= m
    ts = tuple(sorted(((t, k & m) for t, k in d.items() if k & m), key=lambda p: p[0].id))
    if not ts:
        return c
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    half = 1 << (w - 1)
    # interval without wrap-around
    lo = hi = c if c < half or len(ts) == 0 else c - (1 << w)
    for t, k in ts:
        ks = k if k < half else k - (1 << w)
        if ks > 0:
            lo += ks * t.lo
            hi += ks * t.hi
        else:
            lo += ks * t.hi
            hi += ks * t.lo
    if lo < 0 or hi > m:
        if hi < 0 and lo >= -(1 << w):
            lo += 1 << w
            hi += 1 << w
        else:
            lo, hi = 0, m
    return _mk("lin", w, c, ts, lo=lo, hi=hi)


def add(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if w == 1:
        return xor(1, a, b)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    # disjoint concatenations add up like an or
    if isinstance(a, T) and isinstance(b, T) and a.op == "cat" and b.op == "cat" and _disjoint(a, b, w):
        return bor(w, a, b)
    c1, t1 = _lin_parts(a, w)
    c2, t2 = _lin_parts(b, w)
    d = {}
    for t, k in t1:
        d[t] = d.get(t, 0) + k
    for t, k in t2:
        d[t] = d.get(t, 0) + k
    return _mk_lin(w, c1 + c2, d)


def neg(w, a):
    if isinstance(a, int):
        return (-a) & mask(w)
    if w == 1:
        return a
    c, ts = _lin_parts(a, w)
    return _mk_lin(w, -c, {t: -k for t, k in ts})


def sub(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if w == 1:
        return xor(1, a, b)
    if a is b:
        return 0
    if isinstance(b, int) and b == 0:
        return a
    c1, t1 = _lin_parts(a, w)
    c2, t2 = _lin_parts(b, w)
    d = {}
    for t, k in t1:
        d[t] = d.get(t, 0) + k
    for t, k in t2:
        d[t] = d.get(t, 0) - k
    return _mk_lin(w, c1 - c2, d)


def mul(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    if isinstance(a, int):
        a, b = b, a
    if w == 1:
        return band(1, a, b)
    if isinstance(b, int):
        b &= mask(w)
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0 and a.op == "cat":
            return shl(w, a, b.bit_length() - 1)
        c, ts = _lin_parts(a, w)
        return _mk_lin(w, c * b, {t: k * b for t, k in ts})
    if a.id > b.id:
        a, b = b, a
    lo, hi = 0, mask(w)
    if a.hi * b.hi <= mask(w):
        lo, hi = a.lo * b.lo, a.hi * b.hi
    return _mk("mul", w, a, b, lo=lo, hi=hi)


# ------------------------------------------------------------------ concatenations
def _pieces(x, w):
    """MSB-first pieces"""
    if isinstance(x, int):
        return ((x, w),)
    if x.op == "cat":
        return x.a
    return ((x, w),)


def cat(pieces):
    out = []
    for v, w in pieces:
        if w == 0:
            continue
        if isinstance(v, T) and v.op == "cat":
            sub_ = v.a
        else:
            sub_ = ((v, w),)
        for v2, w2 in sub_:
            if out:
                pv, pw = out[-1]
                if isinstance(pv, int) and isinstance(v2, int):
                    out[-1] = ((pv << w2) | v2, pw + w2)
                    continue
                if isinstance(pv, T) and isinstance(v2, T):
                    # adjacent slices of the same term
                    pb, ph, pl = (pv.a if pv.op == "ext" else (pv, pv.w - 1, 0))
                    vb, vh, vl = (v2.a if v2.op == "ext" else (v2, v2.w - 1, 0))
                    if pb is vb and pl == vh + 1:
                        m = extract(pb, ph, vl)
                        if not (isinstance(m, T) and m.op == "cat"):
                            out[-1] = (m, pw + w2)
                            continue
            out.append((v2, w2))
    if len(out) == 1:
        return out[0][0]
    tot = sum(w for _, w in out)
    lo = hi = 0
    for v, w in out:
        lo = (lo << w) | lo_(v)
        hi = (hi << w) | hi_(v)
    return _mk("cat", tot, *out, lo=lo, hi=hi)


def extract(x, h, l):
    """bits h..l of x"""
    if isinstance(x, int):
        return (x >> l) & mask(h - l + 1)
    if l == 0 and h == x.w - 1:
        return x
    w = h - l + 1
    if x.hi < (1 << l):
        return 0
    if x.lo == x.hi:
        return (x.lo >> l) & mask(w)
    op = x.op
    if op == "cat":
        out = []
        pos = x.w
        for v, pw in x.a:
            top = pos - 1
            bot = pos - pw
            pos = bot
            if top < l or bot > h:
                continue
            eh = min(h, top) - bot
            el = max(l, bot) - bot
            out.append((extract(v, eh, el), eh - el + 1))
        return cat(out)
    if op == "ext":
        return extract(x.a[0], x.a[2] + h, x.a[2] + l)
    if op == "lin" and l == 0:
        c, ts = x.a
        r = c & mask(w)
        for t, k in ts:
            r = add(w, r, mul(w, extract(t, h, 0), k & mask(w)))
        return r
    if op == "mul" and l == 0:
        return mul(w, extract(x.a[0], h, 0), extract(x.a[1], h, 0))
    if op == "ite":
        c, a, b = x.a
        if isinstance(a, int) or isinstance(b, int) or (a.op in ("cat", "ext") and b.op in ("cat", "ext")):
            return ite(w, c, extract(a, h, l), extract(b, h, l))
    if op == "sext" and h < x.a[0].w:
        return extract(x.a[0], h, l)
    if op == "sext" and l == 0 and h >= x.a[0].w:
        return sext(w, x.a[0], x.a[0].w)
    if op in ("band", "bor", "bxor"):
        f = {"band": band, "bor": bor, "bxor": xor}[op]
        return f(w, extract(x.a[0], h, l), extract(x.a[1], h, l))
    lo, hi = 0, mask(w)
    if x.hi >> (h + 1) == x.lo >> (h + 1):
        lo, hi = (x.lo & mask(h + 1)) >> l, (x.hi & mask(h + 1)) >> l
        if lo > hi:
            lo, hi = 0, mask(w)
    return _mk("ext", w, x, h, l, lo=lo, hi=hi)


def zext(w, a, wa):
    if isinstance(a, int) or w == wa:
        return a
    return cat(((0, w - wa), (a, wa)))


def sext(w, a, wa):
    if w == wa:
        return a
    if isinstance(a, int):
        return a if a < (1 << (wa - 1)) else (a | (mask(w) ^ mask(wa)))
    if a.hi < (1 << (wa - 1)):
        return zext(w, a, wa)
    if wa == 1:
        return ite(w, a, mask(w), 0)
    return _mk("sext", w, a)


def trunc(w, a):
    return extract(a, w - 1, 0)


def _cuts(p):
    c = []
    pos = 0
    for v, w in reversed(p):
        pos += w
        c.append(pos)
    return c


def _aligned(a, b, w):
    """split both into common pieces, MSB first: [(va, vb, w)]"""
    cuts = sorted(set(_cuts(_pieces(a, w))) | set(_cuts(_pieces(b, w))))
    out = []
    p = 0
    for c in cuts:
        out.append((extract(a, c - 1, p), extract(b, c - 1, p), c - p))
        p = c
    out.reverse()
    return out


def _disjoint(a, b, w):
    for x, y, n in _aligned(a, b, w):
        if not ((isinstance(x, int) and x == 0) or (isinstance(y, int) and y == 0)):
            return False
    return True


def _const_cuts(c, w):
    """runs of equal bits of constant c: pieces MSB first"""
    out = []
    i = w - 1
    while i >= 0:
        b = (c >> i) & 1
        j = i
        while j >= 0 and ((c >> j) & 1) == b:
            j -= 1
        out.append((b, i, j + 1))
        i = j
    return out


def _raw(op, w, a, b, lo=0, hi=None):
    if isinstance(a, int) or (isinstance(b, T) and b.id < a.id):
        a, b = b, a
    return _mk(op, w, a, b, lo=lo, hi=hi)


def band(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if a is b:
        return a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if w == 1:
            return a if b else 0
        out = []
        for bit, h, l in _const_cuts(b, w):
            out.append(((extract(a, h, l) if bit else 0), h - l + 1))
        return cat(out)
    if w == 1:
        if a.op == "not" and a.a[0] is b or b.op == "not" and b.a[0] is a:
            return 0
        if a.id > b.id:
            a, b = b, a
        if b.op == "band" and (b.a[0] is a or b.a[1] is a):
            return b
        return _mk("band", 1, a, b)
    if a.op == "cat" or b.op == "cat":
        al = _aligned(a, b, w)
        if any(isinstance(x, int) or isinstance(y, int) for x, y, n in al):
            return cat([(band(n, x, y), n) for x, y, n in al])
    return _raw("band", w, a, b, hi=min(a.hi, b.hi))


def bor(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int):
        a, b = b, a
    if a is b:
        return a
    if isinstance(b, int):
        if b == 0:
            return a
        if b == mask(w):
            return b
        if w == 1:
            return 1 if b else a
        out = []
        for bit, h, l in _const_cuts(b, w):
            out.append(((mask(h - l + 1) if bit else extract(a, h, l)), h - l + 1))
        return cat(out)
    if w == 1:
        if a.op == "not" and a.a[0] is b or b.op == "not" and b.a[0] is a:
            return 1
        if a.id > b.id:
            a, b = b, a
        return _mk("bor", 1, a, b)
    if a.op == "cat" or b.op == "cat":
        al = _aligned(a, b, w)
        if any(isinstance(x, int) or isinstance(y, int) for x, y, n in al):
            return cat([(bor(n, x, y), n) for x, y, n in al])
    return _raw("bor", w, a, b, lo=max(a.lo, b.lo), hi=(1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1)


def xor(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int):
        a, b = b, a
    if a is b:
        return 0
    if isinstance(b, int):
        if b == 0:
            return a
        if w == 1:
            return bnot(a)
        if b == mask(w):
            return sub(w, mask(w), a)
    if w == 1:
        return ite(1, a, bnot(b), b)
    if isinstance(b, int) or a.op == "cat" or b.op == "cat":
        al = _aligned(a, b, w)
        if len(al) > 1 and any((isinstance(x, int) and isinstance(y, int)) or x == 0 or y == 0 for x, y, n in al if isinstance(x, int) or isinstance(y, int)):
            return cat([(xor(n, x, y), n) for x, y, n in al])
    return _raw("bxor", w, a, b, hi=(1 << max(hi_(a).bit_length(), hi_(b).bit_length())) - 1)


def bnot(a):
    if isinstance(a, int):
        return a ^ 1
    if a.op == "not":
        return a.a[0]
    return _mk("not", 1, a)


def shl(w, a, b):
    if isinstance(b, int):
        if b >= w:
            return 0
        if isinstance(a, int):
            return (a << b) & mask(w)
        if b == 0:
            return a
        if a.op == "lin":
            return mul(w, a, 1 << b)
        return cat(((extract(a, w - 1 - b, 0), w - b), (0, b)))
    return _mk("shl", w, a, b)


def lshr(w, a, b):
    if isinstance(b, int):
        if b >= w:
            return 0
        if isinstance(a, int):
            return a >> b
        if b == 0:
            return a
        return cat(((0, b), (extract(a, w - 1, b), w - b)))
    return _mk("lshr", w, a, b, hi=hi_(a))


def ashr(w, a, b):
    if isinstance(b, int):
        if b >= w:
            b = w - 1
        if isinstance(a, int):
            s = a if a < (1 << (w - 1)) else a - (1 << w)
            return (s >> b) & mask(w)
        if b == 0:
            return a
        return sext(w, extract(a, w - 1, b), w - b)
    if hi_(a) < (1 << (w - 1)):
        return lshr(w, a, b)
    return _mk("ashr", w, a, b)


def _s(x, w):
    return x if x < (1 << (w - 1)) else x - (1 << w)


def udiv(w, a, b):
    if isinstance(b, int) and b:
        if isinstance(a, int):
            return a // b
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
        if a.hi < b:
            return 0
        return _mk("udiv", w, a, b, lo=a.lo // b, hi=a.hi // b)
    if isinstance(b, T) and b.lo > 0:
        return _mk("udiv", w, a, b, lo=lo_(a) // b.hi, hi=hi_(a) // b.lo)
    return _mk("udiv", w, a, b)


def urem(w, a, b):
    if isinstance(b, int) and b:
        if isinstance(a, int):
            return a % b
        if b & (b - 1) == 0:
            return band(w, a, b - 1)
        if a.hi < b:
            return a
        return _mk("urem", w, a, b, hi=b - 1)
    return _mk("urem", w, a, b, hi=min(hi_(a), hi_(b)) if isinstance(b, T) and b.lo > 0 else None)


def sdiv(w, a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = _s(a, w), _s(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if hi_(a) < (1 << (w - 1)) and hi_(b) < (1 << (w - 1)):
        return udiv(w, a, b)
    return _mk("sdiv", w, a, b)


def srem(w, a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = _s(a, w), _s(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & mask(w)
    if hi_(a) < (1 << (w - 1)) and hi_(b) < (1 << (w - 1)):
        return urem(w, a, b)
    return _mk("srem", w, a, b)


# ------------------------------------------------------------------ comparisons
def eq(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(a == b)
    if a is b:
        return 1
    if isinstance(a, int):
        a, b = b, a
    if a.hi < lo_(b) or hi_(b) < a.lo:
        return 0
    if w == 1:
        if isinstance(b, int):
            return a if b else bnot(a)
        return ite(1, a, b, bnot(b))
    if isinstance(b, int):
        if a.op == "ite":
            c, x, y = a.a
            if isinstance(x, int) or isinstance(y, int):
                return ite(1, c, eq(w, x, b), eq(w, y, b))
        if a.op == "cat":
            r = 1
            pos = w
            for v, n in a.a:
                pos -= n
                k = (b >> pos) & mask(n)
                if isinstance(v, int):
                    if v != k:
                        return 0
                    continue
                r = band(1, r, eq(n, v, k))
                if r == 0:
                    return 0
            return r
        if a.op == "sext":
            x = a.a[0]
            k = b & mask(x.w)
            if sext(w, k, x.w) != b:
                return 0
            return eq(x.w, x, k)
        if a.op == "lin":
            c, ts = a.a
            if c:
                return eq(w, _mk_lin(w, 0, dict(ts)), (b - c) & mask(w))
            if len(ts) == 1:
                t, k = ts[0]
                if k == mask(w):
                    return eq(w, t, (-b) & mask(w))
                if k & 1:
                    return eq(w, t, (b * pow(k, -1, 1 << w)) & mask(w))
                z = (k & -k).bit_length() - 1
                if b & mask(z):
                    return 0
                if t.hi * k <= mask(w):
                    return eq(w, t, b // k) if b % k == 0 else 0
        return _mk("eq", 1, a, b)
    if a.op == "cat" or b.op == "cat":
        al = _aligned(a, b, w)
        if len(al) > 1:
            ok = True
            for x, y, n in al:
                if isinstance(x, int) and isinstance(y, int):
                    if x != y:
                        return 0
                elif x is y or isinstance(x, int) or isinstance(y, int):
                    pass
                elif n % 8 == 0 or (x.op != "ext" and y.op != "ext"):
                    pass
                else:
                    ok = False
            if ok:
                r = 1
                for x, y, n in al:
                    r = band(1, r, eq(n, x, y))
                    if r == 0:
                        return 0
                return r
    if a.op == "lin" or b.op == "lin":
        d = sub(w, a, b)
        if isinstance(d, int):
            return int(d == 0)
        c, ts = _lin_parts(d, w)
        if len(ts) == 1:
            return eq(w, _mk_lin(w, 0, dict(ts)), (-c) & mask(w))
        if d.lo > 0:
            return 0
        # canonical sign: first coefficient "positive"
        if ts[0][1] >= (1 << (w - 1)):
            d = neg(w, d)
        c, ts = _lin_parts(d, w)
        # keep two-sided form for the two-variable case
        if len(ts) == 2 and ts[0][1] == 1 and ts[1][1] == mask(w):
            x, y = ts[0][0], add(w, ts[1][0], (-c) & mask(w))
            return _mk("eq", 1, x, y)
        return _mk("eq", 1, d, 0)
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", 1, a, b)


def ne(w, a, b):
    return bnot(eq(w, a, b))


def ult(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(a < b)
    if a is b:
        return 0
    if hi_(a) < lo_(b):
        return 1
    if lo_(a) >= hi_(b):
        return 0
    if w == 1:
        return band(1, bnot(a), b)
    if isinstance(a, int) and a == 0:
        return ne(w, b, 0)
    if isinstance(b, int) and b == 1:
        return eq(w, a, 0)
    if isinstance(b, int) and b == mask(w):
        return ne(w, a, b)
    if isinstance(a, int) and a == mask(w) - 1:
        return eq(w, b, mask(w))
    if isinstance(a, T) and a.op == "ite" and isinstance(b, int) and (isinstance(a.a[1], int) or isinstance(a.a[2], int)):
        return ite(1, a.a[0], ult(w, a.a[1], b), ult(w, a.a[2], b))
    if isinstance(b, T) and b.op == "ite" and isinstance(a, int) and (isinstance(b.a[1], int) or isinstance(b.a[2], int)):
        return ite(1, b.a[0], ult(w, a, b.a[1]), ult(w, a, b.a[2]))
    # strip common leading zeros
    m = max(hi_(a), hi_(b)).bit_length()
    ca = isinstance(a, int) or a.op == "cat"
    cb = isinstance(b, int) or b.op == "cat"
    if ca and cb and m < w and not (isinstance(a, T) and isinstance(a.a[0][0], T)) and not (isinstance(b, T) and isinstance(b.a[0][0], T)):
        za = w - m
        if isinstance(a, T):
            za = min(za, a.a[0][1])
        if isinstance(b, T):
            za = min(za, b.a[0][1])
        if za > 0:
            n = w - za
            return ult(n, extract(a, n - 1, 0), extract(b, n - 1, 0))
    # strip low bits
    if isinstance(b, int) and isinstance(a, T) and a.op == "cat" and isinstance(a.a[-1][0], int):
        n = a.a[-1][1]
        lowc = a.a[-1][0]
        bl = b & mask(n)
        top = extract(a, w - 1, n)
        return ult(w - n, top, b >> n) if lowc >= bl else bnot(ult(w - n, b >> n, top))
    if isinstance(b, int) and b & (b - 1) == 0 and isinstance(a, T) and a.op == "cat":
        return eq(w - b.bit_length() + 1, extract(a, w - 1, b.bit_length() - 1), 0)
    return _mk("ult", 1, a, b)


def ule(w, a, b):
    return bnot(ult(w, b, a))


def slt(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return int(_s(a, w) < _s(b, w))
    if a is b:
        return 0
    h = 1 << (w - 1)
    if hi_(a) < h and hi_(b) < h:
        return ult(w, a, b)
    if lo_(a) >= h and lo_(b) >= h:
        return ult(w, a, b)
    if hi_(a) < h and lo_(b) >= h:
        return 0
    if lo_(a) >= h and hi_(b) < h:
        return 1
    if isinstance(b, int) and b == 0:
        return extract(a, w - 1, w - 1)
    if isinstance(a, int) and a == mask(w):
        return bnot(extract(b, w - 1, w - 1))
    if isinstance(a, T) and a.op == "sext" and (isinstance(b, int) or b.op == "sext"):
        wa = a.a[0].w
        if isinstance(b, T):
            if b.a[0].w == wa:
                return slt(wa, a.a[0], b.a[0])
        elif sext(w, b & mask(wa), wa) == b:
            return slt(wa, a.a[0], b & mask(wa))
        else:
            return int(b < h)
    if isinstance(b, T) and b.op == "sext" and isinstance(a, int):
        wb = b.a[0].w
        if sext(w, a & mask(wb), wb) == a:
            return slt(wb, a & mask(wb), b.a[0])
        return int(a >= h)
    return _mk("slt", 1, a, b)


def sle(w, a, b):
    return bnot(slt(w, b, a))


def ite(w, c, a, b):
    if isinstance(c, int):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if c.op == "not":
        return ite(w, c.a[0], b, a)
    if w == 1:
        if isinstance(a, int):
            return bor(1, c, b) if a else band(1, bnot(c), b)
        if isinstance(b, int):
            return bor(1, bnot(c), a) if b else band(1, c, a)
    if isinstance(a, T) and a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if isinstance(b, T) and b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return _mk("ite", w, c, a, b, lo=min(lo_(a), lo_(b)), hi=max(hi_(a), hi_(b)))


def sel(name, idx, w=8):
    """byte `idx` (64 bit) of symbolic array `name`"""
    t = _mk("sel", w, name, idx)
    l = array_sels.setdefault(name, {})
    l[t] = True
    return t


tables = {}  # key -> (step, values); values[i] is at offset i * step


def tab(key, off, w):
    """entry of a constant table at (byte) offset `off`; outside the table the value is unspecified (callers check bounds)"""
    step, vals = tables[key]
    if isinstance(off, int):
        i = off // step
        return vals[i] if off % step == 0 and i < len(vals) else 0
    return _mk("tab", w, key, off, lo=min(vals), hi=max(vals))


def _mux(vals, off, bit, w):
    if all(v == vals[0] for v in vals):
        return z3.BitVecVal(vals[0], w)
    h = 1 << (len(vals) - 1).bit_length() - 1
    return z3.If(z3.Extract(bit + h.bit_length() - 1, bit + h.bit_length() - 1, off) == 1, _mux(vals[h:], off, bit, w), _mux(vals[:h], off, bit, w))


def zexpr(e, w):
    """wrap a z3 expression (Bool for w == 1)"""
    k = ("z3", w, e.get_id())
    t = _tab.get(k)
    if t is None:
        t = _mk("z3", w, e.get_id())
        t._z = e
    return t


# ------------------------------------------------------------------ z3
def array(name, w=8):
    a = arrays.get(name)
    if a is None:
        a = arrays[name] = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(w))
    return a


def zv(x, w):
    return z3.BitVecVal(x, w) if isinstance(x, int) else z(x)


def zb(x):
    """as z3 Bool"""
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    assert x.w == 1
    return z(x)


def zvv(x, w):
    """as bit-vector even for width 1"""
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    r = z(x)
    if w == 1:
        return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return r


def z(t):
    if t._z is not None:
        return t._z
    # iterative post-order
    st = [t]
    while st:
        x = st[-1]
        if x._z is not None:
            st.pop()
            continue
        kids = []
        for y in x.a:
            if isinstance(y, T):
                if y._z is None:
                    kids.append(y)
            elif isinstance(y, tuple):
                for p in y:
                    if isinstance(p, T):
                        if p._z is None:
                            kids.append(p)
                    elif isinstance(p, tuple) and isinstance(p[0], T) and p[0]._z is None:
                        kids.append(p[0])
        if kids:
            st.extend(kids)
            continue
        x._z = _z1(x)
        st.pop()
    return t._z


def _z1(t):
    op, w, a = t.op, t.w, t.a
    if op == "sym":
        return z3.Bool(a[0]) if w == 1 else z3.BitVec(a[0], w)
    if op == "lin":
        c, ts = a
        r = None
        m = mask(w)
        half = 1 << (w - 1)
        pos = [(x, k) for x, k in ts if k < half]
        ng = [(x, k) for x, k in ts if k >= half]
        for x, k in pos:
            e = z(x) if k == 1 else z(x) * z3.BitVecVal(k, w)
            r = e if r is None else r + e
        if c and (c < half or r is None):
            r = z3.BitVecVal(c, w) if r is None else r + z3.BitVecVal(c, w)
            c = 0
        if r is None:
            r = z3.BitVecVal(0, w)
        for x, k in ng:
            kk = (1 << w) - k
            e = z(x) if kk == 1 else z(x) * z3.BitVecVal(kk, w)
            r = r - e
        if c:
            r = r - z3.BitVecVal((1 << w) - c, w)
        return r
    if op == "cat":
        return z3.Concat(*[zvv(v, n) for v, n in a])
    if op == "ext":
        e = z3.Extract(a[1], a[2], z(a[0]))
        return e == z3.BitVecVal(1, 1) if w == 1 else e
    if op == "sext":
        return z3.SignExt(w - a[0].w, zvv(a[0], a[0].w))
    if op == "mul":
        return z(a[0]) * z(a[1])
    if op == "band":
        return z3.And(zb(a[0]), zb(a[1])) if w == 1 else zv(a[0], w) & zv(a[1], w)
    if op == "bor":
        return z3.Or(zb(a[0]), zb(a[1])) if w == 1 else zv(a[0], w) | zv(a[1], w)
    if op == "bxor":
        return zv(a[0], w) ^ zv(a[1], w)
    if op == "not":
        return z3.Not(zb(a[0]))
    if op == "shl":
        return zv(a[0], w) << zv(a[1], w)
    if op == "lshr":
        return z3.LShR(zv(a[0], w), zv(a[1], w))
    if op == "ashr":
        return zv(a[0], w) >> zv(a[1], w)
    if op == "udiv":
        return z3.UDiv(zv(a[0], w), zv(a[1], w))
    if op == "urem":
        return z3.URem(zv(a[0], w), zv(a[1], w))
    if op == "sdiv":
        return zv(a[0], w) / zv(a[1], w)
    if op == "srem":
        return z3.SRem(zv(a[0], w), zv(a[1], w))
    if op in ("eq", "ult", "slt"):
        ww = a[0].w if isinstance(a[0], T) else a[1].w
        x, y = zvv(a[0], ww), zvv(a[1], ww)
        return x == y if op == "eq" else z3.ULT(x, y) if op == "ult" else x < y
    if op == "ite":
        if w == 1:
            return z3.If(zb(a[0]), zb(a[1]), zb(a[2]))
        return z3.If(zb(a[0]), zv(a[1], w), zv(a[2], w))
    if op == "tab":
        step, vals = tables[a[0]]
        return _mux(vals, zv(a[1], 64), step.bit_length() - 1, w)
    if op == "sel":
        return z3.BitVec(f"sel!{a[0]}!{t.id}", w)
    raise NotImplementedError(op)


# ------------------------------------------------------------------ evaluation under a model
class NoEval(Exception):
    pass


class Model:
    """assignment: sym name -> int, sel term -> value, array name -> {idx: value}; unlisted = 0"""

    def __init__(self, vals=None, arrs=None, z3m=None, sels=(), selv=None):
        self.v = vals or {}
        self.ar = arrs or {}
        self.memo = {}
        self.z3m = z3m
        self.selv = selv if selv is not None else {}
        if z3m is not None:
            for s_ in sels:
                e = z3m[z(s_).decl()]
                if e is not None:
                    self.selv[s_] = e.as_long()
        self.placed = not self.selv

    def place(self):
        self.placed = True
        for s_, x in self.selv.items():
            self.ar.setdefault(s_.a[0], {}).setdefault(self.ev(s_.a[1]), x)

    def ev(self, x):
        if isinstance(x, int):
            return x
        memo = self.memo
        r = memo.get(x)
        if r is not None:
            return r
        st = [x]
        while st:
            t = st[-1]
            if t in memo:
                st.pop()
                continue
            kids = [y for y in deps(t) if y not in memo]
            if kids:
                st.extend(kids)
                continue
            memo[t] = self._ev1(t)
            st.pop()
        return memo[x]

    def g(self, x):
        return x if isinstance(x, int) else self.memo[x]

    def _ev1(self, t):
        op, w, a = t.op, t.w, t.a
        g = self.g
        if op == "sym":
            v = self.v.get(a[0])
            if v is None:
                if self.z3m is not None:
                    e = self.z3m.eval(t._z if t._z is not None else z(t), model_completion=True)
                    v = e.as_long() if w > 1 else int(z3.is_true(e))
                else:
                    v = 0
                self.v[a[0]] = v
            return v
        if op == "lin":
            s = a[0]
            for x, k in a[1]:
                s += g(x) * k
            return s & mask(w)
        if op == "cat":
            r = 0
            for v, n in a:
                r = (r << n) | g(v)
            return r
        if op == "ext":
            return (g(a[0]) >> a[2]) & mask(w)
        if op == "sext":
            return sext(w, g(a[0]), a[0].w)
        if op == "not":
            return g(a[0]) ^ 1
        if op == "ite":
            return g(a[1]) if g(a[0]) else g(a[2])
        if op == "sel":
            r = self.selv.get(t)
            if r is not None:
                return r
            if not self.placed:
                self.place()
            return self.ar.setdefault(a[0], {}).get(g(a[1]), 0)
        if op in ("eq", "ult", "slt"):
            x, y = g(a[0]), g(a[1])
            if op == "eq":
                return int(x == y)
            if op == "ult":
                return int(x < y)
            ww = a[0].w if isinstance(a[0], T) else a[1].w
            return int(_s(x, ww) < _s(y, ww))
        if op == "tab":
            step, vals = tables[a[0]]
            i = g(a[1]) // step
            return vals[i] if i < len(vals) else vals[-1]
        if op == "z3":
            if self.z3m is None:
                raise NoEval()
            e = self.z3m.eval(t._z, model_completion=True)
            if w == 1:
                if z3.is_true(e):
                    return 1
                if z3.is_false(e):
                    return 0
                raise NoEval()
            if z3.is_bv_value(e):
                return e.as_long()
            raise NoEval()
        x, y = g(a[0]), g(a[1])
        m = mask(w)
        if op == "mul":
            return (x * y) & m
        if op == "band":
            return x & y
        if op == "bor":
            return x | y
        if op == "bxor":
            return x ^ y
        if op == "shl":
            return (x << y) & m if y < w else 0
        if op == "lshr":
            return x >> y if y < w else 0
        if op == "ashr":
            return ashr(w, x, y)
        if op == "udiv":
            return x // y if y else m
        if op == "urem":
            return x % y if y else x
        if op == "sdiv":
            if y == 0:
                return m if _s(x, w) >= 0 else 1
            return sdiv(w, x, y)
        if op == "srem":
            return srem(w, x, y) if y else x
        raise NotImplementedError(op)


def deps(t):
    op = t.op
    if op in ("sym", "z3"):
        return ()
    if op == "lin":
        return [x for x, _ in t.a[1]]
    if op == "cat":
        return [v for v, _ in t.a if isinstance(v, T)]
    return [x for x in t.a if isinstance(x, T)]


def support(ts):
    """names of symbols and arrays a set of terms depends on"""
    seen = set()
    out = set()
    st = [t for t in ts if isinstance(t, T)]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("sym", "sel"):
            out.add(t.a[0])
        elif t.op == "z3":
            out.add(("z3", t.id))
        st.extend(deps(t))
    return out


_atoms = {}


def atoms(t):
    """symbols and array reads a term depends on directly (not those inside array indices); z3 terms as themselves"""
    r = _atoms.get(t)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in _atoms:
            st.pop()
            continue
        if x.op in ("sym", "sel", "z3"):
            _atoms[x] = frozenset((x,))
            st.pop()
            continue
        d = deps(x)
        kids = [y for y in d if y not in _atoms]
        if kids:
            st.extend(kids)
            continue
        acc = frozenset()
        for y in d:
            q = _atoms[y]
            if not q <= acc:
                acc = acc | q
        _atoms[x] = acc
        st.pop()
    return _atoms[t]


def sel_base(s):
    """index of an array read without its constant part"""
    i = s.a[1]
    if isinstance(i, int):
        return None
    if i.op == "lin":
        return i.a[1]
    return ((i, 1),)


def subst(t, m):
    """replace terms by terms (dict T -> value)"""
    memo = {}

    def go(x):
        if isinstance(x, int):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        op, w, a = x.op, x.w, x.a
        if op in ("sym", "z3"):
            r = x
        elif op == "lin":
            r = a[0]
            for y, k in a[1]:
                r = add(w, r, mul(w, go(y), k))
        elif op == "cat":
            r = cat([(go(v), n) for v, n in a])
        elif op == "ext":
            r = extract(go(a[0]), a[1], a[2])
        elif op == "sext":
            r = sext(w, go(a[0]), a[0].w)
        elif op == "not":
            r = bnot(go(a[0]))
        elif op == "ite":
            r = ite(w, go(a[0]), go(a[1]), go(a[2]))
        elif op == "sel":
            r = sel(a[0], go(a[1]), w)
        elif op == "tab":
            r = tab(a[0], go(a[1]), w)
        elif op in ("eq", "ult", "slt"):
            ww = a[0].w if isinstance(a[0], T) else a[1].w
            r = {"eq": eq, "ult": ult, "slt": slt}[op](ww, go(a[0]), go(a[1]))
        else:
            f = {"mul": mul, "band": band, "bor": bor, "bxor": xor, "shl": shl, "lshr": lshr, "ashr": ashr, "udiv": udiv, "urem": urem,
                 "sdiv": sdiv, "srem": srem}[op]
            r = f(w, go(a[0]), go(a[1]))
        memo[x] = r
        return r
    return go(t)
