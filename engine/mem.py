"""Memory values and objects."""
import struct
import math
import z3
import term as tm
from term import T


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __repr__(self):
        return f"&{self.o}+{tm.show(self.off)}"

    def __eq__(self, other):
        return isinstance(other, Ptr) and self.o == other.o and (self.off is other.off or (isinstance(self.off, int) and self.off == other.off))

    def __hash__(self):
        return hash((self.o, self.off if isinstance(self.off, int) else self.off.id))


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"fn:{self.name}"

    def __eq__(self, other):
        return isinstance(other, FnPtr) and other.name == self.name

    def __hash__(self):
        return hash(self.name)


class FV:
    """symbolic floating-point value"""
    __slots__ = ("e", "w", "src")

    def __init__(self, e, w, src=None):
        self.e, self.w, self.src = e, w, src


class PtrByte:
    """one byte of a pointer (only meaningful when reassembled)"""
    __slots__ = ("p", "k")

    def __init__(self, p, k):
        self.p, self.k = p, k


UNDEF = object()


class L:
    """memory layer"""
    __slots__ = ("kind", "x", "parent")

    def __init__(self, kind, x=None, parent=None):
        self.kind, self.x, self.parent = kind, x, parent


L_UNDEF = L("undef")
L_ZERO = L("zero")


class Obj:
    __slots__ = ("id", "size", "cells", "base", "alive", "ro", "name", "kind", "owner")

    def __init__(self, id, size, base, name, kind, owner, ro=False):
        self.id, self.size, self.base, self.name, self.kind, self.owner, self.ro = id, size, base, name, kind, owner, ro
        self.cells = {}
        self.alive = True

    def clone(self, owner):
        o = Obj.__new__(Obj)
        o.id, o.size, o.base, o.name, o.kind, o.owner, o.ro, o.alive = self.id, self.size, self.base, self.name, self.kind, owner, self.ro, self.alive
        o.cells = dict(self.cells)
        return o

    def freeze(self):
        if self.cells:
            self.base = L("cells", self.cells, self.base)
            self.cells = {}
        return self.base


def f2i(v, n):
    return int.from_bytes(struct.pack("<d" if n == 8 else "<f", v), "little")


def i2f(v, n):
    return struct.unpack("<d" if n == 8 else "<f", v.to_bytes(n, "little"))[0]


def fsort(w):
    return z3.Float64() if w == 64 else z3.Float32()


def tofp(v, w):
    if isinstance(v, FV):
        return v.e
    return z3.FPVal(v, fsort(w))


def f32(v):
    if math.isinf(v) or math.isnan(v):
        return v
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def byte_of(v, n, k):
    """byte k (little endian) of an n byte value"""
    if isinstance(v, (Ptr, FnPtr)):
        return PtrByte(v, k)
    if isinstance(v, float):
        v = f2i(v, n)
    if isinstance(v, FV):
        v = fp_bits(v)
    if v is UNDEF:
        return UNDEF
    return tm.extract(v, 8 * k + 7, 8 * k)


def fp_bits(v):
    b = z3.fpToIEEEBV(v.e)
    return tm.zexpr(b, v.w)


def assemble(bs):
    """little endian bytes -> value"""
    if isinstance(bs[0], PtrByte):
        p = bs[0].p
        if len(bs) == 8 and all(isinstance(b, PtrByte) and b.p == p and b.k == i for i, b in enumerate(bs)):
            return p
        raise Unsupported("partial pointer read")
    if any(isinstance(b, PtrByte) for b in bs):
        raise Unsupported("partial pointer read")
    if len(bs) == 1:
        return bs[0]
    return tm.cat([(b, 8) for b in reversed(bs)])


class Unsupported(Exception):
    pass
