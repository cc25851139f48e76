"""Built-in functions: LLVM intrinsics, C/C++ runtime, verification intrinsics; mapping to C++ models."""
import re
import term as tm
from term import T
from mem import *
import execu
from llir import GlobalRef

M64 = (1 << 64) - 1

MODELS = {
    "std::basic_ios<char, std::char_traits<char>>::clear(std::_Ios_Iostate)": "vcm_ios_clear",
    "std::istream::read(char*, long)": "vcm_istream_read",
    "std::istream::get()": "vcm_istream_get",
    "std::istream::peek()": "vcm_istream_peek",
    "std::istream::ignore()": "vcm_istream_ignore",
    "std::istream::tellg()": "vcm_istream_tellg",
    "std::istream::seekg(long, std::_Ios_Seekdir)": "vcm_istream_seekg_dir",
    "std::istream::seekg(std::fpos<__mbstate_t>)": "vcm_istream_seekg",
    "std::ostream::write(char const*, long)": "vcm_ostream_write",
    "std::ostream::put(char)": "vcm_ostream_put",
    "std::ostream::tellp()": "vcm_ostream_tellp",
    "std::ostream::seekp(long, std::_Ios_Seekdir)": "vcm_ostream_seekp_dir",
    "std::ostream::seekp(std::fpos<__mbstate_t>)": "vcm_ostream_seekp",
    "std::ostream::flush()": "vcm_ostream_flush",
    "std::ostream::operator<<(std::basic_streambuf<char, std::char_traits<char>>*)": "vcm_ostream_insert_buf",
    "std::basic_ostream<char, std::char_traits<char>>& std::__ostream_insert<char, std::char_traits<char>>(std::basic_ostream<char, std::char_traits<char>>&, char const*, long)": "vcm_ostream_insert",
    "std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char>>::basic_stringstream()": "vcm_ss_ctor",
    "std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char>>::basic_stringstream(std::_Ios_Openmode)": "vcm_ss_ctor_mode",
    "std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char>>::~basic_stringstream()": "vcm_nop1",
    "std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char>>::str() const": "vcm_ss_str",
    "std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char>>::rdbuf() const": "vcm_ss_rdbuf",
    "CppUtilities::NativeFileStream::NativeFileStream()": "vcm_nfs_ctor",
    "CppUtilities::NativeFileStream::~NativeFileStream()": "vcm_nop1",
    "CppUtilities::NativeFileStream::isOpen() const": "vcm_true",
    "CppUtilities::NativeFileStream::close()": "vcm_nop1",
    "CppUtilities::BinaryReader::setStream(std::istream*, bool)": "vcm_reader_setStream",
    "CppUtilities::BinaryWriter::setStream(std::ostream*, bool)": "vcm_writer_setStream",
    "CppUtilities::BinaryReader::readString[abi:cxx11](unsigned long)": "vcm_reader_readString",
    "CppUtilities::BinaryReader::bufferVariableLengthInteger()": "vcm_reader_bufferVli",
    "CppUtilities::BinaryWriter::writeVariableLengthInteger(unsigned long, void (*)(unsigned long, char*))": "vcm_writer_writeVli",
    "CppUtilities::BinaryReader::readTerminatedString[abi:cxx11](unsigned long, unsigned char)": "vcm_reader_readTerminatedString",
    "CppUtilities::BitReader::skipBits(unsigned long)": "vcm_bitreader_skip",
    "std::_Rb_tree_increment(std::_Rb_tree_node_base*)": "vcm_rb_inc",
    "std::_Rb_tree_increment(std::_Rb_tree_node_base const*)": "vcm_rb_inc",
    "std::_Rb_tree_decrement(std::_Rb_tree_node_base*)": "vcm_rb_dec",
    "std::_Rb_tree_decrement(std::_Rb_tree_node_base const*)": "vcm_rb_dec",
    "std::_Rb_tree_insert_and_rebalance(bool, std::_Rb_tree_node_base*, std::_Rb_tree_node_base*, std::_Rb_tree_node_base&)": "vcm_rb_insert",
    "std::_Rb_tree_rebalance_for_erase(std::_Rb_tree_node_base*, std::_Rb_tree_node_base&)": "vcm_rb_erase",
    "std::__detail::_List_node_base::_M_hook(std::__detail::_List_node_base*)": "vcm_list_hook",
    "std::__detail::_List_node_base::_M_unhook()": "vcm_list_unhook",
}

MODELRX = [
    (re.compile(r"CppUtilities::CopyHelper<\w+>::copy\(std::istream&, std::ostream&, unsigned long\)"), "vcm_copy"),
]

# string building whose result is never inspected by the properties: empty string (listed as an assumption)
OPAQUE_DEFAULT = [
    r"CppUtilities::argsToString<",
    r"CppUtilities::tupleToString<",
    r"TagParser::\w+::(parsingContext|idToString)(\[abi:cxx11\])?\(",
    r"TagParser::(GenericFileElement|TagField)<.*>::idToString(\[abi:cxx11\])?\(",
    r"CppUtilities::(numberToString|dataSizeToString|bitrateToString)\b",
]

NOP = {"__cxa_atexit", "__cxa_guard_abort", "__cxa_free_exception"}


class Builtins:
    def __init__(self, eng):
        self.e = eng
        self.cache = {}
        self.opaque = [re.compile(p) for p in OPAQUE_DEFAULT]
        self.opaque_used = set()
        self.n_alloc = 0

    def lookup(self, name):
        r = self.cache.get(name, 0)
        if r != 0:
            return r
        r = self._lookup(name)
        self.cache[name] = r
        return r

    def _lookup(self, name):
        e = self.e
        if name.startswith("llvm."):
            base = name[5:]
            for k in LLVM:
                if base == k or base.startswith(k + "."):
                    return ("py", getattr(self, LLVM[k]))
            raise Unsupported(f"intrinsic {name}")
        h = getattr(self, "f_" + name, None)
        if h:
            return ("py", h)
        if name in NOP:
            return ("py", self.nop)
        f = e.mod.funcs.get(name)
        if f is None:
            return None
        d = f.demangled
        m = MODELS.get(d)
        if m and m in e.mod.funcs:
            return ("model", m)
        for rx, m in MODELRX:
            if rx.match(d) and m in e.mod.funcs:
                return ("model", m)
        h = DEM.get(d)
        if h:
            return ("py", getattr(self, h))
        for rx, h in DEMRX:
            if rx.match(d):
                return ("py", getattr(self, h))
        d2 = re.sub(r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> ", "", d)
        for rx in self.opaque:
            if rx.match(d2) or rx.match(d):
                return ("py", self.opaque_string)
        return None

    # ------------------------------------------------------------------ generic
    def nop(self, st, fr, I, name, a):
        return 0

    def opaque_string(self, st, fr, I, name, a):
        e = self.e
        p = a[0]
        self.opaque_used.add(e.mod.funcs[name].demangled.split("<")[0].split("(")[0])
        if not isinstance(p, Ptr):
            raise Unsupported("opaque string without sret")
        o = e.wobj(st, p.o)
        e.write(st, o, p.off, 8, Ptr(p.o, tm.add(64, p.off, 16)))
        e.write(st, o, tm.add(64, p.off, 8), 8, 0)
        e.write(st, o, tm.add(64, p.off, 16), 1, 0)
        return None

    def cstr(self, st, p):
        e = self.e
        if isinstance(p, tuple):
            p = e.gptr(st, p)
        o = st.mem[p.o]
        out = bytearray()
        off = p.off
        while True:
            b = e.read(st, o, off, 1)
            if not isinstance(b, int):
                raise Unsupported("symbolic string constant")
            if b == 0:
                break
            out.append(b)
            off += 1
        return out.decode("latin1")

    # ------------------------------------------------------------------ verification intrinsics
    def uname(self, st, name):
        base = name
        k = 2
        while name in st.names:
            name = f"{base}#{k}"
            k += 1
        return name

    def f___vc_symbolic(self, st, fr, I, name, a):
        return 1

    def f___vc_sym(self, st, fr, I, name, a):
        n = self.uname(st, self.cstr(st, a[0]))
        w = a[1]
        st.names[n] = ("sym", w)
        t = tm.sym(n, w)
        return tm.zext(64, t, w)

    def f___vc_assume(self, st, fr, I, name, a):
        c = a[0]
        self.e.assume(st, c)
        return None

    def f___vc_ensure(self, st, fr, I, name, a):
        label = self.cstr(st, a[1])
        self.e.oblige(st, a[0], label, "ensure")
        return None

    def f___vc_cover(self, st, fr, I, name, a):
        label = self.cstr(st, a[0])
        self.e.covers_seen.add(label)
        return None

    def f___vc_bytes(self, st, fr, I, name, a):
        e = self.e
        n = self.uname(st, self.cstr(st, a[0]))
        p, ln = a[1], a[2]
        st.names[n] = ("arr", 8)
        o = e.access(st, p, ln, "write", True)
        o = e.wobj(st, p.o)
        if isinstance(ln, int) and ln <= 256 and isinstance(p.off, int):
            for i in range(ln):
                e.write(st, o, p.off + i, 1, tm.sel(n, i))
        else:
            o.freeze()
            o.base = L("copy", (p.off, ln, L("arr", n), 0), o.base)
        return None

    def f___vc_buffer(self, st, fr, I, name, a):
        n = self.uname(st, self.cstr(st, a[0]))
        st.names[n] = ("arr", 8)
        o = self.e.new_obj(st, a[1], L("arr", n), "heap:" + n, "heap")
        return Ptr(o.id, 0)
    f___vc_havoc = f___vc_buffer

    def f___vc_buffer_of(self, st, fr, I, name, a):
        n = self.uname(st, self.cstr(st, a[0]))
        w = a[2]
        st.names[n] = ("arr", 8 * w)
        o = self.e.new_obj(st, tm.mul(64, a[1], w), L("arrn", (n, w)), "heap:" + n, "heap")
        return Ptr(o.id, 0)

    def f___vc_arr_at(self, st, fr, I, name, a):
        return tm.sel(self.cstr(st, a[0]), a[1])

    def f___vc_replace(self, st, fr, I, name, a):
        pat = self.cstr(st, a[0])
        fn = a[1].name
        st.replace = dict(st.replace)
        hit = 0
        for n, f in self.e.mod.funcs.items():
            if f.demangled.startswith(pat):
                st.replace[n] = fn
                hit += 1
        if not hit:
            self.e.undecided.append(("contract target missing", pat, []))
        return None

    def f___vc_opaque(self, st, fr, I, name, a):
        pat = self.cstr(st, a[0])
        if not any(o.pattern == pat for o in self.opaque):
            self.opaque.append(re.compile(pat))
            self.cache = {k: v for k, v in self.cache.items() if v is not None}
        return None

    def f___vc_split(self, st, fr, I, name, a):
        return self.e.concretize(st, a[0], 64, 600, "case split")

    def f___vc_finish(self, st, fr, I, name, a):
        raise execu.PathEnd()

    def f___vc_throw_failure(self, st, fr, I, name, a):
        o = self.e.new_obj(st, 64, L_UNDEF, "exception", "heap")
        self.e.throw(st, Ptr(o.id, 0), "_ZTINSt8ios_base7failureB5cxx11E")
        return Jumped

    def f___vc_unsupported(self, st, fr, I, name, a):
        raise Unsupported(self.cstr(st, a[0]))

    # ------------------------------------------------------------------ allocation
    def f__Znwm(self, st, fr, I, name, a):
        e = self.e
        n = a[0]
        big = tm.ule(64, 1 << 46, n)
        if big != 0 and e.require(st, big):
            return self.throw_std(st, "_ZTISt9bad_alloc")
        o = e.new_obj(st, n, L_UNDEF, "heap", "heap")
        return Ptr(o.id, 0)
    f__Znam = f__Znwm

    def f__ZnwmRKSt9nothrow_t(self, st, fr, I, name, a):
        o = self.e.new_obj(st, a[0], L_UNDEF, "heap", "heap")
        return Ptr(o.id, 0)
    f_malloc = f__ZnwmRKSt9nothrow_t

    def f__ZdlPv(self, st, fr, I, name, a):
        p = a[0]
        if isinstance(p, int) and p == 0:
            return None
        if not isinstance(p, Ptr):
            raise Unsupported("delete of unknown pointer")
        e = self.e
        o = st.mem.get(p.o)
        if o is None or not o.alive or o.kind != "heap" or p.off != 0:
            e.oblige(st, 0, "delete of a valid heap block" + e.fname(st), "memory")
        o = e.wobj(st, p.o)
        o.alive = False
        o.cells = {}
        o.base = L_UNDEF
        return None
    f__ZdlPvm = f__ZdaPv = f__ZdaPvm = f_free = f__ZdlPv

    # ------------------------------------------------------------------ C library
    def f_strlen(self, st, fr, I, name, a):
        e = self.e
        p = a[0]
        if isinstance(p, tuple):
            p = e.gptr(st, p)
        i = 0
        while True:
            q = e.padd(st, p, i)
            o = e.access(st, q, 1, "read")
            b = e.read(st, o, q.off, 1)
            if e.require(st, tm.eq(8, b, 0)):
                return i
            i += 1

    def _cmpn(self, st, p, q, n):
        e = self.e
        if n == 0:
            return 0
        if not isinstance(p, Ptr) or not isinstance(q, Ptr):
            raise Unsupported("memcmp")
        po = e.access(st, p, n, "read")
        qo = e.access(st, q, n, "read")
        prs = []
        for i in range(n):
            x = e.read(st, st.mem[p.o], tm.add(64, p.off, i), 1)
            y = e.read(st, st.mem[q.o], tm.add(64, q.off, i), 1)
            prs.append((x, y))
        r = 0
        for x, y in reversed(prs):
            eq = tm.eq(8, x, y)
            if eq == 1:
                continue
            r = tm.ite(32, eq, r, tm.ite(32, tm.ult(8, x, y), M64 & 0xffffffff, 1))
        return r

    def f_memcmp(self, st, fr, I, name, a):
        n = a[2]
        if not isinstance(n, int):
            n = self.e.concretize(st, n, 64, 80, "memcmp length")
        return self._cmpn(st, a[0], a[1], n)
    f_bcmp = f_memcmp

    def f_memchr(self, st, fr, I, name, a):
        e = self.e
        n = a[2]
        if not isinstance(n, int):
            n = e.concretize(st, n, 64, 80, "memchr length")
        if n == 0:
            return 0
        e.access(st, a[0], n, "read")
        c = tm.trunc(8, a[1])
        for i in range(n):
            b = e.read(st, st.mem[a[0].o], tm.add(64, a[0].off, i), 1)
            if e.require(st, tm.eq(8, b, c)):
                return e.padd(st, a[0], i)
        return 0

    def f_strcmp(self, st, fr, I, name, a):
        x, y = self.cstr(st, a[0]), self.cstr(st, a[1])
        return 0 if x == y else (1 if x > y else 0xffffffff)

    def f_time(self, st, fr, I, name, a):
        return 0

    def zero(self, st, fr, I, name, a):
        return 0

    def zero_bool_pair(self, st, fr, I, name, a):
        return [0, 0]

    def next_bkt(self, st, fr, I, name, a):
        return 1

    # ------------------------------------------------------------------ C++ runtime
    def f___cxa_guard_acquire(self, st, fr, I, name, a):
        e = self.e
        o = e.access(st, a[0], 1, "read")
        p = a[0]
        v = e.read(st, o, p.off, 1)
        return int(v == 0)

    def f___cxa_guard_release(self, st, fr, I, name, a):
        e = self.e
        o = e.wobj(st, a[0].o)
        e.write(st, o, a[0].off, 1, 1)
        return None

    def f___cxa_allocate_exception(self, st, fr, I, name, a):
        o = self.e.new_obj(st, a[0], L_UNDEF, "exception", "heap")
        return Ptr(o.id, 0)

    def f___cxa_throw(self, st, fr, I, name, a):
        ti = a[1]
        if isinstance(ti, Ptr):
            ti = st.mem[ti.o].name
        elif isinstance(ti, tuple):
            ti = ti[1]
        self.e.throw(st, a[0], ti)
        return Jumped

    def f___cxa_rethrow(self, st, fr, I, name, a):
        if not st.caught:
            self.e.oblige(st, 0, "no std::terminate" + self.e.fname(st), "exception")
        p, ti = st.caught[-1]
        self.e.throw(st, p, ti)
        return Jumped

    def f___cxa_begin_catch(self, st, fr, I, name, a):
        st.caught.append(st.exc)
        return a[0]

    def f___cxa_end_catch(self, st, fr, I, name, a):
        if st.caught:
            st.caught.pop()
        return None

    def f___cxa_pure_virtual(self, st, fr, I, name, a):
        self.e.oblige(st, 0, "no pure virtual call" + self.e.fname(st), "memory")

    def f___clang_call_terminate(self, st, fr, I, name, a):
        self.e.oblige(st, 0, "no std::terminate (exception leaving noexcept code)" + self.e.fname(st), "exception")

    def terminate(self, st, fr, I, name, a):
        self.e.oblige(st, 0, "no std::terminate" + self.e.fname(st), "exception")

    def glibcxx_assert(self, st, fr, I, name, a):
        self.e.oblige(st, 0, "library precondition (libstdc++ assertion)" + self.e.fname(st), "memory")

    def throw_std(self, st, ti):
        o = self.e.new_obj(st, 64, L_UNDEF, "exception", "heap")
        self.e.throw(st, Ptr(o.id, 0), ti)
        return Jumped

    def t_length(self, st, fr, I, name, a):
        return self.throw_std(st, "_ZTISt12length_error")

    def t_logic(self, st, fr, I, name, a):
        return self.throw_std(st, "_ZTISt11logic_error")

    def t_oor(self, st, fr, I, name, a):
        return self.throw_std(st, "_ZTISt12out_of_range")

    def t_alloc(self, st, fr, I, name, a):
        return self.throw_std(st, "_ZTISt9bad_alloc")

    def t_func(self, st, fr, I, name, a):
        return self.throw_std(st, "_ZTISt17bad_function_call")

    def t_cast(self, st, fr, I, name, a):
        return self.throw_std(st, "_ZTISt8bad_cast")

    def f_llvm_eh_typeid(self, st, fr, I, name, a):
        pass

    def f___dynamic_cast(self, st, fr, I, name, a):
        e = self.e
        p = a[0]
        if isinstance(p, int) and p == 0:
            return 0
        # vptr -> vtable global; typeinfo at -8, offset-to-top at -16
        vp = e.load(st, p, PTR)
        o = st.mem[vp.o]
        ti = e.read(st, o, tm.sub(64, vp.off, 8), 8)
        top = e.read(st, o, tm.sub(64, vp.off, 16), 8)
        dn = ti[1] if isinstance(ti, tuple) else st.mem[ti.o].name
        want = a[2]
        wn = st.mem[want.o].name if isinstance(want, Ptr) else want[1]
        if not e.is_base(wn, dn):
            return 0
        return e.padd(st, p, top)

    # ------------------------------------------------------------------ LLVM intrinsics
    def i_memcpy(self, st, fr, I, name, a):
        self.e.memcpy(st, a[0], a[1], a[2])

    def i_memset(self, st, fr, I, name, a):
        self.e.memset(st, a[0], a[1], a[2])

    def i_nop(self, st, fr, I, name, a):
        return a[0] if a else 0

    def i_expect(self, st, fr, I, name, a):
        return a[0]

    def i_minmax(self, st, fr, I, name, a):
        w = I.ty.w
        k = name.split(".")[1]
        x, y = a
        c = {"umin": lambda: tm.ult(w, x, y), "umax": lambda: tm.ult(w, y, x), "smin": lambda: tm.slt(w, x, y), "smax": lambda: tm.slt(w, y, x)}[k]()
        return tm.ite(w, c, x, y)

    def i_abs(self, st, fr, I, name, a):
        w = I.ty.w
        return tm.ite(w, tm.slt(w, a[0], 0), tm.neg(w, a[0]), a[0])

    def i_bswap(self, st, fr, I, name, a):
        w = I.ty.w
        return tm.cat([(tm.extract(a[0], 8 * i + 7, 8 * i), 8) for i in range(w // 8)])

    def i_ctlz(self, st, fr, I, name, a):
        w = I.ty.w
        r = w
        for i in range(w):
            r = tm.ite(w, tm.extract(a[0], i, i), w - 1 - i, r)
        return r

    def i_cttz(self, st, fr, I, name, a):
        w = I.ty.w
        r = w
        for i in reversed(range(w)):
            r = tm.ite(w, tm.extract(a[0], i, i), i, r)
        return r

    def i_ctpop(self, st, fr, I, name, a):
        w = I.ty.w
        r = 0
        for i in range(w):
            r = tm.add(w, r, tm.zext(w, tm.extract(a[0], i, i), 1))
        return r

    def i_fsh(self, st, fr, I, name, a):
        w = I.ty.w
        if not isinstance(a[2], int):
            raise Unsupported("funnel shift")
        s = a[2] % w
        c = tm.cat([(a[0], w), (a[1], w)])
        return tm.extract(c, 2 * w - 1 - s, w - s) if "fshl" in name else tm.extract(c, w - 1 + s, s)

    def i_ovf(self, st, fr, I, name, a):
        w = I.ty.elems[0].w
        k = name.split(".")[1]
        x, y = a
        if k == "uadd":
            r = tm.add(w, x, y)
            return [r, tm.ult(w, r, x)]
        if k == "usub":
            return [tm.sub(w, x, y), tm.ult(w, x, y)]
        if k == "umul":
            r = tm.mul(2 * w, tm.zext(2 * w, x, w), tm.zext(2 * w, y, w))
            return [tm.mul(w, x, y), tm.ne(w, tm.extract(r, 2 * w - 1, w), 0)]
        if k in ("sadd", "ssub", "smul"):
            f = {"sadd": tm.add, "ssub": tm.sub, "smul": tm.mul}[k]
            r = f(2 * w, tm.sext(2 * w, x, w), tm.sext(2 * w, y, w))
            lo = tm.trunc(w, r)
            return [lo, tm.ne(2 * w, tm.sext(2 * w, lo, w), r)]
        raise Unsupported(name)

    def i_sat(self, st, fr, I, name, a):
        w = I.ty.w
        x, y = a
        if "usub" in name:
            return tm.ite(w, tm.ult(w, x, y), 0, tm.sub(w, x, y))
        if "uadd" in name:
            r = tm.add(w, x, y)
            return tm.ite(w, tm.ult(w, r, x), tm.mask(w), r)
        raise Unsupported(name)

    def i_typeid(self, st, fr, I, name, a):
        t = a[0]
        n = st.mem[t.o].name if isinstance(t, Ptr) else (t[1] if isinstance(t, tuple) else None)
        return self.e.tid(n)

    def i_const0(self, st, fr, I, name, a):
        return 0

    def i_objsize(self, st, fr, I, name, a):
        return M64

    def i_trap(self, st, fr, I, name, a):
        self.e.oblige(st, 0, "trap not reached" + self.e.fname(st), "arith")

    def i_fabs(self, st, fr, I, name, a):
        import z3
        v = a[0]
        return abs(v) if isinstance(v, float) else FV(z3.fpAbs(v.e), v.w)

    def i_fround(self, st, fr, I, name, a):
        import math
        import z3
        v = a[0]
        k = name.split(".")[1]
        if isinstance(v, float):
            return float({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc}[k](v))
        rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ()}[k]
        return FV(z3.fpRoundToIntegral(rm, v.e), v.w)

    def i_fmuladd(self, st, fr, I, name, a):
        import z3
        if all(isinstance(x, float) for x in a):
            r = a[0] * a[1] + a[2]
            return f32(r) if I.ty.w == 32 else r
        w = I.ty.w
        x, y, z_ = [tofp(v, w) for v in a]
        return FV(z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), x, y), z_), w)


class Jumped_:
    pass


Jumped = Jumped_()


class _P:
    k = "ptr"
    w = 64
    store = size = 8


PTR = _P()

LLVM = {
    "memcpy": "i_memcpy", "memmove": "i_memcpy", "memcpy.inline": "i_memcpy", "memset": "i_memset", "lifetime": "i_nop", "dbg": "i_nop", "assume": "i_nop",
    "umin": "i_minmax", "umax": "i_minmax", "smin": "i_minmax", "smax": "i_minmax", "abs": "i_abs", "bswap": "i_bswap", "ctlz": "i_ctlz",
    "cttz": "i_cttz", "ctpop": "i_ctpop", "fshl": "i_fsh", "fshr": "i_fsh", "uadd.with.overflow": "i_ovf", "usub.with.overflow": "i_ovf",
    "umul.with.overflow": "i_ovf", "sadd.with.overflow": "i_ovf", "ssub.with.overflow": "i_ovf", "smul.with.overflow": "i_ovf", "usub.sat": "i_sat",
    "uadd.sat": "i_sat", "expect": "i_expect", "eh.typeid.for": "i_typeid", "stacksave": "i_const0", "stackrestore": "i_nop", "is.constant": "i_const0",
    "objectsize": "i_objsize", "trap": "i_trap", "experimental.noalias.scope.decl": "i_nop", "fabs": "i_fabs", "floor": "i_fround", "ceil": "i_fround",
    "trunc": "i_fround", "fmuladd": "i_fmuladd", "launder.invariant.group": "i_expect", "strip.invariant.group": "i_expect", "prefetch": "i_nop",
}
DEM = {
    "std::__throw_length_error(char const*)": "t_length",
    "std::__throw_logic_error(char const*)": "t_logic",
    "std::__throw_out_of_range(char const*)": "t_oor",
    "std::__throw_out_of_range_fmt(char const*, ...)": "t_oor",
    "std::__throw_bad_alloc()": "t_alloc",
    "std::__throw_bad_array_new_length()": "t_alloc",
    "std::__throw_bad_function_call()": "t_func",
    "std::__throw_bad_cast()": "t_cast",
    "std::terminate()": "terminate",
    "std::__glibcxx_assert_fail(char const*, int, char const*, char const*)": "glibcxx_assert",
    "std::chrono::_V2::system_clock::now()": "zero",
    "std::_Hash_bytes(void const*, unsigned long, unsigned long)": "zero",
    "std::__detail::_Prime_rehash_policy::_M_need_rehash(unsigned long, unsigned long, unsigned long) const": "zero_bool_pair",
    "std::__detail::_Prime_rehash_policy::_M_next_bkt(unsigned long) const": "next_bkt",
    "std::iostream_category()": "zero",
    "std::_V2::system_category()": "zero",
    "std::exception::what() const": "zero",
    "CppUtilities::DateTime::gmtNow()": "zero",
    "CppUtilities::DateTime::now()": "zero",
}
DEMRX = [(re.compile(p), h) for p, h in [
    (r"std::ios_base::failure\[abi:cxx11\]::~?failure\(", "nop"),
    (r"std::(runtime_error|logic_error|length_error|out_of_range|invalid_argument|exception)::~?\w+\(", "nop"),
    (r"std::locale::~?locale\(", "nop"),
    (r"std::ios_base::Init::", "nop"),
    (r"CppUtilities::DateTime::gmtNow\(", "zero"),
]]
