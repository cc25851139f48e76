// Assumed contracts (models) of external functions: iostreams, a few out-of-line members of c++utilities, red-black tree helpers.
// Only used while verifying; the native replay runs the real ones.
#include "vc.h"
#include <c++utilities/conversion/conversionexception.h>
#include <c++utilities/io/binaryreader.h>
#include <c++utilities/io/binarywriter.h>
#include <c++utilities/io/bitreader.h>
#include <c++utilities/io/nativefilestream.h>
#include <list>
#include <map>
#include <sstream>

const std::uint32_t CppUtilities::BinaryReader::crc32Table[] = {
#include "crc32table.inc"
};

using u64 = std::uint64_t;

namespace {
struct Gs {
    u64 pos;
    u64 size;
    char *content;
    u64 magic;
    u64 ppos; // separate position for writing (std::stringstream only)
    u64 dual;
};
static_assert(sizeof(Gs) <= sizeof(std::ios_base::_M_local_word));

std::ios &iosOf(void *s)
{
    char *vptr = *static_cast<char **>(s);
    return *reinterpret_cast<std::ios *>(static_cast<char *>(s) + *reinterpret_cast<long *>(vptr - 24));
}
Gs &gs(std::ios &i)
{
    return *reinterpret_cast<Gs *>(&i._M_local_word);
}
void setState(std::ios &i, unsigned st)
{
    i._M_streambuf_state = static_cast<std::ios_base::iostate>(st);
    if (static_cast<unsigned>(i._M_exception) & st) {
        __vc_throw_failure();
    }
}
constexpr unsigned BAD = 1, EOFB = 2, FAIL = 4;
unsigned state(std::ios &i)
{
    return static_cast<unsigned>(i._M_streambuf_state);
}

// fake vtables: only the virtual base offset (at -24) is ever used
struct FakeVt {
    long vbase;
    long top;
    void *ti;
    void *slots[4];
};
void *setbufModel(void *s, char *p, long n);
FakeVt vtStream0 = { 24, 0, nullptr, {} };
FakeVt vtStream1 = { 8, -16, nullptr, {} };
constexpr long nfsIos = static_cast<long>(sizeof(CppUtilities::NativeFileStream) - sizeof(std::ios));
FakeVt vtNfs0 = { nfsIos, 0, nullptr, {} };
FakeVt vtNfs1 = { nfsIos - 16, -16, nullptr, {} };
constexpr long ssIos = static_cast<long>(sizeof(std::stringstream) - sizeof(std::ios));
FakeVt vtSs0 = { ssIos, 0, nullptr, { nullptr, nullptr, nullptr, reinterpret_cast<void *>(&setbufModel) } };
FakeVt vtSs1 = { ssIos - 16, -16, nullptr, {} };

void initStream(void *p, FakeVt &v0, FakeVt &v1, char *content, u64 size, unsigned exc)
{
    *static_cast<void **>(p) = &v0.slots;
    *reinterpret_cast<u64 *>(static_cast<char *>(p) + 8) = 0;
    *reinterpret_cast<void **>(static_cast<char *>(p) + 16) = &v1.slots;
    std::ios &i = iosOf(p);
    i._M_streambuf_state = std::ios_base::goodbit;
    i._M_exception = static_cast<std::ios_base::iostate>(exc);
    i._M_width = 0;
    i._M_flags = static_cast<std::ios_base::fmtflags>(0);
    Gs &g = gs(i);
    g.pos = 0;
    g.size = size;
    g.content = content;
    g.magic = 0x5643;
    g.ppos = 0;
    g.dual = 0;
}
u64 &putPos(Gs &g)
{
    return g.dual ? g.ppos : g.pos;
}
// std::stringbuf::setbuf: vcm_ss_rdbuf returns the stream itself
void *setbufModel(void *s, char *p, long n)
{
    Gs &g = gs(iosOf(s));
    g.content = p;
    g.size = static_cast<u64>(n);
    g.pos = g.ppos = 0;
    return s;
}
u64 &gcountOf(std::istream &s)
{
    return *reinterpret_cast<u64 *>(reinterpret_cast<char *>(&s) + 8);
}
} // namespace

extern "C" {

std::iostream *__vc_stream(const char *name, u64 size, std::uint32_t exc)
{
    void *p = ::operator new(sizeof(std::iostream));
    initStream(p, vtStream0, vtStream1, static_cast<char *>(__vc_havoc(name, 1ull << 62)), size, exc);
    return static_cast<std::iostream *>(p);
}
void __vc_stream_into(std::iostream *s, const char *name, u64 size, std::uint32_t exc)
{
    std::ios &i = iosOf(s);
    i._M_streambuf_state = std::ios_base::goodbit;
    i._M_exception = static_cast<std::ios_base::iostate>(exc);
    Gs &g = gs(i);
    g.pos = 0;
    g.dual = 0;
    g.size = size;
    g.content = static_cast<char *>(__vc_havoc(name, 1ull << 62));
}
std::uint8_t __vc_stream_at(std::iostream *s, u64 pos)
{
    return static_cast<std::uint8_t>(gs(iosOf(s)).content[pos]);
}
u64 __vc_stream_size(std::iostream *s)
{
    return gs(iosOf(s)).size;
}
u64 __vc_stream_pos(std::iostream *s)
{
    return gs(iosOf(s)).pos;
}

// ---- std::basic_ios
void vcm_ios_clear(std::ios &i, std::ios_base::iostate st)
{
    setState(i, static_cast<unsigned>(st));
}
void vcm_nop1(void *)
{
}
void vcm_nop2(void *, void *)
{
}

// ---- std::istream
std::istream &vcm_istream_read(std::istream &s, char *buf, std::streamsize n)
{
    std::ios &i = iosOf(&s);
    gcountOf(s) = 0;
    if (state(i)) {
        setState(i, state(i) | FAIL);
        return s;
    }
    if (n <= 0) {
        if (n < 0) {
            setState(i, EOFB | FAIL);
        }
        return s;
    }
    Gs &g = gs(i);
    const u64 pos = g.pos, size = g.size;
    const u64 len = static_cast<u64>(n);
    if (pos <= size && len <= size - pos) {
        __builtin_memcpy(buf, g.content + pos, len);
        g.pos = pos + len;
        gcountOf(s) = len;
        return s;
    }
    if (pos < size) {
        const u64 avail = size - pos;
        __builtin_memcpy(buf, g.content + pos, avail);
        gcountOf(s) = avail;
        g.pos = size;
    }
    setState(i, EOFB | FAIL);
    return s;
}
int vcm_istream_get(std::istream &s)
{
    std::ios &i = iosOf(&s);
    gcountOf(s) = 0;
    if (state(i)) {
        setState(i, state(i) | FAIL);
        return -1;
    }
    Gs &g = gs(i);
    if (g.pos < g.size) {
        const auto r = static_cast<unsigned char>(g.content[g.pos]);
        g.pos += 1;
        gcountOf(s) = 1;
        return r;
    }
    setState(i, EOFB | FAIL);
    return -1;
}
int vcm_istream_peek(std::istream &s)
{
    std::ios &i = iosOf(&s);
    gcountOf(s) = 0;
    if (state(i)) {
        setState(i, state(i) | FAIL);
        return -1;
    }
    Gs &g = gs(i);
    if (g.pos < g.size) {
        return static_cast<unsigned char>(g.content[g.pos]);
    }
    setState(i, EOFB);
    return -1;
}
std::istream &vcm_istream_ignore(std::istream &s)
{
    std::ios &i = iosOf(&s);
    gcountOf(s) = 0;
    if (state(i)) {
        setState(i, state(i) | FAIL);
        return s;
    }
    Gs &g = gs(i);
    if (g.pos < g.size) {
        g.pos += 1;
        gcountOf(s) = 1;
        return s;
    }
    setState(i, EOFB);
    return s;
}
std::streampos vcm_istream_tellg(std::istream &s)
{
    std::ios &i = iosOf(&s);
    if (state(i) & (FAIL | BAD)) {
        return std::streampos(-1);
    }
    if (state(i)) { // sentry: eof
        setState(i, state(i) | FAIL);
        return std::streampos(-1);
    }
    return std::streampos(static_cast<std::streamoff>(gs(i).pos));
}
static void seekTo(std::ios &i, u64 &pos, u64 base, std::streamoff off)
{
    const u64 target = base + static_cast<u64>(off);
    if (static_cast<std::int64_t>(target) < 0) {
        setState(i, state(i) | FAIL);
        return;
    }
    pos = target;
}
static void seekDir(std::ios &i, u64 &pos, std::streamoff off, std::ios_base::seekdir dir)
{
    if (state(i) & (FAIL | BAD)) {
        return;
    }
    seekTo(i, pos, dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? pos : gs(i).size, off);
}
std::istream &vcm_istream_seekg_dir(std::istream &s, std::streamoff off, std::ios_base::seekdir dir)
{
    std::ios &i = iosOf(&s);
    setState(i, state(i) & ~EOFB);
    if (state(i)) {
        setState(i, state(i) | FAIL);
        return s;
    }
    seekDir(i, gs(i).pos, off, dir);
    return s;
}
std::istream &vcm_istream_seekg(std::istream &s, std::streampos p)
{
    return vcm_istream_seekg_dir(s, static_cast<std::streamoff>(p), std::ios_base::beg);
}

// ---- std::ostream
static void put(std::ios &i, const char *buf, u64 len)
{
    Gs &g = gs(i);
    u64 &pos = putPos(g);
    __builtin_memcpy(g.content + pos, buf, len);
    pos += len;
    if (pos > g.size) {
        g.size = pos;
    }
}
std::ostream &vcm_ostream_write(std::ostream &s, const char *buf, std::streamsize n)
{
    std::ios &i = iosOf(&s);
    if (state(i)) {
        if (state(i) & BAD)
            setState(i, state(i) | FAIL);
        return s;
    }
    if (n > 0) {
        put(i, buf, static_cast<u64>(n));
    }
    return s;
}
std::ostream &vcm_ostream_put(std::ostream &s, char c)
{
    return vcm_ostream_write(s, &c, 1);
}
std::ostream &vcm_ostream_insert(std::ostream &s, const char *buf, std::streamsize n)
{
    return vcm_ostream_write(s, buf, n);
}
std::streampos vcm_ostream_tellp(std::ostream &s)
{
    std::ios &i = iosOf(&s);
    if (state(i) & (FAIL | BAD)) {
        return std::streampos(-1);
    }
    return std::streampos(static_cast<std::streamoff>(putPos(gs(i))));
}
std::ostream &vcm_ostream_seekp_dir(std::ostream &s, std::streamoff off, std::ios_base::seekdir dir)
{
    std::ios &i = iosOf(&s);
    if (state(i)) {
        return s;
    }
    seekDir(i, putPos(gs(i)), off, dir);
    return s;
}
std::ostream &vcm_ostream_seekp(std::ostream &s, std::streampos p)
{
    return vcm_ostream_seekp_dir(s, static_cast<std::streamoff>(p), std::ios_base::beg);
}
std::ostream &vcm_ostream_flush(std::ostream &s)
{
    return s;
}

// ---- CppUtilities::CopyHelper
void vcm_copy(void *, std::istream &in, std::ostream &out, u64 n)
{
    std::ios &i = iosOf(&in);
    gcountOf(in) = 0;
    if (state(i)) {
        setState(i, state(i) | FAIL);
        return;
    }
    if (!n) {
        return;
    }
    Gs &g = gs(i);
    if (g.pos <= g.size && n <= g.size - g.pos) {
        std::ios &o = iosOf(&out);
        if (!state(o)) {
            put(o, g.content + g.pos, n);
        }
        g.pos += n;
        return;
    }
    setState(i, EOFB | FAIL);
    __vc_unsupported("copying beyond the end of a stream which does not throw");
}

// ---- std::stringstream
void vcm_ss_ctor(void *p)
{
    initStream(p, vtSs0, vtSs1, static_cast<char *>(__vc_havoc("stringstream", 1ull << 62)), 0, 0);
    gs(iosOf(p)).dual = 1;
}
void vcm_ss_ctor_mode(void *p, std::ios_base::openmode)
{
    vcm_ss_ctor(p);
}
void vcm_ss_str(std::string *ret, void *s)
{
    Gs &g = gs(iosOf(s));
    new (ret) std::string(g.content, g.size);
}
void *vcm_ss_rdbuf(void *s)
{
    return s; // only ever passed on to operator<<(streambuf *) or used to call pubsetbuf()
}
std::ostream &vcm_ostream_insert_buf(std::ostream &s, void *from)
{
    Gs &f = gs(iosOf(from));
    std::ios &i = iosOf(&s);
    if (state(i)) {
        return s;
    }
    const u64 n = f.size - f.pos;
    if (n == 0) {
        setState(i, state(i) | FAIL);
        return s;
    }
    put(i, f.content + f.pos, n);
    f.pos = f.size;
    return s;
}

// ---- CppUtilities::NativeFileStream
void vcm_nfs_ctor(void *p)
{
    initStream(p, vtNfs0, vtNfs1, static_cast<char *>(__vc_havoc("nativefilestream", 1ull << 62)), 0, 0);
}
bool vcm_false(void *)
{
    return false;
}
bool vcm_true(void *)
{
    return true;
}

// ---- CppUtilities
void vcm_reader_setStream(CppUtilities::BinaryReader &r, std::istream *s, bool own)
{
    r.m_stream = s;
    r.m_ownership = s ? own : false;
}
void vcm_writer_setStream(CppUtilities::BinaryWriter &r, std::ostream *s, bool own)
{
    r.m_stream = s;
    r.m_ownership = s ? own : false;
}
void vcm_reader_readString(std::string *ret, CppUtilities::BinaryReader &r, std::size_t n)
{
    new (ret) std::string();
    if (n > 0x3fffffffffffffffull) {
        std::__throw_length_error("basic_string::_M_replace_aux");
    }
    if (n > 15) {
        // one allocation with unspecified content (every byte is overwritten or the read fails)
        char *p = static_cast<char *>(::operator new(n + 1));
        ret->_M_dataplus._M_p = p;
        ret->_M_allocated_capacity = n;
        ret->_M_string_length = n;
        p[n] = 0;
    } else {
        ret->_M_string_length = n;
        ret->_M_local_buf[n] = 0;
    }
    vcm_istream_read(*r.m_stream, ret->_M_dataplus._M_p, static_cast<std::streamsize>(n));
}

void vcm_reader_bufferVli(CppUtilities::BinaryReader &r)
{
    const auto first = static_cast<std::uint8_t>(vcm_istream_peek(*r.m_stream));
    unsigned n = 1;
    std::uint8_t mask = 0x80;
    for (; n <= 8 && !(first & mask); ++n, mask >>= 1)
        ;
    if (n > 8) {
        throw CppUtilities::ConversionException();
    }
    for (unsigned i = 0; i != 8; ++i) {
        r.m_buffer[i] = 0;
    }
    vcm_istream_read(*r.m_stream, r.m_buffer + (8 - n), n);
    r.m_buffer[8 - n] ^= static_cast<char>(mask);
}
void vcm_writer_writeVli(CppUtilities::BinaryWriter &w, u64 value, void (*getBytes)(u64, char *))
{
    u64 bound = 0x80;
    unsigned n = 1;
    for (; n != 9; bound <<= 7, ++n) {
        if (value < bound) {
            break;
        }
    }
    if (n == 9) {
        throw CppUtilities::ConversionException();
    }
    getBytes(value | bound, w.m_buffer);
    vcm_ostream_write(*w.m_stream, w.m_buffer + 8 - n, n);
}
void vcm_reader_readTerminatedString(std::string *ret, CppUtilities::BinaryReader &r, std::size_t max, std::uint8_t term)
{
    // reads at most max bytes up to (and consuming) the terminator
    new (ret) std::string();
    for (std::size_t k = 0; k < max; ++k) {
        char c;
        vcm_istream_read(*r.m_stream, &c, 1);
        if (static_cast<std::uint8_t>(c) == term) {
            break;
        }
        ret->push_back(c);
    }
}
void vcm_bitreader_skip(CppUtilities::BitReader &r, std::size_t n)
{
    if (n <= r.m_bitsAvail) {
        r.m_bitsAvail = static_cast<std::uint8_t>(r.m_bitsAvail - n);
    } else {
        n -= r.m_bitsAvail;
        r.m_buffer += 1 + n / 8;
        if (r.m_buffer >= r.m_end) {
            __vc_throw_failure();
        }
        r.m_bitsAvail = static_cast<std::uint8_t>(8 - (n % 8));
    }
}

// ---- red-black tree helpers (binary search tree semantics; no rebalancing)
using Node = std::_Rb_tree_node_base;
Node *vcm_rb_inc(Node *x)
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left)
            x = x->_M_left;
    } else {
        Node *y = x->_M_parent;
        while (x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y)
            x = y;
    }
    return x;
}
Node *vcm_rb_dec(Node *x)
{
    if (x->_M_color == std::_S_red && x->_M_parent->_M_parent == x) {
        x = x->_M_right;
    } else if (x->_M_left) {
        Node *y = x->_M_left;
        while (y->_M_right)
            y = y->_M_right;
        x = y;
    } else {
        Node *y = x->_M_parent;
        while (x == y->_M_left) {
            x = y;
            y = y->_M_parent;
        }
        x = y;
    }
    return x;
}
void vcm_rb_insert(bool left, Node *x, Node *p, Node &header)
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = std::_S_black;
    if (left) {
        p->_M_left = x;
        if (p == &header) {
            header._M_parent = x;
            header._M_right = x;
        } else if (p == header._M_left) {
            header._M_left = x;
        }
    } else {
        p->_M_right = x;
        if (p == header._M_right)
            header._M_right = x;
    }
}
Node *vcm_rb_erase(Node *z, Node &header)
{
    // plain BST deletion, keeping nodes in place
    Node *repl;
    auto link = [&](Node *oldN, Node *newN) {
        if (header._M_parent == oldN)
            header._M_parent = newN;
        else if (oldN->_M_parent->_M_left == oldN)
            oldN->_M_parent->_M_left = newN;
        else
            oldN->_M_parent->_M_right = newN;
        if (newN)
            newN->_M_parent = oldN->_M_parent;
    };
    if (!z->_M_left) {
        repl = z->_M_right;
        link(z, repl);
    } else if (!z->_M_right) {
        repl = z->_M_left;
        link(z, repl);
    } else {
        Node *y = z->_M_right;
        while (y->_M_left)
            y = y->_M_left;
        if (y->_M_parent != z) {
            link(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        link(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (!header._M_parent) {
        header._M_left = header._M_right = &header;
    } else {
        Node *m = header._M_parent;
        while (m->_M_left)
            m = m->_M_left;
        header._M_left = m;
        m = header._M_parent;
        while (m->_M_right)
            m = m->_M_right;
        header._M_right = m;
    }
    return z;
}
void vcm_list_hook(std::__detail::_List_node_base *self, std::__detail::_List_node_base *pos)
{
    self->_M_next = pos;
    self->_M_prev = pos->_M_prev;
    pos->_M_prev->_M_next = self;
    pos->_M_prev = self;
}
void vcm_list_unhook(std::__detail::_List_node_base *self)
{
    self->_M_prev->_M_next = self->_M_next;
    self->_M_next->_M_prev = self->_M_prev;
}
}
