// Native runtime of the contract files: replay of counterexamples and bounded random search against the real code.
#include "vc.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <streambuf>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using u64 = std::uint64_t;

void *operator new(std::size_t n)
{
    if (n > (std::size_t(1) << 28))
        throw std::bad_alloc();
    if (void *p = std::malloc(n ? n : 1))
        return p;
    throw std::bad_alloc();
}
void *operator new[](std::size_t n)
{
    return operator new(n);
}
void operator delete(void *p) noexcept
{
    std::free(p);
}
void operator delete[](void *p) noexcept
{
    std::free(p);
}
void operator delete(void *p, std::size_t) noexcept
{
    std::free(p);
}
void operator delete[](void *p, std::size_t) noexcept
{
    std::free(p);
}

namespace {
struct Finished {
};
struct Skip {
};
struct H {
    const char *name;
    void (*fn)();
};
std::vector<H> &reg()
{
    static std::vector<H> r;
    return r;
}

bool searching = false;
u64 rngState = 1;
u64 rnd()
{
    u64 z = (rngState += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
std::map<std::string, u64> scalars;
std::map<std::string, std::map<u64, u64>> arrays;
std::set<std::string> names;
std::set<std::string> randomArrays;
std::map<std::string, unsigned> arrStyle;
const char *current = "";
std::map<std::string, u64> *record = nullptr;

void inconclusive(const char *why)
{
    std::printf("INCONCLUSIVE %s\n", why);
    std::fflush(stdout);
    _exit(78);
}
std::string uname(const char *n)
{
    std::string r = n;
    for (int k = 2; names.count(r); ++k)
        r = std::string(n) + "#" + std::to_string(k);
    names.insert(r);
    return r;
}
u64 interesting(unsigned bits)
{
    const u64 m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
    switch (rnd() % 8) {
    case 0:
        return rnd() & m;
    case 1:
        return (rnd() % 40) & m;
    case 2:
        return (m - rnd() % 3) & m;
    case 3:
        return ((1ull << (rnd() % bits)) + (rnd() % 3) - 1) & m;
    case 4:
        return (rnd() % 300) & m;
    case 5:
        return (rnd() & rnd() & m);
    case 6:
        return (rnd() >> (rnd() % 64)) & m;
    default:
        return (rnd() % 8) & m;
    }
}
u64 arrGet(const std::string &n, u64 i)
{
    auto &a = arrays[n];
    const auto f = a.find(i);
    if (f != a.end())
        return f->second;
    if (!searching)
        return 0;
    auto s = arrStyle.find(n);
    if (s == arrStyle.end())
        s = arrStyle.emplace(n, static_cast<unsigned>(rnd() % 5)).first;
    static const char magic[] = "\0\x01\xff\x80\x7f =;:/\\09azAZ\x1f\xfe\x20\x40";
    u64 v;
    switch (s->second) {
    case 0:
        v = rnd() & 0xff;
        break;
    case 1:
        v = rnd() % 4 ? static_cast<unsigned char>(magic[rnd() % (sizeof(magic) - 1)]) : rnd() & 0xff;
        break;
    case 2:
        v = rnd() % 3 ? 0 : rnd() & 0xff;
        break;
    case 3:
        v = rnd() % 3 ? 0x20 + rnd() % 95 : rnd() & 0xff;
        break;
    default:
        v = rnd() % 3 ? rnd() % 8 : rnd() & 0xff;
    }
    a[i] = v;
    return v;
}

struct SparseBuf : std::streambuf {
    explicit SparseBuf(std::string n, u64 size)
        : name(std::move(n))
        , size(size)
    {
    }
    std::string name;
    std::map<u64, unsigned char> over;
    u64 size, pos = 0;
    unsigned char at(u64 p)
    {
        const auto f = over.find(p);
        return f != over.end() ? f->second : static_cast<unsigned char>(arrGet(name, p));
    }
    int_type underflow() override
    {
        return pos < size ? at(pos) : traits_type::eof();
    }
    int_type uflow() override
    {
        return pos < size ? at(pos++) : traits_type::eof();
    }
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        std::streamsize r = 0;
        if (n > (1 << 26))
            if (pos < size && size - pos > (1 << 26))
                inconclusive("large read");
        while (r < n && pos < size)
            s[r++] = static_cast<char>(at(pos++));
        return r;
    }
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof()))
            return 0;
        over[pos++] = static_cast<unsigned char>(c);
        if (pos > size)
            size = pos;
        return c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        for (std::streamsize i = 0; i < n; ++i)
            overflow(static_cast<unsigned char>(s[i]));
        return n;
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        const u64 base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? pos : size;
        const u64 t = base + static_cast<u64>(off);
        if (static_cast<std::int64_t>(t) < 0)
            return pos_type(off_type(-1));
        pos = t;
        return pos_type(static_cast<off_type>(pos));
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override
    {
        return seekoff(off_type(p), std::ios_base::beg, m);
    }
};
struct NStream : std::iostream {
    explicit NStream(std::string n, u64 size)
        : std::iostream(nullptr)
        , buf(std::move(n), size)
    {
        rdbuf(&buf);
    }
    SparseBuf buf;
};
} // namespace

VcReg::VcReg(const char *name, void (*fn)())
{
    reg().push_back({ name, fn });
}

extern "C" {
u64 __vc_sym(const char *name, std::uint32_t bits)
{
    const auto n = uname(name);
    const auto f = scalars.find(n);
    if (f != scalars.end())
        return f->second;
    u64 v = searching ? interesting(bits) : 0;
    scalars[n] = v;
    return v;
}
void __vc_assume(bool c)
{
    if (!c)
        throw Skip();
}
void __vc_ensure(bool c, const char *label)
{
    if (c)
        return;
    std::printf("FAILED %s\n", label);
    for (auto &s : scalars)
        std::printf("  u %s %llu\n", s.first.c_str(), static_cast<unsigned long long>(s.second));
    for (auto &a : arrays) {
        std::printf("  b %s", a.first.c_str());
        for (auto &e : a.second)
            if (e.second)
                std::printf(" %llu:%llu", static_cast<unsigned long long>(e.first), static_cast<unsigned long long>(e.second));
        std::printf("\n");
    }
    std::fflush(stdout);
    _exit(1);
}
void __vc_cover(const char *)
{
}
void __vc_finish()
{
    throw Finished();
}
void __vc_bytes(const char *name, void *p, u64 n)
{
    const auto u = uname(name);
    if (n > (1u << 26))
        inconclusive("large buffer");
    for (u64 i = 0; i < n; ++i)
        static_cast<unsigned char *>(p)[i] = static_cast<unsigned char>(arrGet(u, i));
}
void *__vc_buffer(const char *name, u64 n)
{
    if (n > (1u << 26))
        inconclusive("large buffer");
    void *p = std::malloc(n ? n : 1); // intentionally never freed; exact bounds matter
    const auto u = uname(name);
    for (u64 i = 0; i < n; ++i)
        static_cast<unsigned char *>(p)[i] = static_cast<unsigned char>(arrGet(u, i));
    return p;
}
void *__vc_buffer_of(const char *name, u64 count, u64 w)
{
    if (count > (1u << 22))
        inconclusive("large buffer");
    char *p = static_cast<char *>(std::malloc(count * w ? count * w : 1));
    const auto u = uname(name);
    for (u64 i = 0; i < count; ++i) {
        auto &a = arrays[u];
        const auto f = a.find(i);
        u64 v = f != a.end() ? f->second : (searching ? (a[i] = interesting(static_cast<unsigned>(8 * w))) : 0);
        std::memcpy(p + i * w, &v, w);
    }
    return p;
}
void __vc_replace(const char *, void *)
{
}
void __vc_opaque(const char *)
{
}
bool __vc_symbolic(void)
{
    return false;
}
u64 __vc_split(u64 v)
{
    return v;
}
void __vc_throw_failure(void)
{
    throw std::ios_base::failure("vc");
}
void __vc_unsupported(const char *w)
{
    inconclusive(w);
    _exit(78);
}
std::iostream *__vc_stream(const char *name, u64 size, std::uint32_t exceptions)
{
    auto *s = new NStream(uname(name), size);
    s->exceptions(static_cast<std::ios_base::iostate>(exceptions));
    return s;
}
void __vc_stream_into(std::iostream *s, const char *name, u64 size, std::uint32_t exceptions)
{
    s->exceptions(std::ios_base::goodbit);
    static_cast<std::ios *>(s)->rdbuf(new SparseBuf(uname(name), size));
    s->clear();
    s->exceptions(static_cast<std::ios_base::iostate>(exceptions));
}
static SparseBuf &bufOf(std::iostream *s)
{
    return *static_cast<SparseBuf *>(static_cast<std::ios *>(s)->rdbuf());
}
std::uint8_t __vc_stream_at(std::iostream *s, u64 pos)
{
    return bufOf(s).at(pos);
}
u64 __vc_stream_size(std::iostream *s)
{
    return bufOf(s).size;
}
u64 __vc_stream_pos(std::iostream *s)
{
    return bufOf(s).pos;
}
std::uint8_t __vc_arr_at(const char *name, u64 pos)
{
    return static_cast<std::uint8_t>(arrGet(name, pos));
}
}

static void reset()
{
    scalars.clear();
    arrays.clear();
    names.clear();
    arrStyle.clear();
}

// 0: fine, 2: skipped
static int runOne(const H &h)
{
    names.clear();
    try {
        h.fn();
    } catch (const Skip &) {
        return 2;
    } catch (const Finished &) {
        return 0;
    } catch (const std::bad_alloc &) {
        inconclusive("large allocation");
    } catch (const std::exception &e) {
        std::printf("FAILED no unexpected exception (%s)\n", e.what());
        std::fflush(stdout);
        _exit(1);
    } catch (...) {
        std::printf("FAILED no unexpected exception\n");
        std::fflush(stdout);
        _exit(1);
    }
    return 0;
}

static const H *find(const std::string &n)
{
    for (auto &h : reg())
        if (n == h.name)
            return &h;
    return nullptr;
}

int main(int argc, char **argv)
{
    std::signal(SIGALRM, [](int) {
        (void)!write(1, "INCONCLUSIVE time limit\n", 24);
        _exit(78);
    });
    if (argc >= 3 && !std::strcmp(argv[1], "replay")) {
        std::ifstream f(argv[2]);
        std::string line, harness;
        u64 seed = 0;
        while (std::getline(f, line)) {
            std::istringstream l(line);
            std::string k, n;
            l >> k;
            if (k == "harness") {
                l >> harness;
            } else if (k == "seed") {
                l >> seed;
                searching = true;
                rngState = seed;
            } else if (k == "u") {
                u64 v;
                l >> n >> v;
                scalars[n] = v;
            } else if (k == "b") {
                l >> n;
                u64 i, v;
                char c;
                while (l >> i >> c >> v)
                    arrays[n][i] = v;
            }
        }
        const H *h = find(harness);
        if (!h) {
            std::printf("INCONCLUSIVE unknown harness\n");
            return 78;
        }
        alarm(30);
        const int r = runOne(*h);
        std::printf(r ? "SKIPPED\n" : "PASSED\n");
        return r ? 77 : 0;
    }
    if (argc >= 5 && !std::strcmp(argv[1], "search")) {
        const H *h = find(argv[2]);
        if (!h)
            return 78;
        struct Sh {
            volatile u64 seed, runs, ok;
        };
        Sh *sh = static_cast<Sh *>(mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        const u64 base = std::strtoull(argv[3], nullptr, 10) * 1000003ull;
        const unsigned secs = static_cast<unsigned>(std::atoi(argv[4]));
        const time_t end = time(nullptr) + secs;
        sh->seed = base;
        searching = true;
        while (time(nullptr) < end) {
            std::fflush(stdout);
            const pid_t pid = fork();
            if (!pid) {
                while (time(nullptr) < end) {
                    ++sh->seed;
                    reset();
                    rngState = sh->seed;
                    alarm(10);
                    if (!runOne(*h))
                        ++sh->ok;
                    ++sh->runs;
                }
                _exit(0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
                break;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 78)
                continue;
            std::printf("FOUND seed %llu status %d\n", static_cast<unsigned long long>(sh->seed), st);
            return 1;
        }
        std::printf("SEARCHED runs %llu within-precondition %llu\n", static_cast<unsigned long long>(sh->runs), static_cast<unsigned long long>(sh->ok));
        return 0;
    }
    for (auto &h : reg())
        std::printf("%s\n", h.name);
    return 0;
}
