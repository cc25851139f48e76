// Contract language used by the harnesses in /verif/contracts.
// The same file is read twice: by the verifier (symbolically, through clang's LLVM IR) and natively (replay of a counterexample).
#pragma once
#include <cstddef>
#include <cstdint>
#include <iostream>
#include <string>
#include <string_view>
#include <vector>

extern "C" {
std::uint64_t __vc_sym(const char *name, std::uint32_t bits);
void __vc_assume(bool);
void __vc_ensure(bool, const char *label);
void __vc_cover(const char *label);
void __vc_bytes(const char *name, void *p, std::uint64_t n);
void *__vc_buffer(const char *name, std::uint64_t n);
void *__vc_buffer_of(const char *name, std::uint64_t count, std::uint64_t elemSize);
void __vc_replace(const char *pattern, void *fn);
void __vc_opaque(const char *pattern);
bool __vc_symbolic(void);
std::uint64_t __vc_split(std::uint64_t v); // enumerate the values of v (case split)
[[noreturn]] void __vc_finish(void);
[[noreturn]] void __vc_throw_failure(void);
[[noreturn]] void __vc_unsupported(const char *);
void *__vc_havoc(const char *name, std::uint64_t n);
std::iostream *__vc_stream(const char *name, std::uint64_t size, std::uint32_t exceptions);
void __vc_stream_into(std::iostream *s, const char *name, std::uint64_t size, std::uint32_t exceptions);
std::uint8_t __vc_stream_at(std::iostream *, std::uint64_t pos);
std::uint64_t __vc_stream_size(std::iostream *);
std::uint64_t __vc_stream_pos(std::iostream *);
std::uint8_t __vc_arr_at(const char *name, std::uint64_t pos);
}

namespace vc {
template <typename T> inline T any(const char *name)
{
    if constexpr (std::is_same_v<T, bool>) {
        return __vc_sym(name, 1) != 0;
    } else {
        return static_cast<T>(__vc_sym(name, 8 * sizeof(T)));
    }
}
inline void assume(bool c)
{
    __vc_assume(c);
}
inline void ensure(bool c, const char *label)
{
    __vc_ensure(c, label);
}
inline void cover(const char *label)
{
    __vc_cover(label);
}
/// ends the path
[[noreturn]] inline void finish()
{
    __vc_finish();
}
template <typename T> inline T split(T v)
{
    return static_cast<T>(__vc_split(static_cast<std::uint64_t>(v)));
}
/// replaces calls of the function whose demangled name starts with `pattern` by a contract stub while verifying
template <typename F> inline void useContract(const char *pattern, F *stub)
{
    __vc_replace(pattern, reinterpret_cast<void *>(stub));
}
/// treats a string-building function as returning an empty string while verifying (results must not matter)
inline void opaque(const char *pattern)
{
    __vc_opaque(pattern);
}
inline char *bytes(const char *name, void *p, std::size_t n)
{
    __vc_bytes(name, p, n);
    return static_cast<char *>(p);
}
inline char *buffer(const char *name, std::uint64_t n)
{
    return static_cast<char *>(__vc_buffer(name, n));
}
/// a seekable file-like stream with arbitrary content ("name") of the given size
struct Stream {
    explicit Stream(const char *name, std::uint64_t size, bool throwing = true)
        : io(*__vc_stream(name, size, throwing ? 5u : 0u))
        , name(name)
    {
    }
    /// makes an existing stream object such a stream
    explicit Stream(std::iostream &existing, const char *name, std::uint64_t size, bool throwing = true)
        : io(existing)
        , name(name)
    {
        __vc_stream_into(&existing, name, size, throwing ? 5u : 0u);
    }
    std::iostream &io;
    const char *name;
    std::uint8_t at(std::uint64_t p) const
    {
        return __vc_stream_at(&io, p);
    }
    std::uint8_t orig(std::uint64_t p) const
    {
        return __vc_arr_at(name, p);
    }
    std::uint64_t size() const
    {
        return __vc_stream_size(&io);
    }
    std::uint64_t pos() const
    {
        return __vc_stream_pos(&io);
    }
    std::uint64_t be(std::uint64_t p, unsigned n) const
    {
        std::uint64_t r = 0;
        for (unsigned i = 0; i != n; ++i)
            r = (r << 8) | at(p + i);
        return r;
    }
    std::uint64_t le(std::uint64_t p, unsigned n) const
    {
        std::uint64_t r = 0;
        for (unsigned i = n; i != 0; --i)
            r = (r << 8) | at(p + i - 1);
        return r;
    }
};
inline std::uint64_t be(const char *p, unsigned n)
{
    std::uint64_t r = 0;
    for (unsigned i = 0; i != n; ++i)
        r = (r << 8) | static_cast<unsigned char>(p[i]);
    return r;
}
inline std::uint64_t le(const char *p, unsigned n)
{
    std::uint64_t r = 0;
    for (unsigned i = n; i != 0; --i)
        r = (r << 8) | static_cast<unsigned char>(p[i - 1]);
    return r;
}
} // namespace vc

#ifdef VC_NATIVE
struct VcReg {
    VcReg(const char *name, void (*fn)());
};
#define VC_HARNESS(name)                                                                                                                             \
    static void vch_##name();                                                                                                                        \
    static VcReg vcreg_##name(#name, &vch_##name);                                                                                                   \
    static void vch_##name()
#else
#define VC_HARNESS(name) extern "C" void vch_##name()
#endif
