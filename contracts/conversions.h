// contracts of c++utilities' character set conversions: record what is converted and return a fixed text
#pragma once
#include "common.h"
#include "tagvalue.h"
#include <c++utilities/conversion/stringconversion.h>
#include <cstdlib>
#include <cstring>

namespace {
unsigned conversions;
TagTextEncoding from, to;
const char *input;
std::size_t inputSize;
TagTextEncoding byName(const char *n)
{
    return !std::strcmp(n, "ISO-8859-1") ? TagTextEncoding::Latin1
        : !std::strcmp(n, "UTF-8")       ? TagTextEncoding::Utf8
        : !std::strcmp(n, "UTF-16LE")    ? TagTextEncoding::Utf16LittleEndian
        : !std::strcmp(n, "UTF-16BE")    ? TagTextEncoding::Utf16BigEndian
                                         : TagTextEncoding::Unspecified;
}
CppUtilities::StringData convert(TagTextEncoding f, TagTextEncoding t, const char *in, std::size_t n)
{
    ++conversions;
    from = f;
    to = t;
    input = in;
    inputSize = n;
    CppUtilities::StringData res;
    char *p = static_cast<char *>(std::malloc(2));
    p[0] = 'X';
    p[1] = 'Y';
    res.first.reset(p);
    res.second = 2;
    return res;
}
CppUtilities::StringData any(const char *f, const char *t, const char *in, std::size_t n, float)
{
    return convert(byName(f), byName(t), in, n);
}
template <TagTextEncoding f, TagTextEncoding t> CppUtilities::StringData fixed(const char *in, std::size_t n)
{
    return convert(f, t, in, n);
}
constexpr auto L1 = TagTextEncoding::Latin1, U8 = TagTextEncoding::Utf8, LE16 = TagTextEncoding::Utf16LittleEndian, BE16 = TagTextEncoding::Utf16BigEndian;
void useConversions()
{
    vc::useContract("CppUtilities::convertString(", &any);
    vc::useContract("CppUtilities::convertUtf8ToUtf16LE(", &fixed<U8, LE16>);
    vc::useContract("CppUtilities::convertUtf16LEToUtf8(", &fixed<LE16, U8>);
    vc::useContract("CppUtilities::convertUtf8ToUtf16BE(", &fixed<U8, BE16>);
    vc::useContract("CppUtilities::convertUtf16BEToUtf8(", &fixed<BE16, U8>);
    vc::useContract("CppUtilities::convertLatin1ToUtf8(", &fixed<L1, U8>);
    vc::useContract("CppUtilities::convertUtf8ToLatin1(", &fixed<U8, L1>);
}
} // namespace
