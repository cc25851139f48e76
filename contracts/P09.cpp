// TagValue: holding, copying, converting and comparing values
#include "common.h"
#include "conversions.h"
#include "id3/id3genres.h"
#include "positioninset.h"
#include "tagvalue.h"
#include <c++utilities/conversion/conversionexception.h>
#include <c++utilities/conversion/stringconversion.h>
using CppUtilities::ConversionException;

// calls f and returns whether it has succeeded; only a ConversionException is a permitted failure
template <typename F> static bool converts(F &&f)
{
    try {
        f();
        return true;
    } catch (const ConversionException &) {
        return false;
    }
}

VC_HARNESS(integer)
{
    const auto v = vc::any<std::int32_t>("v");
    TagValue a(v), b;
    b.assignInteger(v);
    vc::ensure(a.type() == TagDataType::Integer && b.type() == TagDataType::Integer && !b.isEmpty(), "type");
    vc::ensure(a.toInteger() == v && b.toInteger() == v, "integer is returned unchanged");
    u64 u = 0;
    vc::ensure(converts([&] { u = b.toUnsignedInteger(); }) == (v >= 0) && (v < 0 || u == static_cast<u64>(v)), "negative integers are not converted to unsigned ones");
    const auto p = b.toPositionInSet();
    vc::ensure(p.position() == v && p.total() == 0, "position");
    int g = 0;
    vc::ensure(converts([&] { g = b.toStandardGenreIndex(); }) == ((v >= 0 && v < 192) || v == 255) && (v < 0 || v >= 192 || g == v), "only valid genre indexes are converted");
    vc::ensure(b.toTimeSpan().totalTicks() == v, "time span");
    vc::cover("integer");
    vc::finish();
}
VC_HARNESS(unsigned_integer)
{
    const auto v = vc::any<u64>("v");
    TagValue a(v), b;
    b.assignUnsignedInteger(v);
    vc::ensure(a.type() == TagDataType::UnsignedInteger && b.type() == TagDataType::UnsignedInteger, "type");
    vc::ensure(a.toUnsignedInteger() == v && b.toUnsignedInteger() == v, "integer is returned unchanged");
    std::int32_t i = 0;
    vc::ensure(converts([&] { i = b.toInteger(); }) == (v <= 0x7FFFFFFF) && (v > 0x7FFFFFFF || static_cast<u64>(i) == v), "too big integers are not converted");
    PositionInSet p;
    const bool ok = converts([&] { p = b.toPositionInSet(); });
    vc::ensure(ok ? static_cast<u64>(p.position()) == v && p.total() == 0 : v >= 0x7FFFFFFF, "too big positions are not converted");
    int g = 0;
    vc::ensure(converts([&] { g = b.toStandardGenreIndex(); }) == (v < 192 || v == 255) && (v >= 192 || static_cast<u64>(g) == v), "only valid genre indexes are converted");
    CppUtilities::TimeSpan t;
    const bool tok = converts([&] { t = b.toTimeSpan(); });
    vc::ensure(tok ? static_cast<u64>(t.totalTicks()) == v : v >= 0x7FFFFFFFFFFFFFFF, "too big time spans are not converted");
    vc::ensure(b.toDateTime().totalTicks() == v, "date");
    vc::cover("integer");
    vc::finish();
}
VC_HARNESS(position)
{
    const auto pos = vc::any<std::int32_t>("pos"), total = vc::any<std::int32_t>("total");
    const PositionInSet p(pos, total);
    TagValue a(p), b;
    b.assignPosition(p);
    vc::ensure(a.type() == TagDataType::PositionInSet && b.type() == TagDataType::PositionInSet, "type");
    vc::ensure(a.toPositionInSet() == p && b.toPositionInSet() == p && p.position() == pos && p.total() == total, "position is returned unchanged");
    vc::ensure(b.isEmpty() == (pos == 0 && total == 0) && p.isNull() == b.isEmpty(), "only null position is empty");
    vc::ensure(b.toInteger() == pos, "integer");
    u64 u = 0;
    vc::ensure(converts([&] { u = b.toUnsignedInteger(); }) == (pos >= 0) && (pos < 0 || u == static_cast<u64>(pos)), "negative position is not converted");
    const auto pos2 = vc::any<std::int32_t>("pos2"), total2 = vc::any<std::int32_t>("total2");
    const PositionInSet p2(pos2, total2);
    const TagValue c(p2);
    vc::ensure((a == c) == (pos == pos2 && total == total2) && (c == a) == (a == c) && (a != c) == !(a == c), "equal exactly if position and total are");
    vc::cover("position");
    vc::finish();
}
VC_HARNESS(times)
{
    const auto ticks = vc::any<std::int64_t>("ticks");
    const auto ticks2 = vc::any<u64>("ticks2");
    const CppUtilities::TimeSpan t(ticks);
    const CppUtilities::DateTime d(ticks2);
    TagValue a(t), b, c(d), e;
    b.assignTimeSpan(t);
    e.assignDateTime(d);
    vc::ensure(a.type() == TagDataType::TimeSpan && b.type() == TagDataType::TimeSpan && a.toTimeSpan() == t && b.toTimeSpan().totalTicks() == ticks, "time span is returned unchanged");
    vc::ensure(c.type() == TagDataType::DateTime && e.type() == TagDataType::DateTime && c.toDateTime() == d && e.toDateTime().totalTicks() == ticks2, "date is returned unchanged");
    vc::ensure(!converts([&] { a.toInteger(); }) && !converts([&] { c.toInteger(); }) && !converts([&] { a.toPositionInSet(); }) && !converts([&] { c.toTimeSpan(); }) && !converts([&] { a.toDateTime(); }), "unrelated types are not converted");
    const CppUtilities::DateTimeExpression x{ .value = d, .delta = t, .parts = static_cast<CppUtilities::DateTimeParts>(vc::any<u64>("parts")) };
    TagValue f(x), g;
    g.assignDateTimeExpression(x);
    vc::ensure(f.type() == TagDataType::DateTimeExpression && f.toDateTimeExpression() == x && g.toDateTimeExpression() == x, "expression is returned unchanged");
    vc::cover("times");
    vc::finish();
}
VC_HARNESS(genre)
{
    const auto v = vc::any<std::int32_t>("v");
    TagValue a;
    a.assignStandardGenreIndex(v);
    vc::ensure(a.type() == TagDataType::StandardGenreIndex && a.toInteger() == v, "genre index is returned unchanged");
    int g = 0;
    vc::ensure(converts([&] { g = a.toStandardGenreIndex(); }) == ((v >= 0 && v < 192) || v == 255), "only valid genre indexes are converted");
    vc::ensure(((v < 0 || v >= 192) && v != 255) || g == v, "valid genre indexes are returned");
    vc::ensure(TagValue().toStandardGenreIndex() == 255, "no genre");
    vc::cover("genre");
    vc::finish();
}
VC_HARNESS(genre_names)
{
    // each name denotes its own index; there is no name for other indexes
    for (int i = 0; i != Id3Genres::genreCount(); ++i)
        vc::ensure(Id3Genres::indexFromString(Id3Genres::stringFromIndex(i)) == i, "name and index denote each other");
    const auto v = vc::any<std::int32_t>("v");
    vc::assume(v < 0 || v >= 192);
    vc::ensure(Id3Genres::stringFromIndex(v).empty() && !Id3Genres::isIndexSupported(v), "unsupported indexes have no name");
    vc::cover("names");
    vc::finish();
}
// values of unexpected size are rejected instead of being read out of bounds
VC_HARNESS(sizes)
{
    auto size = vc::any<u8>("size"), type = vc::any<u8>("type");
    vc::assume(size <= 9 && type >= 1 && type <= 11 && type != static_cast<u8>(TagDataType::Popularity));
    size = vc::split(size);
    type = vc::split(type);
    char data[9];
    vc::bytes("data", data, 9);
    const TagValue v(data, size, static_cast<TagDataType>(type));
    const auto t = static_cast<TagDataType>(type);
    const bool none = size == 0, binary = t == TagDataType::Picture || t == TagDataType::Binary || t == TagDataType::Undefined;
    if (binary && !none) {
        vc::ensure(!converts([&] { v.toInteger(); }) && !converts([&] { v.toUnsignedInteger(); }) && !converts([&] { v.toPositionInSet(); }) && !converts([&] { v.toStandardGenreIndex(); })
                && !converts([&] { v.toTimeSpan(); }) && !converts([&] { v.toDateTime(); }) && !converts([&] { v.toDateTimeExpression(); }) && !converts([&] { v.toString(); }),
            "binary data is not converted");
        vc::cover("binary");
    }
    std::int32_t i = 0;
    if (converts([&] { i = v.toInteger(); }) && !none) {
        vc::ensure(t == TagDataType::UnsignedInteger ? size == 8 : t == TagDataType::PositionInSet ? size == 8 : size == 4, "size of integer");
        vc::ensure(static_cast<u32>(i) == vc::le(data, 4), "integer is the stored one");
    }
    PositionInSet p;
    if (converts([&] { p = v.toPositionInSet(); }) && !none) {
        vc::ensure(size == 4 || size == 8, "size of position");
        vc::ensure(static_cast<u32>(p.position()) == vc::le(data, 4) && (t == TagDataType::UnsignedInteger || p.total() == (size == 4 ? 0 : static_cast<std::int32_t>(vc::le(data + 4, 4)))), "position is the stored one");
    }
    u64 u = 0;
    if (converts([&] { u = v.toUnsignedInteger(); }) && !none)
        vc::ensure(u == vc::le(data, t == TagDataType::UnsignedInteger ? 8 : 4), "unsigned integer is the stored one");
    CppUtilities::DateTime d;
    if (converts([&] { d = v.toDateTime(); }) && !none)
        vc::ensure(d.totalTicks() == vc::le(data, size == 4 ? 4 : 8) && (size == 4 || size == 8), "date is the stored one");
    CppUtilities::TimeSpan s;
    if (converts([&] { s = v.toTimeSpan(); }) && !none)
        vc::ensure(size == 4 ? s.totalTicks() == static_cast<std::int32_t>(vc::le(data, 4)) : size == 8 && static_cast<u64>(s.totalTicks()) == vc::le(data, 8), "time span is the stored one");
    if (none)
        vc::ensure(v.isEmpty() && v.toInteger() == 0 && v.toPositionInSet().isNull() && v.toUnsignedInteger() == 0, "empty value is zero");
    vc::cover("sizes");
    vc::finish();
}

// texts of any size: stored as is except for the byte-order mark
VC_HARNESS(text)
{
    const auto size = vc::any<u64>("size"), i = vc::any<u64>("i");
    const auto enc = static_cast<TagTextEncoding>(vc::any<u8>("enc"));
    const auto how = vc::any<u8>("how");
    vc::assume(size < 0x80000000 && static_cast<u8>(enc) <= static_cast<u8>(TagTextEncoding::Unspecified) && how < 3);
    const char *t = vc::buffer("text", size + 3);
    TagValue v;
    if (how == 0)
        v = TagValue(t, size, TagDataType::Text, enc);
    else if (how == 1)
        v.assignText(t, size, enc);
    else
        v.assignData(t, size, TagDataType::Text, enc);
    u64 bom = 0;
    if (enc == TagTextEncoding::Utf8 && size >= 3 && vc::be(t, 3) == 0xEFBBBF)
        bom = 3;
    else if (enc == TagTextEncoding::Utf16LittleEndian && size >= 2 && vc::be(t, 2) == 0xFFFE)
        bom = 2;
    else if (enc == TagTextEncoding::Utf16BigEndian && size >= 2 && vc::be(t, 2) == 0xFEFF)
        bom = 2;
    vc::ensure(v.type() == TagDataType::Text && v.dataEncoding() == enc, "type and encoding");
    vc::ensure(v.dataSize() == size - bom && v.isEmpty() == (size == bom), "only the byte-order mark is removed");
    const auto s = v.toString();
    vc::ensure(s.size() == size - bom, "size of string");
    vc::assume(i < size - bom);
    vc::ensure(v.dataPointer()[i] == t[i + bom] && s[i] == t[i + bom], "text is returned unchanged");
    vc::cover("text");
    vc::finish();
}

// copies are equal to the original and independent of it
static TagValue sample(const char *data, u64 size)
{
    const auto type = vc::any<u8>("type");
    vc::assume(type <= 11 && type != static_cast<u8>(TagDataType::Text));
    TagValue v(data, size, static_cast<TagDataType>(type), static_cast<TagTextEncoding>(vc::any<u8>("enc")));
    v.setDescription(std::string_view("desc"), static_cast<TagTextEncoding>(vc::any<u8>("descEnc")));
    v.setMimeType("mime/type");
    v.setFlags(static_cast<TagValueFlags>(vc::any<u64>("flags")));
    v.setLocale(Locale(std::string("ger"), LocaleFormat::ISO_639_2_B));
    return v;
}
static void checkSame(const TagValue &a, const TagValue &b, u64 i)
{
    vc::ensure(a.type() == b.type() && a.dataEncoding() == b.dataEncoding() && a.descriptionEncoding() == b.descriptionEncoding() && a.flags() == b.flags(), "type, encodings and flags are copied");
    vc::ensure(a.description() == b.description() && a.mimeType() == b.mimeType() && a.locale().size() == b.locale().size(), "description, MIME-type and locale are copied");
    vc::ensure(a.dataSize() == b.dataSize() && a.isEmpty() == b.isEmpty(), "size is copied");
    vc::ensure(i >= a.dataSize() || a.dataPointer()[i] == b.dataPointer()[i], "data is copied");
}
static void copying(int how)
{
    const auto size = vc::any<u64>("size"), i = vc::any<u64>("i"), size2 = vc::any<u64>("size2");
    vc::assume(size < 0x80000000 && i <= size && size2 < 0x80000000);
    const char *data = vc::buffer("data", size), *data2 = vc::buffer("data2", size2);
    TagValue a = sample(data, size);
    vc::ensure(a.dataSize() == size && (i == size || a.dataPointer()[i] == data[i]), "data is held");
    TagValue b(data2, size2, TagDataType::Binary);
    if (how == 0) {
        const TagValue c(a);
        checkSame(a, c, i);
        vc::ensure(!size || a.dataPointer() != c.dataPointer(), "copies do not share data");
    } else if (how == 1) {
        b = a;
        checkSame(a, b, i);
        vc::ensure(!size || a.dataPointer() != b.dataPointer(), "copies do not share data");
    } else {
        TagValue c(a);
        b = std::move(c);
        checkSame(a, b, i);
        c.assignData(data2, size2);
        vc::ensure(c.dataSize() == size2, "moved-from values can be used again");
        checkSame(a, b, i);
    }
    vc::cover("copied");
    vc::finish();
}
VC_HARNESS(copy_construct)
{
    copying(0);
}
VC_HARNESS(copy_assign)
{
    copying(1);
}
VC_HARNESS(move)
{
    copying(2);
}
// assigning data repeatedly (the buffer is reused)
VC_HARNESS(reassign)
{
    const auto s1 = vc::any<u64>("s1"), s2 = vc::any<u64>("s2"), s3 = vc::any<u64>("s3"), i = vc::any<u64>("i");
    vc::assume(s1 < 0x80000000 && s2 < 0x80000000 && s3 < 0x80000000);
    TagValue v;
    const char *d1 = vc::buffer("d1", s1), *d2 = vc::buffer("d2", s2), *d3 = vc::buffer("d3", s3);
    v.assignData(d1, s1);
    v.assignData(d2, s2, TagDataType::Picture);
    v.assignData(d3, s3);
    vc::ensure(v.dataSize() == s3 && v.type() == TagDataType::Binary && v.isEmpty() == (s3 == 0), "size");
    vc::assume(i < s3);
    vc::ensure(v.dataPointer()[i] == d3[i], "last assigned data is held");
    vc::cover("reassigned");
    vc::finish();
}

// comparision of data
static void compare(unsigned n)
{
    char a[4] = {}, b[4] = {};
    vc::bytes("a", a, n);
    vc::bytes("b", b, n);
    const auto fold = [](char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; };
    bool same = true, sameCi = true, ascii = true;
    for (unsigned i = 0; i != n; ++i) {
        same &= a[i] == b[i];
        sameCi &= fold(a[i]) == fold(b[i]);
        ascii &= !((a[i] | b[i]) & 0x80);
    }
    vc::ensure(TagValue::compareData(a, n, b, n) == same, "equal exactly if all bytes are");
    vc::ensure(!ascii || TagValue::compareData(a, n, b, n, true) == sameCi, "case is ignored if requested");
    vc::ensure(!TagValue::compareData(a, n, b, n + 1) && !TagValue::compareData(a, n + 1, b, n, true), "different sizes are never equal");
    const TagValue x(a, n, TagDataType::Text, TagTextEncoding::Latin1), y(b, n, TagDataType::Text, TagTextEncoding::Latin1), z(a, n, TagDataType::Binary), w(b, n, TagDataType::Binary);
    vc::ensure((x == y) == same && (y == x) == same && (x != y) == !same, "texts are equal exactly if all bytes are");
    vc::ensure((z == w) == same && (w == z) == same, "binary data is equal exactly if all bytes are");
    vc::ensure(!(x == z) && !(z == x), "text and binary data are never equal");
    vc::ensure(!ascii || x.compareTo(y, TagValueComparisionFlags::CaseInsensitive) == sameCi, "texts are compared ignoring the case if requested");
    vc::cover("compared");
    vc::finish();
}
VC_HARNESS(compare_0)
{
    compare(0);
}
VC_HARNESS(compare_1)
{
    compare(1);
}
VC_HARNESS(compare_2)
{
    compare(2);
}
VC_HARNESS(compare_numbers)
{
    const auto i = vc::any<std::int32_t>("i"), j = vc::any<std::int32_t>("j");
    const auto u = vc::any<u64>("u"), w = vc::any<u64>("w");
    const TagValue a(i), b(j), c(u), d(w), empty;
    vc::ensure((a == b) == (i == j) && (c == d) == (u == w), "integers are equal exactly if their values are");
    vc::ensure((a == c) == (i >= 0 && static_cast<u64>(i) == u) && (c == a) == (a == c), "type of integer does not matter");
    vc::ensure(!(a == empty) && !(empty == a) && empty == TagValue(), "empty values only equal empty ones");
    vc::cover("compared");
    vc::finish();
}
VC_HARNESS(compare_meta)
{
    const auto f1 = vc::any<u64>("f1"), f2 = vc::any<u64>("f2");
    char m1[2], m2[2], d1[2], d2[2];
    vc::bytes("m1", m1, 2);
    vc::bytes("m2", m2, 2);
    vc::bytes("d1", d1, 2);
    vc::bytes("d2", d2, 2);
    TagValue a(5), b(5);
    a.setFlags(static_cast<TagValueFlags>(f1));
    b.setFlags(static_cast<TagValueFlags>(f2));
    a.setMimeType(std::string_view(m1, 2));
    b.setMimeType(std::string_view(m2, 2));
    a.setDescription(std::string_view(d1, 2));
    b.setDescription(std::string_view(d2, 2));
    const bool same = f1 == f2 && vc::be(m1, 2) == vc::be(m2, 2) && vc::be(d1, 2) == vc::be(d2, 2);
    vc::ensure((a == b) == same, "flags, MIME-type and description are compared");
    vc::ensure(a.compareTo(b, TagValueComparisionFlags::IgnoreMetaData), "unless ignored");
    vc::cover("compared");
    vc::finish();
}

// character set conversions: exactly one, from the present to the requested encoding
static void conversion(int how)
{
    useConversions();
    auto f = vc::any<TagTextEncoding>("from"), t = vc::any<TagTextEncoding>("to");
    vc::assume(f < TagTextEncoding::Unspecified && t < TagTextEncoding::Unspecified);
    f = vc::split(f);
    t = vc::split(t);
    if (!__vc_symbolic() && f != t)
        vc::finish(); // native conversions are done by iconv
    char text[2];
    vc::bytes("text", text, 2);
    vc::assume(vc::be(text, 2) != 0xFEFF && vc::be(text, 2) != 0xFFFE);
    conversions = 0;
    TagValue v;
    std::string s;
    const char *in = text;
    switch (how) {
    case 0:
        v.assignText(text, 2, f, t);
        s.assign(v.dataPointer(), v.dataSize());
        vc::ensure(v.dataEncoding() == t, "encoding of the value is the requested one");
        break;
    case 1:
        v.assignText(text, 2, f);
        in = v.dataPointer();
        s = v.toString(t);
        vc::ensure(v.dataEncoding() == f && v.dataSize() == 2 && v.dataPointer()[0] == text[0] && v.dataPointer()[1] == text[1], "value is not changed");
        break;
    case 2:
        v.assignText(text, 2, f);
        v.convertDataEncoding(t);
        in = nullptr;
        s.assign(v.dataPointer(), v.dataSize());
        vc::ensure(v.dataEncoding() == t, "encoding of the value is the requested one");
        break;
    case 3:
        v.setDescription(std::string_view(text, 2), f);
        v.convertDescriptionEncoding(t);
        in = nullptr;
        s = v.description();
        vc::ensure(v.descriptionEncoding() == t, "encoding of the description is the requested one");
        break;
    }
    vc::ensure(s.size() == 2, "size of converted text");
    if (f == t) {
        vc::ensure(!conversions && s[0] == text[0] && s[1] == text[1], "no conversion if encodings are the same");
        vc::cover("same");
    } else {
        vc::ensure(conversions == 1 && from == f && to == t && (!in || input == in) && inputSize == 2, "converted once from the present to the requested encoding");
        vc::ensure(s[0] == 'X' && s[1] == 'Y', "result of the conversion is used");
        vc::cover("converted");
    }
    vc::finish();
}
VC_HARNESS(convert_assign)
{
    conversion(0);
}
VC_HARNESS(convert_to_string)
{
    conversion(1);
}
VC_HARNESS(convert_data)
{
    conversion(2);
}
VC_HARNESS(convert_description)
{
    conversion(3);
}

// popularities are stored and returned unchanged
VC_HARNESS(popularity)
{
    const auto size = vc::any<u64>("size"), i = vc::any<u64>("i"), counter = vc::any<u64>("counter");
    const auto rating = vc::any<std::int32_t>("rating");
    const auto scale = vc::any<u8>("scale");
    vc::assume(size > 15 && size < 0x1000000);
    const char *user = vc::buffer("user", size + 8);
    Popularity p;
    p.user = std::string(user, size);
    p.rating = static_cast<double>(rating) / 4;
    p.playCounter = counter;
    p.scale = static_cast<TagType>(scale);
    TagValue v(p);
    vc::ensure(v.type() == TagDataType::Popularity && !v.isEmpty(), "type");
    const auto r = v.toPopularity();
    vc::ensure(r.rating == p.rating && r.playCounter == counter && r.scale == p.scale && r.user.size() == size, "popularity is returned unchanged");
    vc::ensure(i >= size || r.user[i] == user[i], "user is returned unchanged");
    vc::cover("returned");
    vc::finish();
}
VC_HARNESS(popularity_number)
{
    const auto rating = vc::any<std::int32_t>("rating");
    const auto number = vc::any<u32>("number");
    const auto p = TagValue(rating).toPopularity();
    vc::ensure(p.rating == rating && p.playCounter == 0 && p.user.empty(), "numbers are ratings");
    const auto q = TagValue(static_cast<u64>(number)).toPopularity();
    vc::ensure(q.rating == number && q.playCounter == 0 && q.user.empty(), "numbers are ratings");
    vc::cover("number");
    vc::finish();
}
// ratings are converted between the scales of the formats
VC_HARNESS(popularity_scale)
{
    const auto step = vc::any<u8>("step"), f = vc::any<u8>("from"), t = vc::any<u8>("to");
    vc::assume(step <= 16 && f < 5 && t < 5);
    const auto grade = vc::split(step), fromScale = vc::split(f), toScale = vc::split(t);
    static constexpr TagType scales[] = { TagType::Id3v2Tag, TagType::VorbisComment, TagType::OggVorbisComment, TagType::MatroskaTag, TagType::Unspecified };
    const double generic = 1.0 + grade / 4.0;
    const double expected[] = { 1.0 + (generic - 1.0) * 254.0 / 4.0, generic * 20.0, generic * 20.0, (generic - 1.0) * 5.0 / 4.0, generic };
    Popularity p;
    p.rating = expected[fromScale];
    p.scale = scales[fromScale];
    p.user = "x";
    p.playCounter = 42;
    vc::ensure(p.scaleTo(scales[toScale]) && p.scale == scales[toScale], "scale is changed");
    vc::ensure(p.rating - expected[toScale] < 1e-9 && expected[toScale] - p.rating < 1e-9, "rating is converted to the new scale");
    vc::ensure(p.user == "x" && p.playCounter == 42, "everything else is kept");
    vc::cover("scaled");
    vc::finish();
}
VC_HARNESS(popularity_scale_not_rated)
{
    Popularity p, q;
    p.scale = TagType::Id3v2Tag, q.scale = TagType::VorbisComment;
    vc::ensure(p.scaleTo(TagType::VorbisComment) && p.rating == 0.0 && q.scaleTo(TagType::Id3v2Tag) && q.rating == 0.0, "absent rating stays absent");
    vc::ensure(p.scaleTo(TagType::Unspecified) && p.rating == 0.0, "absent rating stays absent");
    vc::cover("not rated");
    vc::finish();
}
VC_HARNESS(popularity_scale_unsupported)
{
    const auto rating = vc::any<u8>("rating");
    Popularity p;
    p.rating = rating;
    p.scale = TagType::Id3v2Tag;
    vc::ensure(!p.scaleTo(TagType::Id3v1Tag) && !p.scaleTo(TagType::Mp4Tag) && p.rating == rating && p.scale == TagType::Id3v2Tag, "unsupported scales are refused");
    p.scale = TagType::Mp4Tag;
    vc::ensure(!p.scaleTo(TagType::Id3v2Tag) && p.rating == rating && p.scale == TagType::Mp4Tag && p.scaleTo(TagType::Mp4Tag), "unsupported scales are refused");
    TagValue v(p);
    try {
        v.toScaledPopularity(TagType::Id3v2Tag);
        vc::ensure(false, "values which cannot be scaled are rejected");
    } catch (const CppUtilities::ConversionException &) {
        vc::cover("rejected");
    }
    vc::finish();
}
