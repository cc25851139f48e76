// EBML variable-length codecs and simple elements.
#include "common.h"
#include "matroska/ebmlelement.h"
#include "matroska/matroskacontainer.h"

// specification: value denoted by an EBML size descriptor of n bytes
static bool descriptor(const char *b, unsigned n, u64 &value)
{
    unsigned char first = static_cast<unsigned char>(b[0]);
    if (n < 1 || n > 8 || !(first & (0x80 >> (n - 1))) || (n > 1 && (first >> (9 - n))))
        return false;
    value = vc::be(b, n) & ~(u64(1) << (7 * n));
    return true;
}
static bool allOnes(u64 value, unsigned n)
{
    return value == (u64(1) << (7 * n)) - 1;
}

VC_HARNESS(size_denotation)
{
    const auto size = vc::any<u64>("size");
    char b[8] = {};
    unsigned n = 0, len = 0;
    bool t1 = false, t2 = false;
    try {
        len = EbmlElement::calculateSizeDenotationLength(size);
    } catch (const InvalidDataException &) {
        t1 = true;
    }
    try {
        n = EbmlElement::makeSizeDenotation(size, b);
    } catch (const InvalidDataException &) {
        t2 = true;
    }
    const bool representable = size <= 72057594037927934ull;
    vc::ensure(t1 == !representable && t2 == !representable, "size rejected exactly when not representable");
    if (!representable) {
        vc::cover("size not representable");
        return;
    }
    vc::ensure(n == len, "announced length of size denotation equals written length");
    n = vc::split(n);
    u64 v = 0;
    vc::ensure(descriptor(b, n, v), "size denotation is a well-formed descriptor of the returned length");
    vc::ensure(v == size, "size denotation decodes to the size");
    vc::ensure(!allOnes(v, n), "size denotation is not the reserved unknown-size pattern");
    if (n == 8)
        vc::cover("8 byte size");
    if (n == 1)
        vc::cover("1 byte size");
}

VC_HARNESS(size_denotation_min)
{
    const auto size = vc::any<u64>("size");
    const auto min = vc::any<std::uint8_t>("min");
    char b[8] = {};
    unsigned n = 0;
    bool t = false;
    try {
        n = EbmlElement::makeSizeDenotation(size, b, min);
    } catch (const InvalidDataException &) {
        t = true;
    }
    vc::ensure(t == (size > 72057594037927934ull || min > 8), "size rejected exactly when not representable");
    if (t)
        return;
    vc::ensure(n >= min && n <= 8, "requested minimum length respected");
    n = vc::split(n);
    u64 v = 0;
    vc::ensure(descriptor(b, n, v), "size denotation is a well-formed descriptor of the returned length");
    vc::ensure(v == size, "size denotation decodes to the size");
    vc::ensure(!allOnes(v, n), "size denotation is not the reserved unknown-size pattern");
    vc::cover("min");
}

// specification: a value is a well-formed EBML ID of n bytes
static unsigned idLength(u32 id)
{
    if (id >= 0x80 && id <= 0xFF)
        return 1;
    if (id >= 0x4000 && id <= 0x7FFF)
        return 2;
    if (id >= 0x200000 && id <= 0x3FFFFF)
        return 3;
    if (id >= 0x10000000 && id <= 0x1FFFFFFF)
        return 4;
    return 0;
}

VC_HARNESS(id_encoding)
{
    const auto id = vc::any<u32>("id");
    const unsigned n = idLength(id);
    char b[8] = {};
    bool t1 = false, t2 = false;
    unsigned made = 0, calculated = 0;
    try {
        made = EbmlElement::makeId(id, b);
    } catch (const InvalidDataException &) {
        t1 = true;
    }
    try {
        calculated = EbmlElement::calculateIdLength(id);
    } catch (const InvalidDataException &) {
        t2 = true;
    }
    vc::ensure(t1 == (id > 0x1FFFFFFF) && t2 == t1, "IDs which need more than four bytes are rejected");
    if (!n)
        return;
    vc::cover("valid ID");
    vc::ensure(made == n && calculated == n, "a valid ID is written using the length denoted by its leading byte");
    vc::ensure(vc::be(b, vc::split(n)) == id, "ID bytes are big endian");
}

VC_HARNESS(uint_encoding)
{
    const auto value = vc::any<u64>("value");
    const auto min = vc::any<u8>("min");
    char b[8] = {}, c[8] = {};
    const unsigned n = vc::split(EbmlElement::makeUInteger(value, b));
    vc::ensure(n >= 1 && n <= 8, "1 to 8 bytes");
    vc::ensure(n == EbmlElement::calculateUIntegerLength(value), "announced length of integer equals written length");
    vc::ensure(vc::be(b, n) == value, "integer bytes are the big endian value");
    vc::ensure(n == 1 || (value >> (8 * (n - 1))), "integer is written using the smallest possible length");
    const unsigned m = vc::split(EbmlElement::makeUInteger(value, c, min));
    vc::ensure(m <= 8 && m >= n && (min > 8 ? m == 8 : m >= min), "minimum length respected");
    vc::ensure(m == n || m == min || (min > 8 && m == 8), "no more bytes than needed or requested");
    vc::ensure(vc::be(c, m) == value, "padded integer bytes are the big endian value");
    if (n == 8)
        vc::cover("8 bytes");
}

// what is written as simple element is read back by the element parser
VC_HARNESS(simple_uint_element)
{
    const auto id = vc::any<u32>("id");
    const auto value = vc::any<u64>("value");
    vc::assume(idLength(id) != 0);
    vc::Stream s("file", 0);
    EbmlElement::makeSimpleElement(s.io, id, value);
    const u64 written = s.size();
    MediaFileInfo file;
    file.reportSizeChanged(written);
    MatroskaContainer container(file, 0);
    container.setStream(s.io);
    EbmlElement e(container, 0);
    Diagnostics diag;
    e.parse(diag);
    vc::ensure(e.id() == id, "ID read back");
    vc::ensure(e.endOffset() == written, "element extent is what has been written");
    vc::ensure(e.readUInteger() == value, "integer read back");
    vc::cover("integer");
    vc::finish();
}

VC_HARNESS(simple_string_element)
{
    const auto id = vc::any<u32>("id");
    const auto len = vc::any<u64>("len");
    const auto i = vc::any<u64>("i");
    vc::assume(idLength(id) != 0 && len < (u64(1) << 40) && i < len);
    const char *text = vc::buffer("text", len);
    vc::Stream s("file", 0);
    EbmlElement::makeSimpleElement(s.io, id, std::string_view(text, len));
    const u64 written = s.size();
    MediaFileInfo file;
    file.reportSizeChanged(written);
    MatroskaContainer container(file, 0);
    container.setStream(s.io);
    EbmlElement e(container, 0);
    Diagnostics diag;
    e.parse(diag);
    vc::ensure(e.id() == id, "ID read back");
    vc::ensure(e.endOffset() == written, "element extent is what has been written");
    const auto r = e.readString();
    vc::ensure(r.size() == len, "text length read back");
    vc::ensure(r[i] == text[i], "text read back");
    vc::cover("text");
    vc::finish();
}

// reading integers of any length
VC_HARNESS(read_uint)
{
    const auto dataSize = vc::any<u64>("dataSize");
    vc::assume(dataSize < maxFile);
    vc::Stream s("file", 12 + dataSize);
    MediaFileInfo file;
    file.reportSizeChanged(12 + dataSize);
    MatroskaContainer container(file, 0);
    container.setStream(s.io);
    // header: 4 byte ID (non-parent), 8 byte size
    s.io.write("\x1f\xff\xff\xfe\x01", 5);
    for (unsigned i = 0; i != 7; ++i)
        s.io.put(static_cast<char>(dataSize >> (8 * (6 - i))));
    vc::assume(dataSize < (u64(1) << 56) - 1);
    EbmlElement e(container, 0);
    Diagnostics diag;
    e.parse(diag);
    vc::ensure(e.dataOffset() == 12 && e.dataSize() == dataSize && e.totalSize() == 12 + dataSize, "8 byte size parsed");
    const auto v = e.readUInteger();
    const unsigned n = vc::split(static_cast<unsigned>(std::min<u64>(dataSize, 8)));
    vc::ensure(v == s.be(12, n), "integer is the big endian value of the first (up to eight) data bytes");
    if (!n)
        vc::cover("empty");
    if (n == 8)
        vc::cover("8 bytes");
    vc::finish();
}
