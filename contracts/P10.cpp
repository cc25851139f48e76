// ID3v2 frames and tags
#include "common.h"
#include "conversions.h"
#include "id3/id3v2frame.h"
#include "id3/id3v2frameids.h"
#include "id3/id3v2tag.h"
#include <c++utilities/io/binaryreader.h>
#include <c++utilities/io/binarywriter.h>
using CppUtilities::BinaryReader;
using CppUtilities::BinaryWriter;

// --- frame IDs ---
VC_HARNESS(id_conversion)
{
    using namespace Id3v2FrameIds;
    const auto id = vc::any<u32>("id");
    vc::ensure(isLongId(id) == (id > 0xFFFFFF) && isShortId(id) == (id <= 0xFFFFFF), "IDs of three bytes are short, IDs of four bytes long");
    const auto l = convertToLongId(id), s = convertToShortId(id);
    vc::ensure(!l || isShortId(id), "only short IDs are converted to long IDs");
    vc::ensure(!s || isLongId(id), "only long IDs are converted to short IDs");
    if (l) {
        vc::cover("short ID");
        vc::ensure(isLongId(l) && convertToShortId(l) == id, "converting back yields the same short ID");
        vc::ensure(isTextFrame(l) == isTextFrame(id) && isUrlFrame(l) == isUrlFrame(id), "kind of frame is preserved");
    }
    if (s) {
        vc::cover("long ID");
        vc::ensure(isShortId(s) && convertToLongId(s) == id, "converting back yields the same long ID");
    }
    vc::ensure(!(isPreId3v24Id(id) && isOnlyId3v24Id(id)), "no ID is supported nowhere");
    vc::finish();
}
// contract of convertToLongId proved by id_conversion: a function which maps short IDs injectively to long ones
static u32 convertedIds[16], convertedTo[16], convertedCount;
static u32 convertToLongIdContract(u32 id)
{
    const auto r = vc::any<u32>("longId");
    vc::assume(!r | (Id3v2FrameIds::isLongId(r) & Id3v2FrameIds::isShortId(id)));
    for (u32 i = 0; i != convertedCount; ++i)
        vc::assume(((convertedIds[i] == id) & (convertedTo[i] == r)) | ((convertedIds[i] != id) & ((convertedTo[i] != r) | !r)));
    convertedIds[convertedCount] = id;
    convertedTo[convertedCount++] = r;
    return r;
}
// the order of frames must be a strict weak ordering (asymmetric and negatively transitive); otherwise storing fields is undefined
VC_HARNESS(frame_order)
{
    vc::useContract("TagParser::Id3v2FrameIds::convertToLongId(", &convertToLongIdContract);
    const FrameComparer less{};
    const auto a = vc::any<u32>("a"), b = vc::any<u32>("b"), c = vc::any<u32>("c");
    if (!less(a, b))
        vc::finish();
    vc::ensure(less(a, c) || less(c, b), "negatively transitive");
    vc::finish();
}
VC_HARNESS(frame_order_asymmetric)
{
    vc::useContract("TagParser::Id3v2FrameIds::convertToLongId(", &convertToLongIdContract);
    const FrameComparer less{};
    const auto a = vc::any<u32>("a"), b = vc::any<u32>("b");
    vc::ensure(!less(a, a), "irreflexive");
    const bool ab = less(a, b), ba = less(b, a);
    vc::ensure(!(ab && ba), "asymmetric");
    const bool same = a == b || (a && b && (Id3v2FrameIds::convertToLongId(a) == b || Id3v2FrameIds::convertToLongId(b) == a));
    vc::ensure((!ab && !ba) == same || !a || !b, "IDs are equivalent exactly if equal or equal after converting the short one");
    vc::finish();
}

// --- frame headers ---
static bool isPlain(u32 id)
{
    using namespace Id3v2FrameIds;
    return !isTextFrame(id) && !isUrlFrame(id) && id != lCover && id != sCover && id != lComment && id != sComment && id != lUnsynchronizedLyrics && id != sUnsynchronizedLyrics && id != lPlayCounter && id != sPlayCounter && id != lRating
        && id != sRating;
}
static u32 sync(u32 v)
{
    return (v & 0x7F) | ((v & 0x7F00) >> 1) | ((v & 0x7F0000) >> 2) | ((v & 0x7F000000) >> 3);
}
template <u32 version> static void parseHeader(bool compressed)
{
    constexpr u32 headerSize = version < 3 ? 6 : 10;
    const auto start = vc::any<u64>("start"), size = vc::any<u64>("size"), i = vc::any<u64>("i");
    const auto maximalSize = vc::any<u32>("maximalSize");
    vc::assume(start < maxFile / 2 && size <= maxFile / 2 && start + 16 <= size);
    vc::Stream s("file", size);
    const u32 id = static_cast<u32>(s.be(start, version < 3 ? 3 : 4));
    vc::assume(isPlain(id));
    const u32 rawSize = static_cast<u32>(version < 3 ? s.be(start + 3, 3) : s.be(start + 4, 4));
    const u32 denoted = version >= 4 ? sync(rawSize) : rawSize;
    const u32 flags = version < 3 ? 0 : static_cast<u32>(s.be(start + 8, 2));
    const bool isCompressed = flags & (version >= 4 ? 0x8u : 0x80u), isEncrypted = flags & (version >= 4 ? 0x4u : 0x40u), grouped = flags & (version >= 4 ? 0x40u : 0x20u);
    const bool paddingId = !(id & (version < 3 ? 0xFF0000u : 0xFF000000u));
    vc::assume(isCompressed == compressed);
    const u32 extra = (grouped ? 1 : 0) + (isCompressed ? 4 : 0);
    s.io.seekg(static_cast<std::streamoff>(start));
    BinaryReader reader(&s.io);
    Id3v2Frame frame;
    Diagnostics diag;
    bool ok = true, failure = false;
    try {
        frame.parse(reader, version, maximalSize, diag);
    } catch (const NoDataFoundException &) {
        vc::ensure(paddingId && frame.hasPaddingReached(), "padding is reached exactly if the ID starts with a null byte");
        vc::ensure(frame.totalSize() == 0 && frame.value().isEmpty(), "no frame where padding begins");
        vc::cover("padding");
        vc::finish();
    } catch (const Failure &) {
        ok = false;
    } catch (const std::ios_base::failure &) {
        ok = false;
        failure = true;
    }
    vc::ensure(!paddingId && !frame.hasPaddingReached(), "padding is detected");
    vc::ensure(frame.id() == id, "ID is the denoted one");
    const u64 total = u64(denoted) + headerSize;
    if (total > maximalSize) {
        vc::ensure(!ok && !failure, "frame which exceeds the tag is rejected");
        vc::ensure(frame.value().isEmpty(), "nothing is read from a frame which exceeds the tag");
        vc::ensure(frame.totalSize() > maximalSize || total > 0xFFFFFFFF, "the size of the truncated frame is known");
        vc::ensure(!diag.empty(), "truncation is reported");
        vc::cover("truncated");
        vc::finish();
    }
    vc::ensure(frame.totalSize() == total, "total size is the denoted one, so the next frame is found");
    if (isEncrypted || denoted <= extra) {
        vc::ensure(!ok, "encrypted and empty frames are rejected");
        vc::ensure(!diag.empty() || failure, "rejection is reported");
        vc::finish();
    }
    if (!compressed) {
        const u64 dataSize = denoted - extra, dataStart = start + headerSize + extra;
        vc::ensure(ok == (dataStart + dataSize <= size) && ok != failure, "frame is read exactly if it is within the stream");
        if (!ok)
            vc::finish();
        vc::ensure(frame.flag() == flags && frame.group() == (grouped ? s.orig(start + 10) : 0), "flags and group are the denoted ones");
        vc::ensure(frame.dataSize() == dataSize && frame.value().dataSize() == dataSize, "data is the whole frame except header and additional header fields");
        vc::ensure(s.pos() == start + total, "the frame is consumed");
        vc::assume(i < dataSize);
        vc::ensure(static_cast<u8>(frame.value().dataPointer()[i]) == s.orig(dataStart + i), "data is stored as is");
        vc::cover("frame");
        vc::finish();
    }
    vc::ensure(ok || failure || !diag.empty(), "rejection is reported");
    vc::finish();
}
VC_HARNESS(parse_header_v22)
{
    parseHeader<2>(false);
}
VC_HARNESS(parse_header_v23)
{
    parseHeader<3>(false);
}
VC_HARNESS(parse_header_v24)
{
    parseHeader<4>(false);
}
// contract of zlib's uncompress: writes at most *destLen bytes, sets *destLen to their number and reports failures
static u64 zDestLen, zSourceLen, zSourceIndex, zResultLen;
static u8 zSourceByte;
static int uncompressContract(unsigned char *dest, unsigned long *destLen, const unsigned char *source, unsigned long sourceLen)
{
    zDestLen = *destLen;
    zSourceLen = sourceLen;
    vc::assume(zSourceIndex < sourceLen);
    zSourceByte = source[zSourceIndex];
    zResultLen = vc::any<u64>("decompressed");
    vc::assume(zResultLen <= zDestLen);
    *destLen = zResultLen;
    return static_cast<int>(vc::any<std::int32_t>("result"));
}
template <u32 version> static void parseCompressed()
{
    constexpr u32 headerSize = 10;
    vc::useContract("uncompress", &uncompressContract);
    const auto start = vc::any<u64>("start"), size = vc::any<u64>("size");
    vc::assume(start < maxFile / 2 && size <= maxFile / 2 && start + 16 <= size);
    vc::Stream s("file", size);
    const u32 id = static_cast<u32>(s.be(start, 4));
    const u32 rawSize = static_cast<u32>(s.be(start + 4, 4));
    const u32 denoted = version >= 4 ? sync(rawSize) : rawSize;
    const u32 flags = static_cast<u32>(s.be(start + 8, 2));
    const bool grouped = flags & (version >= 4 ? 0x40u : 0x20u);
    vc::assume(isPlain(id) && (id & 0xFF000000) && (flags & (version >= 4 ? 0xCu : 0xC0u)) == (version >= 4 ? 0x8u : 0x80u) && denoted < 0xFFFFFFF0);
    zSourceIndex = vc::any<u64>("i");
    const u32 extra = (grouped ? 1 : 0) + 4;
    const u64 sizeOffset = start + headerSize + (version >= 4 && grouped ? 1 : 0);
    s.io.seekg(static_cast<std::streamoff>(start));
    BinaryReader reader(&s.io);
    Id3v2Frame frame;
    Diagnostics diag;
    bool ok = true, failure = false;
    try {
        frame.parse(reader, version, 0xFFFFFFFF, diag);
    } catch (const Failure &) {
        ok = false;
    } catch (const std::ios_base::failure &) {
        ok = false;
        failure = true;
    }
    vc::ensure(frame.totalSize() == u64(denoted) + headerSize, "total size is the denoted one, so the next frame is found");
    vc::ensure(ok || failure || !diag.empty(), "rejection is reported");
    if (!ok)
        vc::finish();
    vc::cover("decompressed");
    const u32 raw = static_cast<u32>(s.be(sizeOffset, 4));
    vc::ensure(denoted > extra && zSourceLen == denoted - extra, "exactly the compressed data is decompressed");
    vc::ensure(zSourceByte == s.orig(start + headerSize + extra + zSourceIndex), "compressed data is read as is");
    vc::ensure(zDestLen == (version >= 4 ? sync(raw) : raw), "the decompressed size is the denoted one");
    vc::ensure(frame.group() == (grouped ? s.orig(start + (version >= 4 ? 10 : 14)) : 0), "group is the denoted one");
    vc::ensure(frame.dataSize() == zResultLen && frame.value().dataSize() == zResultLen, "the data is what has been decompressed");
    vc::finish();
}
VC_HARNESS(parse_compressed_v23)
{
    parseCompressed<3>();
}
VC_HARNESS(parse_compressed_v24)
{
    parseCompressed<4>();
}

// --- makers ---
// writes a frame with arbitrary data, flags and group and reads it back
template <u32 version> static void makePlain()
{
    constexpr u32 headerSize = version < 3 ? 6 : 10;
    const auto start = vc::any<u64>("start"), size = vc::any<u64>("size"), i = vc::any<u64>("i");
    const auto id = vc::any<u32>("id");
    const auto flags = vc::any<u16>("flags");
    const auto group = vc::any<u8>("group");
    vc::assume(start < maxFile / 2 && size < u64(1) << 33 && size > 0);
    vc::assume(isPlain(id) && (version < 3 ? id >= 0x10000 && id <= 0xFFFFFF : id > 0xFFFFFF));
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    BinaryWriter writer(&s.io);
    char *const data = vc::buffer("data", size);
    const TagValue value(data, size, TagDataType::Binary);
    Id3v2Frame frame(id, value, group, flags);
    Diagnostics diag;
    const bool encrypted = flags & 0x40, compressed = flags & 0x80, grouped = version >= 3 && flags & 0x20;
    vc::assume(!compressed);
    try {
        auto maker = frame.prepareMaking(version, diag);
        vc::ensure(!encrypted, "encrypted frames are rejected");
        vc::ensure(maker.requiredSize() == headerSize + (grouped ? 1 : 0) + size && maker.dataSize() == size, "announced size is the size of header and data");
        vc::ensure(version == 2 ? size <= 0xFFFFFF : version == 3 ? size <= 0xFFFFFFFF - 15 : size <= 0x0FFFFFFF - (grouped ? 1 : 0), "a size which cannot be denoted is rejected");
        maker.make(writer);
        vc::ensure(s.size() == start + maker.requiredSize() && s.pos() == s.size(), "as many bytes as announced are written");
    } catch (const InvalidDataException &) {
        vc::ensure(!diag.empty(), "failure is reported");
        vc::ensure(encrypted || (version == 2 ? size > 0xFFFFFF : version == 3 ? size > 0xFFFFFFFF - 16 : size > 0x0FFFFFFF - 1), "valid frames are written");
        vc::ensure(s.size() == start, "nothing is written on failure");
        vc::finish();
    }
    vc::ensure(s.be(start, version < 3 ? 3 : 4) == id, "ID");
    const u32 rawSize = static_cast<u32>(version < 3 ? s.be(start + 3, 3) : s.be(start + 4, 4));
    vc::ensure((version < 4 ? rawSize : sync(rawSize)) == size + (grouped ? 1 : 0) && (version < 4 || (rawSize & 0x80808080) == 0), "size field denotes everything after the header");
    const u32 expectedFlags = version < 4 ? flags : (flags & 0xE000) >> 1 | (grouped ? 0x40 : 0);
    if (version >= 3)
        vc::ensure(s.be(start + 8, 2) == expectedFlags, "flags");
    if (grouped)
        vc::ensure(s.at(start + 10) == group, "group");
    vc::assume(i < size);
    vc::ensure(s.at(start + headerSize + (grouped ? 1 : 0) + i) == static_cast<u8>(data[i]), "data is written as is");
    vc::cover("written");
    vc::finish();
}
VC_HARNESS(make_plain_v22)
{
    makePlain<2>();
}
VC_HARNESS(make_plain_v23)
{
    makePlain<3>();
}
VC_HARNESS(make_plain_v24)
{
    makePlain<4>();
}
// frame parsed from a v4 tag and written to a v3 tag and vice versa: the flags keep their meaning
template <u32 from, u32 to> static void convertFlags()
{
    const auto flags = vc::any<u16>("flags");
    const auto group = vc::any<u8>("group"), data = vc::any<u8>("data");
    const bool grouped = flags & (from >= 4 ? 0x40 : 0x20);
    vc::assume((flags & (from >= 4 ? 0xC : 0xC0)) == 0);
    vc::Stream in("in", 12), out("out", 0);
    BinaryWriter inWriter(&in.io), writer(&out.io);
    inWriter.writeUInt32BE(Id3v2FrameIds::lUniqueFileId);
    inWriter.writeUInt32BE(grouped ? 2 : 1);
    inWriter.writeUInt16BE(flags);
    if (grouped)
        inWriter.writeByte(group);
    inWriter.writeByte(data);
    in.io.seekg(0);
    BinaryReader reader(&in.io);
    Id3v2Frame frame;
    Diagnostics diag;
    frame.parse(reader, from, 12, diag);
    vc::ensure(frame.parsedVersion() == from, "version of the frame is known");
    auto maker = frame.prepareMaking(to, diag);
    maker.make(writer);
    vc::ensure(maker.requiredSize() == (grouped ? 12 : 11) && out.size() == maker.requiredSize(), "as many bytes as announced are written");
    const u32 expectedStatus = from == to ? flags & (from >= 4 ? 0x7000 : 0xE000) : from < to ? (flags & 0xE000) >> 1 : (flags & 0x7000) << 1;
    vc::ensure((out.be(8, 2) & (to >= 4 ? 0x7000 : 0xE000)) == expectedStatus, "status flags keep their meaning");
    vc::ensure((out.be(8, 2) & (to >= 4 ? 0x4C : 0xE0)) == (grouped ? (to >= 4 ? 0x40 : 0x20) : 0), "format flags match the contents of the frame");
    vc::ensure(out.at(grouped ? 11 : 10) == data && (!grouped || out.at(10) == group), "group and data");
    vc::cover("converted");
    vc::finish();
}
VC_HARNESS(convert_flags_v24_v23)
{
    convertFlags<4, 3>();
}
VC_HARNESS(convert_flags_v23_v24)
{
    convertFlags<3, 4>();
}
VC_HARNESS(convert_flags_v24_v24)
{
    convertFlags<4, 4>();
}
// a frame written for another version gets the ID of that version
template <u32 version> static void makeConverted()
{
    const auto id = vc::any<u32>("id");
    vc::assume(isPlain(id) && id >= 0x10000 && (version < 3 ? id > 0xFFFFFF : id <= 0xFFFFFF));
    vc::Stream s("file", 0);
    BinaryWriter writer(&s.io);
    const char data = 'x';
    Id3v2Frame frame(id, TagValue(&data, 1, TagDataType::Binary));
    Diagnostics diag;
    const u32 expected = version < 3 ? Id3v2FrameIds::convertToShortId(id) : Id3v2FrameIds::convertToLongId(id);
    try {
        frame.make(writer, version, diag);
        vc::ensure(s.be(0, version < 3 ? 3 : 4) == expected, "ID is converted");
        vc::cover("converted");
    } catch (const InvalidDataException &) {
        vc::ensure(!expected && !diag.empty() && s.size() == 0, "frame is only rejected if there is no such ID");
        vc::cover("rejected");
    }
    vc::finish();
}
VC_HARNESS(make_converted_v22)
{
    makeConverted<2>();
}
VC_HARNESS(make_converted_v23)
{
    makeConverted<3>();
}
VC_HARNESS(make_converted_v24)
{
    makeConverted<4>();
}

// --- text frames ---
// strings denoted by the content of a text frame: terminated by null characters, optionally preceded by byte-order marks
struct Strings {
    unsigned count = 0;
    unsigned offset[8], size[8];
    TagTextEncoding encoding[8];
    bool ambiguous = false; // several byte-order marks in a row
    void read(const u8 *d, unsigned n, unsigned pos, TagTextEncoding enc)
    {
        while (pos < n) {
            const bool wide = enc == TagTextEncoding::Utf16BigEndian || enc == TagTextEncoding::Utf16LittleEndian;
            unsigned i = pos;
            for (unsigned marks = 0;; ++marks) {
                if (marks == 2)
                    ambiguous = true;
                if (marks == 2)
                    return;
                if (wide && n - i >= 2 && d[i] == 0xFF && d[i + 1] == 0xFE) {
                    enc = TagTextEncoding::Utf16LittleEndian;
                    i += 2;
                } else if (wide && n - i >= 2 && d[i] == 0xFE && d[i + 1] == 0xFF) {
                    enc = TagTextEncoding::Utf16BigEndian;
                    i += 2;
                } else if (!wide && n - i >= 3 && d[i] == 0xEF && d[i + 1] == 0xBB && d[i + 2] == 0xBF) {
                    enc = TagTextEncoding::Utf8;
                    i += 3;
                } else {
                    break;
                }
            }
            const unsigned begin = i;
            const unsigned unit = wide ? 2 : 1;
            while (n - i >= unit && (d[i] || (wide && d[i + 1])))
                i += unit;
            if (i > begin) {
                offset[count] = begin;
                size[count] = i - begin;
                encoding[count++] = enc;
            }
            pos = n - i >= unit ? i + unit : n;
        }
    }
};
template <u32 version> static void parseText(u32 id, unsigned n, u8 encodingByte, bool url)
{
    vc::opaque("TagParser::Id3v2Frame::ignoreAdditionalValuesDiagMsg");
    vc::Stream s("file", 64);
    BinaryWriter writer(&s.io);
    version < 3 ? writer.writeUInt24BE(id) : writer.writeUInt32BE(id);
    version < 3 ? writer.writeUInt24BE(n) : writer.writeUInt32BE(n);
    if (version >= 3)
        writer.writeUInt16BE(0);
    u8 d[16];
    if (n)
        vc::bytes("content", d, n);
    if (!url)
        d[0] = encodingByte;
    s.io.write(reinterpret_cast<const char *>(d), n);
    const TagTextEncoding encodings[] = { TagTextEncoding::Latin1, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian, TagTextEncoding::Utf8, TagTextEncoding::Latin1 };
    Strings expected;
    expected.read(d, n, url ? 0 : 1, url ? TagTextEncoding::Latin1 : encodings[encodingByte]);
    vc::assume(!expected.ambiguous);
    s.io.seekg(0);
    BinaryReader reader(&s.io);
    Id3v2Frame frame;
    Diagnostics diag;
    frame.parse(reader, version, 64, diag);
    vc::ensure(s.pos() == (version < 3 ? 6 : 10) + n, "the frame is consumed");
    vc::ensure(frame.value().isEmpty() == (expected.count == 0), "value is present if there is a non-empty string");
    vc::ensure(expected.count ? frame.additionalValues().size() == expected.count - 1 : frame.additionalValues().empty(), "all strings are read");
    for (unsigned j = 0; j != expected.count; ++j) {
        const auto &value = j ? frame.additionalValues()[j - 1] : frame.value();
        vc::ensure(value.type() == TagDataType::Text && value.dataEncoding() == expected.encoding[j], "encoding");
        vc::ensure(value.dataSize() == expected.size[j], "size of string");
        if (value.dataSize() != expected.size[j])
            vc::finish();
        for (unsigned k = 0; k != expected.size[j]; ++k)
            vc::ensure(static_cast<u8>(value.dataPointer()[k]) == d[expected.offset[j] + k], "string is read as is");
    }
    vc::cover("text");
    vc::finish();
}
static unsigned anySize(const char *name, unsigned min, unsigned max)
{
    const auto n = vc::any<unsigned>(name);
    vc::assume(n >= min && n <= max);
    return vc::split(n);
}
// vc-bound parse_text_latin1: contents of up to 5 bytes
VC_HARNESS(parse_text_latin1)
{
    parseText<4>(Id3v2FrameIds::lTitle, anySize("n", 1, 5), 0, false);
}
// vc-bound parse_text_utf16: contents of up to 8 bytes
VC_HARNESS(parse_text_utf16)
{
    parseText<4>(Id3v2FrameIds::lArtist, anySize("n", 1, 8), 1, false);
}
// vc-bound parse_text_utf16be: contents of up to 8 bytes
VC_HARNESS(parse_text_utf16be)
{
    parseText<4>(Id3v2FrameIds::lAlbum, anySize("n", 1, 8), 2, false);
}
// vc-bound parse_text_utf8: contents of up to 5 bytes
VC_HARNESS(parse_text_utf8)
{
    parseText<4>(Id3v2FrameIds::lTitle, anySize("n", 1, 5), 3, false);
}
// vc-bound parse_text_invalid_encoding: contents of up to 4 bytes
VC_HARNESS(parse_text_invalid_encoding)
{
    parseText<3>(Id3v2FrameIds::lTitle, anySize("n", 1, 4), 4, false);
}
// vc-bound parse_text_v22: contents of up to 6 bytes
VC_HARNESS(parse_text_v22)
{
    parseText<2>(Id3v2FrameIds::sTitle, anySize("n", 1, 6), 1, false);
}
// vc-bound parse_url: contents of up to 5 bytes
VC_HARNESS(parse_url)
{
    parseText<3>(Id3v2FrameIds::lAudioFileWebpage, anySize("n", 1, 5), 0, true);
}

// --- pictures, comments, play counters ---
// one string of up to n bytes starting at pos; returns the offset after its termination (n + 1 or more if not terminated)
struct OneString {
    unsigned begin = 0, size = 0, next = 0;
    TagTextEncoding encoding;
    OneString(const u8 *d, unsigned n, unsigned pos, TagTextEncoding enc)
        : encoding(enc)
    {
        const bool wide = enc == TagTextEncoding::Utf16BigEndian || enc == TagTextEncoding::Utf16LittleEndian;
        unsigned i = pos;
        if (wide && n - i >= 2 && d[i] == 0xFF && d[i + 1] == 0xFE) {
            encoding = TagTextEncoding::Utf16LittleEndian;
            i += 2;
        } else if (wide && n - i >= 2 && d[i] == 0xFE && d[i + 1] == 0xFF) {
            encoding = TagTextEncoding::Utf16BigEndian;
            i += 2;
        } else if (!wide && n - i >= 3 && d[i] == 0xEF && d[i + 1] == 0xBB && d[i + 2] == 0xBF) {
            encoding = TagTextEncoding::Utf8;
            i += 3;
        }
        begin = i;
        const unsigned unit = wide ? 2 : 1;
        while (n - i >= unit && (d[i] || (wide && d[i + 1])))
            i += unit;
        size = i - begin;
        next = i + unit;
    }
};
constexpr TagTextEncoding encodings[] = { TagTextEncoding::Latin1, TagTextEncoding::Utf16LittleEndian, TagTextEncoding::Utf16BigEndian, TagTextEncoding::Utf8 };
static void expectText(const std::string &actual, const u8 *d, const OneString &expected, const char *label)
{
    bool ok = actual.size() == expected.size;
    for (unsigned k = 0; ok && k != expected.size; ++k)
        ok = static_cast<u8>(actual[k]) == d[expected.begin + k];
    vc::ensure(ok, label);
}
static void writeFrame(vc::Stream &s, u32 version, u32 id, const u8 *d, unsigned n)
{
    BinaryWriter writer(&s.io);
    version < 3 ? writer.writeUInt24BE(id) : writer.writeUInt32BE(id);
    version < 3 ? writer.writeUInt24BE(n) : writer.writeUInt32BE(n);
    if (version >= 3)
        writer.writeUInt16BE(0);
    s.io.write(reinterpret_cast<const char *>(d), n);
    s.io.seekg(0);
}
template <u32 version> static void parsePicture(unsigned n, u8 encodingByte)
{
    u8 d[16];
    vc::bytes("content", d, n);
    d[0] = encodingByte;
    vc::Stream s("file", 64);
    writeFrame(s, version, version < 3 ? Id3v2FrameIds::sCover : Id3v2FrameIds::lCover, d, n);
    BinaryReader reader(&s.io);
    Id3v2Frame frame;
    Diagnostics diag;
    bool ok = true;
    try {
        frame.parse(reader, version, 64, diag);
    } catch (const TruncatedDataException &) {
        ok = false;
        vc::ensure(!diag.empty(), "rejection is reported");
    }
    vc::ensure(frame.totalSize() == n + (version < 3 ? 6 : 10), "next frame is found");
    unsigned typeOffset = 4;
    if (version >= 3) {
        const OneString mime(d, n, 1, TagTextEncoding::Latin1);
        typeOffset = mime.next;
        if (ok)
            expectText(frame.value().mimeType(), d, mime, "MIME-type");
    }
    if (typeOffset + 1 >= n) {
        vc::ensure(!ok, "picture without description and data is rejected");
        vc::finish();
    }
    const OneString description(d, n, typeOffset + 1, encodings[encodingByte]);
    vc::ensure(ok == (description.next < n), "picture is read exactly if there is data");
    if (!ok)
        vc::finish();
    expectText(frame.value().description(), d, description, "description");
    vc::ensure(frame.value().descriptionEncoding() == description.encoding, "encoding of description");
    vc::ensure(frame.isTypeInfoAssigned() && frame.typeInfo() == d[typeOffset], "picture type");
    vc::ensure(frame.value().type() == TagDataType::Picture && frame.value().dataSize() == n - description.next, "the data is everything after the description");
    if (frame.value().dataSize() != n - description.next)
        vc::finish();
    for (unsigned k = 0; k != n - description.next; ++k)
        vc::ensure(static_cast<u8>(frame.value().dataPointer()[k]) == d[description.next + k], "data is read as is");
    vc::cover("picture");
    vc::finish();
}
// vc-bound parse_picture_latin1: contents of up to 7 bytes
VC_HARNESS(parse_picture_latin1)
{
    parsePicture<3>(anySize("n", 1, 7), 0);
}
// vc-bound parse_picture_utf16: contents of up to 8 bytes
VC_HARNESS(parse_picture_utf16)
{
    parsePicture<3>(anySize("n", 1, 8), 1);
}
// vc-bound parse_picture_utf8: contents of up to 6 bytes
VC_HARNESS(parse_picture_utf8)
{
    parsePicture<4>(anySize("n", 1, 6), 3);
}
// vc-bound parse_picture_v22: contents of up to 9 bytes
VC_HARNESS(parse_picture_v22)
{
    parsePicture<2>(anySize("n", 1, 9), 0);
}
// vc-bound parse_picture_v22_utf16: contents of up to 10 bytes
VC_HARNESS(parse_picture_v22_utf16)
{
    parsePicture<2>(anySize("n", 1, 10), 1);
}
template <u32 version> static void parseComment(u32 id, unsigned n, u8 encodingByte)
{
    u8 d[16];
    vc::bytes("content", d, n);
    d[0] = encodingByte;
    vc::Stream s("file", 64);
    writeFrame(s, version, id, d, n);
    BinaryReader reader(&s.io);
    Id3v2Frame frame;
    Diagnostics diag;
    bool ok = true;
    try {
        frame.parse(reader, version, 64, diag);
    } catch (const TruncatedDataException &) {
        ok = false;
        vc::ensure(!diag.empty(), "rejection is reported");
    }
    vc::ensure(frame.totalSize() == n + (version < 3 ? 6 : 10), "next frame is found");
    if (n < 5) {
        vc::ensure(!ok, "comment without description is rejected");
        vc::finish();
    }
    const OneString description(d, n, 4, encodings[encodingByte]);
    vc::ensure(ok == (description.next <= n), "comment is read exactly if its description is terminated");
    if (!ok)
        vc::finish();
    const auto &language = frame.value().locale();
    if (d[1])
        vc::ensure(language.size() == 1 && language[0].size() == 3 && static_cast<u8>(language[0][0]) == d[1] && static_cast<u8>(language[0][1]) == d[2] && static_cast<u8>(language[0][2]) == d[3] && language[0].format == LocaleFormat::ISO_639_2_B,
            "language");
    else
        vc::ensure(language.empty(), "no language");
    expectText(frame.value().description(), d, description, "description");
    vc::ensure(frame.value().descriptionEncoding() == description.encoding, "encoding of description");
    const OneString text(d, n, description.next, description.encoding);
    const auto &value = frame.value();
    const bool bom2 = text.size >= 2 && (text.encoding == TagTextEncoding::Utf16LittleEndian ? d[text.begin] == 0xFF && d[text.begin + 1] == 0xFE : text.encoding == TagTextEncoding::Utf16BigEndian && d[text.begin] == 0xFE && d[text.begin + 1] == 0xFF);
    vc::assume(!bom2);
    vc::ensure(value.type() == TagDataType::Text && value.dataEncoding() == text.encoding && value.dataSize() == text.size, "text");
    if (value.dataSize() != text.size)
        vc::finish();
    for (unsigned k = 0; k != text.size; ++k)
        vc::ensure(static_cast<u8>(value.dataPointer()[k]) == d[text.begin + k], "text is read as is");
    vc::cover("comment");
    vc::finish();
}
// vc-bound parse_comment_latin1: contents of up to 8 bytes
VC_HARNESS(parse_comment_latin1)
{
    parseComment<3>(Id3v2FrameIds::lComment, anySize("n", 1, 8), 0);
}
// vc-bound parse_comment_utf16: contents of up to 11 bytes
VC_HARNESS(parse_comment_utf16)
{
    parseComment<3>(Id3v2FrameIds::lComment, anySize("n", 1, 11), 1);
}
// vc-bound parse_comment_utf8: contents of up to 7 bytes
VC_HARNESS(parse_comment_utf8)
{
    parseComment<4>(Id3v2FrameIds::lComment, anySize("n", 1, 7), 3);
}
// vc-bound parse_lyrics_v22: contents of up to 8 bytes
VC_HARNESS(parse_lyrics_v22)
{
    parseComment<2>(Id3v2FrameIds::sUnsynchronizedLyrics, anySize("n", 1, 8), 2);
}
// play counters have four to eight bytes
template <u32 version> static void playCounter()
{
    const auto n = anySize("n", 1, 10);
    u8 d[16];
    vc::bytes("content", d, n);
    vc::Stream s("file", 64);
    writeFrame(s, version, version < 3 ? Id3v2FrameIds::sPlayCounter : Id3v2FrameIds::lPlayCounter, d, n);
    BinaryReader reader(&s.io);
    Id3v2Frame frame;
    Diagnostics diag;
    frame.parse(reader, version, 64, diag);
    u64 expected = 0;
    for (unsigned k = 0; k != n; ++k)
        expected = expected << 8 | d[k];
    if (n > 8) {
        vc::ensure(!diag.empty(), "too big counter is reported");
        vc::finish();
    }
    vc::ensure(frame.value().toUnsignedInteger() == expected, "play counter is the denoted one");
    vc::cover("counter");
    vc::finish();
}
VC_HARNESS(parse_play_counter_v22)
{
    playCounter<2>();
}
VC_HARNESS(parse_play_counter_v23)
{
    playCounter<3>();
}
template <u8 version> static void makePlayCounter()
{
    const auto counter = vc::any<u64>("counter");
    vc::Stream s("file", 0);
    BinaryWriter writer(&s.io);
    Id3v2Frame frame(version < 3 ? Id3v2FrameIds::sPlayCounter : Id3v2FrameIds::lPlayCounter, TagValue(counter));
    Diagnostics diag;
    auto maker = frame.prepareMaking(version, diag);
    maker.make(writer);
    unsigned expectedSize = 4;
    while (expectedSize < 8 && counter >> (8 * expectedSize))
        ++expectedSize;
    constexpr u32 header = version < 3 ? 6 : 10;
    vc::ensure(s.size() == header + expectedSize && maker.requiredSize() == s.size(), "counter takes at least four and not more bytes than needed");
    vc::ensure(s.be(header, expectedSize) == counter, "counter is written big endian");
    vc::ensure((version < 3 ? s.be(3, 3) : s.be(4, 4)) == expectedSize, "size");
    vc::cover("counter");
    vc::finish();
}
VC_HARNESS(make_play_counter_v22)
{
    makePlayCounter<2>();
}
VC_HARNESS(make_play_counter_v24)
{
    makePlayCounter<4>();
}

// popularimeter: user, rating and play counter
static Popularity *readPopularity, *givenPopularity; // (globals with constructors are not supported)
static void assignPopularityContract(TagValue *, const Popularity &p)
{
    *readPopularity = p;
}
static Popularity toScaledPopularityContract(const TagValue *, TagType scale)
{
    vc::ensure(scale == TagType::Id3v2Tag, "rating is written using the scale of ID3v2");
    return *givenPopularity;
}
template <u32 version> static void parseRating()
{
    vc::useContract("TagParser::TagValue::assignPopularity(", &assignPopularityContract);
    Popularity result;
    readPopularity = &result;
    const auto n = anySize("n", 1, 12);
    u8 d[16];
    vc::bytes("content", d, n);
    const auto userSize = anySize("userSize", 0, 3);
    vc::assume(userSize < n);
    for (unsigned k = 0; k != userSize; ++k)
        vc::assume(d[k] != 0);
    d[userSize] = 0;
    vc::assume(userSize < 3 || vc::be(reinterpret_cast<const char *>(d), 3) != 0xEFBBBF);
    vc::Stream s("file", 64);
    writeFrame(s, version, version < 3 ? Id3v2FrameIds::sRating : Id3v2FrameIds::lRating, d, n);
    BinaryReader reader(&s.io);
    Id3v2Frame frame;
    Diagnostics diag;
    try {
        frame.parse(reader, version, 64, diag);
    } catch (const TruncatedDataException &) {
        vc::ensure(userSize + 1 >= n && !diag.empty(), "only a popularimeter without rating is rejected");
        vc::finish();
    }
    vc::ensure(userSize + 1 < n, "popularimeter without rating is rejected");
    if (__vc_symbolic()) {
        const auto &p = *readPopularity;
        vc::ensure(p.scale == TagType::Id3v2Tag, "scale is the one of ID3v2");
        bool sameUser = p.user.size() == userSize;
        for (unsigned k = 0; sameUser && k != userSize; ++k)
            sameUser = static_cast<u8>(p.user[k]) == d[k];
        vc::ensure(sameUser, "user");
        vc::ensure(p.rating == static_cast<double>(d[userSize + 1]), "rating");
        u64 counter = 0;
        for (unsigned k = userSize + 2; k != n; ++k)
            counter = counter << 8 | d[k];
        vc::ensure(n - userSize - 2 > 8 ? !diag.empty() : p.playCounter == counter, "play counter");
    }
    vc::cover("rating");
    vc::finish();
}
VC_HARNESS(parse_rating_v22)
{
    parseRating<2>();
}
VC_HARNESS(parse_rating_v23)
{
    parseRating<3>();
}
template <u8 version> static void makeRating()
{
    vc::useContract("TagParser::TagValue::toScaledPopularity(", &toScaledPopularityContract);
    Popularity given;
    givenPopularity = &given;
    const auto userSize = vc::any<u64>("userSize"), i = vc::any<u64>("i"), counter = vc::any<u64>("counter");
    const auto rating = vc::any<std::int32_t>("rating");
    if (!__vc_symbolic())
        vc::finish();
    vc::assume(userSize < 0x1000000);
    givenPopularity->user.assign(vc::buffer("user", userSize), userSize);
    givenPopularity->rating = static_cast<double>(rating);
    givenPopularity->playCounter = counter;
    vc::Stream s("file", 0);
    BinaryWriter writer(&s.io);
    const char any = 'x';
    Id3v2Frame frame(version < 3 ? Id3v2FrameIds::sRating : Id3v2FrameIds::lRating, TagValue(&any, 1, TagDataType::Binary));
    Diagnostics diag;
    unsigned counterSize = 4;
    while (counterSize < 8 && counter >> (8 * counterSize))
        ++counterSize;
    constexpr u32 header = version < 3 ? 6 : 10;
    try {
        auto maker = frame.prepareMaking(version, diag);
        maker.make(writer);
        vc::ensure(maker.requiredSize() == s.size() && s.size() == header + userSize + 2 + counterSize, "as many bytes as announced are written");
    } catch (const InvalidDataException &) {
        vc::ensure(version < 3 && userSize + 2 + counterSize > 0xFFFFFF, "only data which is too big is rejected");
        vc::finish();
    }
    vc::ensure(s.at(header + userSize) == 0 && s.at(header + userSize + 1) == (rating < 0 ? 0 : rating > 255 ? 255 : rating), "rating follows terminated user");
    vc::ensure((rating >= 0 && rating <= 255) == diag.empty(), "clamping the rating is reported");
    vc::ensure(s.be(header + userSize + 2, counterSize) == counter, "play counter");
    vc::assume(i < userSize);
    vc::ensure(s.at(header + i) == static_cast<u8>(givenPopularity->user[i]), "user");
    vc::cover("rating");
    vc::finish();
}
VC_HARNESS(make_rating_v22)
{
    makeRating<2>();
}
VC_HARNESS(make_rating_v24)
{
    makeRating<4>();
}

// text frame holding one text of any size: encoding byte, byte-order mark, text, termination
template <u8 version> static void makeText(u32 id, bool url)
{
    useConversions();
    auto enc = vc::any<TagTextEncoding>("encoding");
    vc::assume(enc < TagTextEncoding::Unspecified);
    enc = vc::split(enc);
    const auto size = vc::any<u64>("size"), i = vc::any<u64>("i");
    vc::assume(size > 0 && size < 0x80000000);
    if (!__vc_symbolic() && (url ? enc != L1 : enc == U8 && version < 4))
        vc::finish();
    const char *const text = vc::buffer("text", size);
    vc::assume(size < 2 || ((vc::be(text, 2) != 0xFEFF) & (vc::be(text, 2) != 0xFFFE)));
    vc::assume(size < 3 || vc::be(text, 3) != 0xEFBBBF);
    Id3v2Frame frame(id, TagValue(text, size, enc));
    vc::Stream s("file", 0);
    BinaryWriter writer(&s.io);
    Diagnostics diag;
    conversions = 0;
    const auto written = url ? L1 : version < 4 && enc == U8 ? LE16 : enc;
    const bool wide = written == LE16 || written == BE16;
    const u32 header = (version < 3 ? 6 : 10) + (url ? 0 : 1), bom = wide ? 2 : 0;
    const u64 textSize = written == enc ? size : 2, total = header + bom + textSize + (wide ? 2 : 1);
    try {
        auto maker = frame.prepareMaking(version, diag);
        maker.make(writer);
        vc::ensure(maker.requiredSize() == total && s.size() == total, "as many bytes as announced are written");
    } catch (const InvalidDataException &) {
        vc::ensure(!diag.empty() && total > (version < 3 ? 0xFFFFFF : version == 3 ? 0xFFFFFFFF - 16 : 0x0FFFFFFF), "only data which is too big is rejected");
        vc::finish();
    }
    vc::ensure(written == enc ? conversions == 0 : conversions == 1 && from == enc && to == written && inputSize == size, "text is converted if the version does not support its encoding");
    if (!url)
        vc::ensure(s.at(header - 1) == (written == L1 ? 0 : wide ? 1 : 3), "encoding byte");
    if (wide)
        vc::ensure(s.be(header, 2) == (written == LE16 ? 0xFFFE : 0xFEFF), "byte-order mark");
    vc::ensure(s.at(total - 1) == 0 && (!wide || s.at(total - 2) == 0), "termination");
    if (written != enc) {
        vc::ensure(s.at(header + bom) == 'X' && s.at(header + bom + 1) == 'Y', "converted text");
        vc::cover("converted");
        vc::finish();
    }
    vc::assume(i < size);
    vc::ensure(s.at(header + bom + i) == static_cast<u8>(text[i]), "text is written as is");
    vc::cover("text");
    vc::finish();
}
VC_HARNESS(make_text_v22)
{
    makeText<2>(Id3v2FrameIds::sTitle, false);
}
VC_HARNESS(make_text_v23)
{
    makeText<3>(Id3v2FrameIds::lTitle, false);
}
VC_HARNESS(make_text_v24)
{
    makeText<4>(Id3v2FrameIds::lArtist, false);
}
VC_HARNESS(make_url_v23)
{
    makeText<3>(Id3v2FrameIds::lAudioFileWebpage, true);
}
// several texts in one frame
VC_HARNESS(make_texts)
{
    useConversions();
    auto size1 = vc::any<u64>("size1"), size2 = vc::any<u64>("size2");
    const auto i = vc::any<u64>("i"), j = vc::any<u64>("j");
    auto enc = vc::any<TagTextEncoding>("encoding");
    vc::assume(enc < TagTextEncoding::Unspecified);
    enc = vc::split(enc);
    vc::assume(size1 > 0 && size1 < 0x1000000 && size2 > 0 && size2 < 0x1000000);
    if (size1 < 16)
        size1 = vc::split(size1);
    if (size2 < 16)
        size2 = vc::split(size2);
    const char *const text1 = vc::buffer("text1", size1), *const text2 = vc::buffer("text2", size2);
    for (const auto &[text, size] : { std::pair(text1, size1), std::pair(text2, size2) }) {
        vc::assume(size < 2 || ((vc::be(text, 2) != 0xFEFF) & (vc::be(text, 2) != 0xFFFE)));
        vc::assume(size < 3 || vc::be(text, 3) != 0xEFBBBF);
    }
    Id3v2Frame frame(Id3v2FrameIds::lTitle, TagValue(text1, size1, enc));
    frame.additionalValues().emplace_back(text2, size2, enc);
    vc::Stream s("file", 0);
    BinaryWriter writer(&s.io);
    Diagnostics diag;
    auto maker = frame.prepareMaking(4, diag);
    maker.make(writer);
    const bool wide = enc == LE16 || enc == BE16;
    const u32 bom = wide ? 2 : 0, term = wide ? 2 : 1;
    const u64 second = 11 + bom + size1 + term, total = second + bom + size2 + term;
    vc::ensure(maker.requiredSize() == total && s.size() == total, "as many bytes as announced are written");
    if (wide)
        vc::ensure(s.be(11, 2) == (enc == LE16 ? 0xFFFE : 0xFEFF) && s.be(second, 2) == s.be(11, 2), "byte-order marks");
    vc::ensure(s.at(second - 1) == 0 && s.at(total - 1) == 0 && (!wide || (s.at(second - 2) == 0 && s.at(total - 2) == 0)), "terminations");
    vc::assume(i < size1 && j < size2);
    vc::ensure(s.at(11 + bom + i) == static_cast<u8>(text1[i]), "first text");
    vc::ensure(s.at(second + bom + j) == static_cast<u8>(text2[j]), "second text");
    vc::cover("texts");
    vc::finish();
}

// picture: encoding byte, MIME-type/format, type, description, data of any size
template <u8 version> static void makePicture()
{
    vc::useContract("CppUtilities::convertUtf8ToUtf16LE(", &fixed<U8, LE16>);
    auto enc = vc::any<TagTextEncoding>("encoding");
    vc::assume(enc < TagTextEncoding::Unspecified);
    enc = vc::split(enc);
    const auto type = vc::any<u8>("type");
    const auto size = vc::any<u64>("size"), i = vc::any<u64>("i");
    vc::assume(size > 0 && size < 0x80000000);
    if (!__vc_symbolic() && enc == U8 && version < 4)
        vc::finish();
    const unsigned mimeSize = version < 3 ? 9 : anySize("mimeSize", 0, 3), descSize = anySize("descSize", 0, 5);
    const bool wideGiven = enc == LE16 || enc == BE16;
    char mime[16] = "image/png", desc[8];
    if (version >= 3 && mimeSize)
        vc::bytes("mime", mime, mimeSize);
    if (descSize)
        vc::bytes("desc", desc, descSize);
    // everything after a termination is ignored
    unsigned mimeEnd = 0, descEnd = 0;
    while (mimeEnd < mimeSize && mime[mimeEnd])
        ++mimeEnd;
    if (wideGiven) {
        while (descSize - descEnd >= 2 && (desc[descEnd] || desc[descEnd + 1]))
            descEnd += 2;
        if (descSize - descEnd == 1)
            descEnd = descSize;
    } else {
        while (descEnd < descSize && desc[descEnd])
            ++descEnd;
    }
    const char *const data = vc::buffer("data", size);
    TagValue value(data, size, TagDataType::Picture);
    value.setMimeType(std::string_view(mime, mimeSize));
    value.setDescription(std::string_view(desc, descSize), enc);
    Id3v2Frame frame(version < 3 ? Id3v2FrameIds::sCover : Id3v2FrameIds::lCover, value);
    frame.setTypeInfo(type);
    vc::Stream s("file", 0);
    BinaryWriter writer(&s.io);
    Diagnostics diag;
    conversions = 0;
    const auto written = version < 4 && enc == U8 ? LE16 : enc;
    const bool wide = written == LE16 || written == BE16, converted = written != enc;
    const u32 header = (version < 3 ? 6 : 10), typeOffset = header + 1 + (version < 3 ? 3 : mimeEnd + 1), descOffset = typeOffset + 1 + (wide ? 2 : 0);
    const u32 writtenDesc = converted ? 2 : descEnd, dataOffset = descOffset + writtenDesc + (wide ? 2 : 1);
    try {
        auto maker = frame.prepareMaking(version, diag);
        maker.make(writer);
        vc::ensure(maker.requiredSize() == dataOffset + size && s.size() == dataOffset + size, "as many bytes as announced are written");
    } catch (const InvalidDataException &) {
        vc::ensure(!diag.empty() && dataOffset - header + size > (version < 3 ? 0xFFFFFF : version == 3 ? 0xFFFFFFFF - 16 : 0x0FFFFFFF), "only data which is too big is rejected");
        vc::finish();
    }
    vc::ensure(converted ? conversions == 1 && from == enc && to == written && inputSize == descEnd : conversions == 0, "description is converted if the version does not support its encoding");
    vc::ensure(s.at(header) == (written == L1 ? 0 : wide ? 1 : 3), "encoding byte");
    if (version < 3)
        vc::ensure(s.be(header + 1, 3) == 0x504E47, "format");
    else
        vc::ensure(s.at(header + 1 + mimeEnd) == 0, "MIME-type is terminated");
    for (unsigned k = 0; version >= 3 && k != mimeEnd; ++k)
        vc::ensure(s.at(header + 1 + k) == static_cast<u8>(mime[k]), "MIME-type");
    vc::ensure(s.at(typeOffset) == type, "type");
    if (wide)
        vc::ensure(s.be(descOffset - 2, 2) == (written == LE16 ? 0xFFFE : 0xFEFF), "byte-order mark");
    vc::ensure(s.at(dataOffset - 1) == 0 && (!wide || s.at(dataOffset - 2) == 0), "description is terminated");
    for (unsigned k = 0; !converted && k != descEnd; ++k)
        vc::ensure(s.at(descOffset + k) == static_cast<u8>(desc[k]), "description");
    if (converted)
        vc::ensure(s.at(descOffset) == 'X' && s.at(descOffset + 1) == 'Y', "converted description");
    vc::assume(i < size);
    vc::ensure(s.at(dataOffset + i) == static_cast<u8>(data[i]), "data is written as is");
    vc::cover("picture");
    vc::finish();
}
// vc-bound make_picture_v22: descriptions of up to 5 bytes (data of any size)
VC_HARNESS(make_picture_v22)
{
    makePicture<2>();
}
// vc-bound make_picture_v23: descriptions of up to 5 bytes and MIME-types of up to 3 bytes (data of any size)
VC_HARNESS(make_picture_v23)
{
    makePicture<3>();
}
// vc-bound make_picture_v24: descriptions of up to 5 bytes and MIME-types of up to 3 bytes (data of any size)
VC_HARNESS(make_picture_v24)
{
    makePicture<4>();
}
// comment/lyrics: encoding byte, language, description, text of any size
template <u8 version> static void makeComment(u32 id)
{
    useConversions();
    auto enc = vc::any<TagTextEncoding>("encoding");
    vc::assume(enc < TagTextEncoding::Unspecified);
    enc = vc::split(enc);
    const auto size = vc::any<u64>("size"), i = vc::any<u64>("i");
    vc::assume(size > 0 && size < 0x80000000);
    if (!__vc_symbolic() && enc == U8 && version < 4)
        vc::finish();
    const unsigned descSize = anySize("descSize", 0, 5), langSize = anySize("langSize", 0, 4);
    const bool wideGiven = enc == LE16 || enc == BE16;
    char desc[8], lang[8];
    if (langSize)
        vc::bytes("lang", lang, langSize);
    if (descSize)
        vc::bytes("desc", desc, descSize);
    unsigned descEnd = 0;
    if (wideGiven) {
        while (descSize - descEnd >= 2 && (desc[descEnd] || desc[descEnd + 1]))
            descEnd += 2;
        if (descSize - descEnd == 1)
            descEnd = descSize;
    } else {
        while (descEnd < descSize && desc[descEnd])
            ++descEnd;
    }
    const char *const text = vc::buffer("text", size);
    vc::assume(size < 2 || ((vc::be(text, 2) != 0xFEFF) & (vc::be(text, 2) != 0xFFFE)));
    vc::assume(size < 3 || vc::be(text, 3) != 0xEFBBBF);
    TagValue value(text, size, enc);
    value.setDescription(std::string_view(desc, descSize), enc);
    if (langSize)
        value.setLocale(Locale(std::string(lang, langSize), LocaleFormat::ISO_639_2_B));
    // unknown languages are treated as absent
    vc::assume(langSize != 3 || (vc::be(lang, 3) != 0x756E64 && vc::be(lang, 3) != 0x585858));
    vc::assume(!langSize || lang[0]);
    Id3v2Frame frame(id, value);
    vc::Stream s("file", 0);
    BinaryWriter writer(&s.io);
    Diagnostics diag;
    conversions = 0;
    const auto written = version < 4 && enc == U8 ? LE16 : enc;
    const bool wide = written == LE16 || written == BE16, converted = written != enc;
    const u32 header = (version < 3 ? 6 : 10), descOffset = header + 4 + (wide ? 2 : 0);
    const u32 writtenDesc = converted ? 2 : descEnd, textOffset = descOffset + writtenDesc + (wide ? 4 : 1);
    const u64 total = textOffset + (converted ? 2 : size);
    try {
        auto maker = frame.prepareMaking(version, diag);
        maker.make(writer);
        vc::ensure(langSize <= 3, "language with more than three bytes is rejected");
        vc::ensure(maker.requiredSize() == total && s.size() == total, "as many bytes as announced are written");
    } catch (const InvalidDataException &) {
        vc::ensure(!diag.empty() && (langSize > 3 || total - header > (version < 3 ? 0xFFFFFF : version == 3 ? 0xFFFFFFFF - 16 : 0x0FFFFFFF)), "only data which is too big is rejected");
        vc::finish();
    }
    vc::ensure(conversions == (converted ? 2 : 0), "description and text are converted if the version does not support the encoding");
    vc::ensure(s.at(header) == (written == L1 ? 0 : wide ? 1 : 3), "encoding byte");
    for (unsigned k = 0; k != 3; ++k)
        vc::ensure(s.at(header + 1 + k) == (k < langSize ? static_cast<u8>(lang[k]) : 0), "language");
    if (wide)
        vc::ensure(s.be(descOffset - 2, 2) == (written == LE16 ? 0xFFFE : 0xFEFF) && s.be(textOffset - 2, 2) == s.be(descOffset - 2, 2), "byte-order marks");
    const u32 termination = descOffset + writtenDesc;
    vc::ensure(s.at(termination) == 0 && (!wide || s.at(termination + 1) == 0), "description is terminated");
    for (unsigned k = 0; !converted && k != descEnd; ++k)
        vc::ensure(s.at(descOffset + k) == static_cast<u8>(desc[k]), "description");
    if (converted) {
        vc::ensure(s.at(descOffset) == 'X' && s.at(descOffset + 1) == 'Y' && s.at(textOffset) == 'X' && s.at(textOffset + 1) == 'Y', "converted description and text");
        vc::finish();
    }
    vc::assume(i < size);
    vc::ensure(s.at(textOffset + i) == static_cast<u8>(text[i]), "text is written as is");
    vc::cover("comment");
    vc::finish();
}
// vc-bound make_comment_v22: descriptions of up to 5 bytes and language names of up to 4 bytes (text of any size)
VC_HARNESS(make_comment_v22)
{
    makeComment<2>(Id3v2FrameIds::sComment);
}
// vc-bound make_comment_v23: descriptions of up to 5 bytes and language names of up to 4 bytes (text of any size)
VC_HARNESS(make_comment_v23)
{
    makeComment<3>(Id3v2FrameIds::lComment);
}
// vc-bound make_lyrics_v24: descriptions of up to 5 bytes and language names of up to 4 bytes (text of any size)
VC_HARNESS(make_lyrics_v24)
{
    makeComment<4>(Id3v2FrameIds::lUnsynchronizedLyrics);
}

// --- tags ---
// contract of MediaFileInfo::writePadding (see write_padding)
static void writePaddingContract(std::ostream &stream, u64 size)
{
    const auto zeroes = std::make_unique<char[]>(size);
    stream.write(zeroes.get(), static_cast<std::streamsize>(size));
}
// writes a tag with up to two frames
template <u8 version> static void makeTag()
{
    vc::useContract("TagParser::MediaFileInfo::writePadding(", &writePaddingContract);
    const auto start = vc::any<u64>("start"), size1 = vc::any<u64>("size1"), size2 = vc::any<u64>("size2");
    const auto padding = vc::any<u32>("padding");
    const auto count = anySize("count", 0, 2);
    const auto i = vc::any<u64>("i");
    vc::assume(start < maxFile / 2 && size1 > 0 && size1 < 0x400000 && size2 > 0 && size2 < 0x400000 && padding < 0x1000000);
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    const char *const data1 = vc::buffer("data1", size1), *const data2 = vc::buffer("data2", size2);
    constexpr u32 id1 = version < 3 ? 0x434E55 : 0x50524956, id2 = version < 3 ? 0x554649 : 0x55464944;
    Id3v2Tag tag;
    tag.setVersion(version, 0);
    if (count > 0)
        tag.fields().emplace(id1, Id3v2Frame(id1, TagValue(data1, size1, TagDataType::Binary)));
    if (count > 1)
        tag.fields().emplace(id2, Id3v2Frame(id2, TagValue(data2, size2, TagDataType::Binary)));
    Diagnostics diag;
    auto maker = tag.prepareMaking(diag);
    constexpr u32 header = version < 3 ? 6 : 10;
    const u64 frames = (count > 0 ? header + size1 : 0) + (count > 1 ? header + size2 : 0);
    vc::ensure(maker.requiredSize() == 10 + frames, "announced size is the size of header and frames");
    maker.make(s.io, padding, diag);
    vc::ensure(s.size() == start + maker.requiredSize() + padding && s.pos() == s.size(), "as many bytes as announced and the padding are written");
    vc::ensure(s.be(start, 3) == 0x494433 && s.be(start + 3, 2) == version * 256u && s.at(start + 5) == 0, "signature, version and flags");
    const u32 raw = static_cast<u32>(s.be(start + 6, 4));
    vc::ensure(sync(raw) == frames + padding && !(raw & 0x80808080), "size denotes frames and padding");
    // unique file identifier first
    constexpr u32 idSize = version < 3 ? 3 : 4;
    if (count == 1)
        vc::ensure(s.be(start + 10, idSize) == id1, "frame");
    if (count == 2)
        vc::ensure(s.be(start + 10, idSize) == id2 && s.be(start + 10 + header + size2, idSize) == id1, "frames are written one after another in the defined order");
    const auto j = vc::any<u64>("j");
    if (count == 2) {
        vc::assume(i < size2 && j < size1);
        vc::ensure(s.at(start + 10 + header + i) == static_cast<u8>(data2[i]) && s.at(start + 10 + header + size2 + header + j) == static_cast<u8>(data1[j]), "data of all frames");
        vc::cover("two frames");
        vc::finish();
    }
    vc::assume(i < padding);
    vc::ensure(s.at(start + 10 + frames + i) == 0, "padding consists of zeroes");
    vc::cover("written");
    vc::finish();
}
// vc-bound write_padding: up to 24 KiB
VC_HARNESS(write_padding)
{
    const auto start = vc::any<u64>("start"), size = vc::any<u64>("size"), i = vc::any<u64>("i");
    vc::assume(start < maxFile / 2 && size <= 24 * 1024);
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    MediaFileInfo::writePadding(s.io, size);
    vc::ensure(s.size() == start + size && s.pos() == s.size(), "exactly the requested number of bytes is written");
    vc::assume(i < size);
    vc::ensure(s.at(start + i) == 0, "padding consists of zeroes");
    vc::finish();
}
VC_HARNESS(make_tag_v22)
{
    makeTag<2>();
}
VC_HARNESS(make_tag_v23)
{
    makeTag<3>();
}
VC_HARNESS(make_tag_v24)
{
    makeTag<4>();
}

// reads a tag with header, possibly an extended header, two frames, padding and possibly a footer
template <u8 version> static void parseTag()
{
    const auto start = vc::any<u64>("start"), maximalSize = vc::any<u64>("maximalSize"), rest = vc::any<u64>("rest");
    const unsigned size1 = anySize("size1", 1, 2), size2 = 3 - size1, padding = anySize("padding", 0, 1) * 5, ext = 8u;
    const auto flags = vc::any<u8>("flags"), revision = vc::any<u8>("revision");
    vc::assume(start < maxFile / 2 && rest < maxFile / 2 && maximalSize < maxFile);
    vc::assume(version != 3 || revision == 0);
    const bool extended = vc::split(version >= 3 && flags & 0x40), footer = vc::split(version >= 3 && flags & 0x10);
    constexpr u32 header = version < 3 ? 6 : 10, idSize = version < 3 ? 3 : 4;
    constexpr u32 id1 = version < 3 ? 0x434E55 : 0x50524956, id2 = version < 3 ? 0x554649 : 0x55464944;
    const u64 denoted = (extended ? ext : 0) + header + size1 + header + size2 + padding;
    const u64 first = start + 10 + (extended ? ext : 0), second = first + header + size1, pad = second + header + size2, end = start + 10 + denoted;
    vc::Stream s("file", end + (footer ? 10 : 0) + rest);
    // (synchsafe sizes of more than one byte are covered by parse_tag_size)
    vc::assume(s.be(start, 3) == 0x494433 && s.at(start + 3) == version && s.at(start + 4) == revision && s.at(start + 5) == flags && s.be(start + 6, 4) == denoted);
    if (extended)
        vc::assume(s.be(start + 10, 4) == ext);
    vc::assume(s.be(first, idSize) == id1 && s.be(first + idSize, idSize) == size1);
    vc::assume(s.be(second, idSize) == id2 && s.be(second + idSize, idSize) == size2);
    if (version >= 3)
        vc::assume(s.be(first + 8, 2) == 0 && s.be(second + 8, 2) == 0);
    if (padding)
        vc::assume(s.be(pad, 4) == 0);
    if (footer)
        vc::assume(s.be(end, 3) == 0x334449);
    s.io.seekg(static_cast<std::streamoff>(start));
    Id3v2Tag tag;
    Diagnostics diag;
    bool ok = true;
    try {
        tag.parse(s.io, maximalSize, diag);
    } catch (const TruncatedDataException &) {
        ok = false;
        vc::ensure(!diag.empty(), "rejection is reported");
    }
    const bool limited = maximalSize != 0;
    const u64 limit = start + maximalSize;
    if (ok || (limited && maximalSize >= 10)) {
        vc::ensure(tag.majorVersion() == version && tag.revisionVersion() == revision && tag.flags() == flags, "version and flags");
        vc::ensure(tag.size() == denoted + 10 + (footer && ok ? 10 : 0), "size of tag is the denoted one including header and footer");
    }
    if (limited && (maximalSize < 10 || (extended && maximalSize < 10 + u64(ext)) || (extended && maximalSize < 14))) {
        vc::ensure(!ok && tag.fieldCount() == 0, "tag with truncated header is rejected");
        vc::finish();
    }
    vc::ensure(ok == (!footer || !limited || maximalSize >= denoted + 20), "missing footer is reported");
    const bool has1 = !limited || limit >= second, has2 = !limited || limit >= pad;
    vc::ensure(tag.fieldCount() == unsigned(has1) + unsigned(has2), "exactly the frames within the maximum size are read");
    vc::ensure(has2 || !diag.empty(), "truncation is reported");
    if (has1) {
        const auto f = tag.fields().find(id1);
        vc::ensure(f != tag.fields().end() && f->second.value().dataSize() == size1, "first frame");
        for (unsigned i = 0; i != size1; ++i)
            vc::ensure(static_cast<u8>(f->second.value().dataPointer()[i]) == s.orig(first + header + i), "data of first frame");
    }
    if (has2) {
        const auto f = tag.fields().find(id2);
        vc::ensure(f != tag.fields().end() && f->second.value().dataSize() == size2, "second frame");
        for (unsigned i = 0; i != size2; ++i)
            vc::ensure(static_cast<u8>(f->second.value().dataPointer()[i]) == s.orig(second + header + i), "data of second frame");
        if (!limited || limit > pad)
            vc::ensure(tag.paddingSize() == padding, "padding");
    }
    vc::ensure(!ok || (limited && (limit < pad || limit < end)) || diag.empty(), "no diagnostics for a proper tag");
    vc::cover("parsed");
    vc::finish();
}
// vc-bound parse_tag_v22: tags with two frames of one or two bytes, padding of 0 or 5 bytes and an extended header of 0 or 8 bytes
VC_HARNESS(parse_tag_v22)
{
    parseTag<2>();
}
// vc-bound parse_tag_v23: tags with two frames of one or two bytes, padding of 0 or 5 bytes and an extended header of 0 or 8 bytes
VC_HARNESS(parse_tag_v23)
{
    parseTag<3>();
}
// vc-bound parse_tag_v24: tags with two frames of one or two bytes, padding of 0 or 5 bytes and an extended header of 0 or 8 bytes
VC_HARNESS(parse_tag_v24)
{
    parseTag<4>();
}
// the size of the tag and of its padding if there are no frames
VC_HARNESS(parse_tag_size)
{
    const auto start = vc::any<u64>("start"), rest = vc::any<u64>("rest");
    vc::assume(start < maxFile / 2 && rest < maxFile / 2 && rest >= 14);
    vc::Stream s("file", start + rest);
    const u32 raw = static_cast<u32>(s.be(start + 6, 4));
    const auto version = vc::split(s.at(start + 3));
    vc::assume(s.be(start, 3) == 0x494433 && s.at(start + 5) == 0 && s.be(start + 10, 4) == 0);
    s.io.seekg(static_cast<std::streamoff>(start));
    Id3v2Tag tag;
    Diagnostics diag;
    try {
        tag.parse(s.io, 0, diag);
        vc::ensure((version >= 2 && version <= 4) || !sync(raw), "only supported versions are read");
        vc::ensure(sync(raw) == 0 || tag.paddingSize() == sync(raw), "size of padding");
    } catch (const VersionNotSupportedException &) {
        vc::ensure(!tag.isVersionSupported() && !diag.empty(), "supported versions are read");
    }
    vc::ensure(tag.size() == u64(sync(raw)) + 10 && tag.fieldCount() == 0, "size of tag is the denoted one");
    vc::cover("parsed");
    vc::finish();
}
