// FLAC metadata
#include "common.h"
#include "flac/flacmetadata.h"
#include "flac/flacstream.h"
#include "flac/flactooggmappingheader.h"
#include "ogg/oggiterator.h"
#include "vorbis/vorbiscomment.h"
#include "vorbis/vorbiscommentids.h"
#include "tagvalue.h"

VC_HARNESS(block_header_parse)
{
    char b[4];
    vc::bytes("header", b, 4);
    FlacMetaDataBlockHeader h;
    h.parseHeader(std::string_view(b, 4));
    vc::ensure((h.isLast() != 0) == ((b[0] & 0x80) != 0) && h.type() == (b[0] & 0x7F) && h.dataSize() == vc::be(b + 1, 3), "flag, type and size are the denoted ones");
    vc::cover("parsed");
    vc::finish();
}
VC_HARNESS(block_header_make)
{
    const auto last = vc::any<u8>("last"), type = vc::any<u8>("type");
    const auto size = vc::any<u32>("size");
    const auto start = vc::any<u64>("start");
    vc::assume(type < 0x80 && start < maxFile / 2);
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    FlacMetaDataBlockHeader h, parsed;
    h.setLast(last);
    h.setType(static_cast<FlacMetaDataBlockType>(type));
    h.setDataSize(size);
    try {
        h.makeHeader(s.io);
    } catch (const Failure &) {
        vc::ensure(size > 0xFFFFFF && s.size() == start, "only sizes which cannot be denoted are rejected and nothing is written then");
        vc::cover("rejected");
        vc::finish();
    }
    vc::ensure(s.size() == start + 4 && s.pos() == start + 4, "four bytes are written");
    const char b[] = { static_cast<char>(s.at(start)), static_cast<char>(s.at(start + 1)), static_cast<char>(s.at(start + 2)), static_cast<char>(s.at(start + 3)) };
    parsed.parseHeader(std::string_view(b, 4));
    vc::ensure((parsed.isLast() != 0) == (last != 0) && parsed.type() == type && parsed.dataSize() == size, "header is read back unchanged");
    vc::cover("written");
    vc::finish();
}

// big endian bit field of the stream info
static u64 bits(const char *b, unsigned pos, unsigned n)
{
    u64 r = 0;
    for (unsigned i = pos; i != pos + n; ++i)
        r = (r << 1) | ((static_cast<u8>(b[i / 8]) >> (7 - i % 8)) & 1);
    return r;
}
template <typename I> static void checkStreamInfo(const I &i, const char *b, unsigned n)
{
    vc::ensure(i.minBlockSize() == vc::be(b, 2) && i.maxBlockSize() == vc::be(b + 2, 2) && i.minFrameSize() == vc::be(b + 4, 3) && i.maxFrameSize() == vc::be(b + 7, 3), "block and frame sizes");
    vc::ensure(i.samplingFrequency() == bits(b, 80, 20) && i.channelCount() == bits(b, 100, 3) + 1 && i.bitsPerSample() == bits(b, 103, 5) + 1 && i.totalSampleCount() == bits(b, 108, 36), "audio parameters");
    vc::ensure(i.md5Sum()[n] == b[18 + n], "MD5 sum");
}
VC_HARNESS(stream_info)
{
    const auto n = vc::any<u8>("n");
    vc::assume(n < 16);
    char b[34];
    vc::bytes("info", b, 34);
    FlacMetaDataBlockStreamInfo i;
    i.parse(std::string_view(b, 34));
    checkStreamInfo(i, b, n);
    vc::cover("parsed");
    vc::finish();
}
VC_HARNESS(ogg_mapping)
{
    const auto start = vc::any<u64>("start");
    const auto n = vc::any<u8>("n"), size = vc::any<u8>("size");
    vc::assume(n < 16 && start < maxFile / 2 && size < 255);
    vc::Stream s("file", start + 28 + 255);
    s.io.seekp(static_cast<std::streamoff>(start));
    s.io.write("OggS", 4);
    s.io.seekp(static_cast<std::streamoff>(start + 26));
    s.io.put(1);
    s.io.put(static_cast<char>(size));
    OggIterator it(s.io, start, start + 28 + size);
    it.reset();
    FlacToOggMappingHeader h;
    const u64 d = start + 28;
    bool ok = false;
    try {
        h.parseHeader(it);
        ok = true;
    } catch (const Failure &) {
    }
    vc::ensure(ok == (size >= 51 && s.be(d, 5) == 0x7F464C4143 && s.be(d + 9, 4) == 0x664C6143 && (s.at(d + 13) & 0x7F) == 0 && s.be(d + 14, 3) >= 34), "accepted exactly if signatures and STREAMINFO are present");
    if (!ok) {
        vc::cover("rejected");
        vc::finish();
    }
    char b[34];
    for (unsigned i = 0; i != 34; ++i)
        b[i] = static_cast<char>(s.at(d + 17 + i));
    vc::ensure(h.majorVersion() == s.at(d + 5) && h.minorVersion() == s.at(d + 6) && h.headerCount() == s.be(d + 7, 2), "version and header count");
    checkStreamInfo(h.streamInfo(), b, n);
    vc::cover("parsed");
    vc::finish();
}

VC_HARNESS(picture_parse)
{
    const auto size = vc::any<u64>("fileSize"), start = vc::any<u64>("start");
    const auto max = vc::any<u32>("max");
    const auto i = vc::any<u32>("i");
    vc::assume(start < maxFile / 2 && size <= maxFile);
    vc::Stream s("file", size);
    TagValue v;
    FlacMetaDataBlockPicture p(v);
    s.io.seekg(static_cast<std::streamoff>(start));
    try {
        p.parse(s.io, max);
    } catch (const TruncatedDataException &) {
        const u64 mime = s.be(start + 4, 4);
        const bool fits = max >= 32 && 32 + mime <= max && 32 + mime + s.be(start + 8 + mime, 4) <= max;
        vc::ensure(!fits || 32 + mime + s.be(start + 8 + mime, 4) + s.be(start + 28 + mime + s.be(start + 8 + mime, 4), 4) > max, "only pictures which do not fit are rejected as truncated");
        vc::cover("truncated");
        vc::finish();
    } catch (const std::ios_base::failure &) {
        vc::cover("end of file");
        vc::finish();
    }
    const u64 mime = s.be(start + 4, 4), desc = s.be(start + 8 + mime, 4), data = s.be(start + 28 + mime + desc, 4);
    vc::ensure(32 + mime + desc + data <= max && s.pos() == start + 32 + mime + desc + data, "exactly the denoted bytes are consumed and those do not exceed the block");
    vc::ensure(p.pictureType() == s.be(start, 4) && v.mimeType().size() == mime && v.description().size() == desc && v.dataSize() == data, "sizes are the denoted ones");
    if (i < mime)
        vc::ensure(static_cast<u8>(v.mimeType()[i]) == s.at(start + 8 + i), "MIME-type");
    if (i < desc)
        vc::ensure(static_cast<u8>(v.description()[i]) == s.at(start + 12 + mime + i), "description");
    if (i < data)
        vc::ensure(v.type() == TagDataType::Picture && static_cast<u8>(v.dataPointer()[i]) == s.at(start + 32 + mime + desc + i), "picture data");
    vc::cover("parsed");
    vc::finish();
}
VC_HARNESS(picture_make)
{
    const auto type = vc::any<u32>("type"), mime = vc::any<u32>("mime"), desc = vc::any<u32>("desc"), data = vc::any<u32>("data"), i = vc::any<u32>("i");
    const auto start = vc::any<u64>("start");
    vc::assume(start < maxFile / 2 && data);
    char *const m = vc::buffer("mimeBuffer", mime), *const d = vc::buffer("descBuffer", desc), *const b = vc::buffer("dataBuffer", data);
    TagValue v(b, data, TagDataType::Picture), v2;
    v.setMimeType(std::string_view(m, mime));
    v.setDescription(std::string_view(d, desc));
    FlacMetaDataBlockPicture p(v), p2(v2);
    p.setPictureType(type);
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    u32 required = 0;
    try {
        required = p.requiredSize();
    } catch (const Failure &) {
        vc::ensure(u64(32) + mime + desc + data > 0xFFFFFFFF, "only pictures which cannot be denoted are rejected");
        vc::cover("rejected");
        vc::finish();
    }
    p.make(s.io);
    vc::ensure(required == u64(32) + mime + desc + data && s.size() == start + required && s.pos() == start + required, "announced size is written");
    s.io.seekg(static_cast<std::streamoff>(start));
    p2.parse(s.io, required);
    vc::ensure(s.pos() == start + required, "everything which has been written is read back");
    vc::ensure(p2.pictureType() == type && v2.mimeType().size() == mime && v2.description().size() == desc && v2.dataSize() == data, "type and sizes are read back");
    if (i < mime)
        vc::ensure(v2.mimeType()[i] == m[i], "MIME-type is read back");
    if (i < desc)
        vc::ensure(v2.description()[i] == d[i], "description is read back");
    if (i < data)
        vc::ensure(v2.dataPointer()[i] == b[i], "picture data is read back");
    vc::cover("written");
    vc::finish();
}

// specification of a chain of metadata blocks
struct Chain {
    Chain(vc::Stream &s, u64 start)
        : s(s)
    {
        vc::ensure(s.be(start, 4) == 0x664C6143, "signature is written");
        u64 offset = start + 4;
        for (bool last = false; !last; ++count) {
            vc::ensure(count < 8 && offset + 4 <= s.size(), "chain of blocks ends with a block marked as last one");
            auto &b = blocks[count];
            b.offset = offset;
            b.type = vc::split(static_cast<u8>(s.at(offset) & 0x7F));
            b.size = s.be(offset + 1, 3);
            last = s.at(offset) & 0x80;
            offset += 4 + b.size;
        }
        vc::ensure(offset == s.size() && s.pos() == offset, "chain of blocks ends exactly where writing ended");
    }
    vc::Stream &s;
    struct {
        u64 offset, size;
        u8 type;
    } blocks[8];
    unsigned count = 0;
};
struct FlacFixture {
    FlacFixture(u64 start)
        : source(file.stream(), "source", start)
        , start(start)
        , out("out", 0)
    {
        source.io.seekp(static_cast<std::streamoff>(start));
        source.io.write("fLaC", 4);
    }
    // writes a block
    void block(bool last, u8 type, u32 size)
    {
        source.io.put(static_cast<char>((last ? 0x80 : 0) | type));
        source.io.put(static_cast<char>(size >> 16));
        source.io.put(static_cast<char>(size >> 8));
        source.io.put(static_cast<char>(size));
        if (type != 1 && type != 4 && type != 6)
            kept[keptCount++] = { source.pos() - 4, size + 4, type };
        const u64 next = source.pos() + size;
        if (last) { // at least one byte of audio data
            source.io.seekp(static_cast<std::streamoff>(next));
            source.io.put(0);
        }
        source.io.seekp(static_cast<std::streamoff>(next));
    }
    void make(FlacStream &stream, u64 i)
    {
        const u64 sourceSize = source.size();
        source.io.seekg(3); // any position
        const u64 r = static_cast<u64>(stream.makeHeader(out.io, diag));
        const Chain c(out, 0);
        vc::ensure(r == c.blocks[c.count - 1].offset, "offset of the last block is returned");
        vc::ensure(c.count >= keptCount, "kept blocks are written");
        for (unsigned k = 0; k != keptCount; ++k) {
            vc::ensure(c.blocks[k].type == kept[k].type && c.blocks[k].size + 4 == kept[k].size, "kept blocks are written in order, using the same type and size");
            if (i >= 4 && i < kept[k].size)
                vc::ensure(out.at(c.blocks[k].offset + i) == source.at(kept[k].offset + i), "data of kept blocks is unchanged");
        }
        vc::ensure(source.size() == sourceSize, "original file is not modified");
        added = c.count - keptCount;
        for (unsigned k = 0; k != added; ++k) {
            types[k] = c.blocks[keptCount + k].type;
            offsets[k] = c.blocks[keptCount + k].offset + 4;
            sizes[k] = c.blocks[keptCount + k].size;
        }
    }
    MediaFileInfo file;
    vc::Stream source;
    u64 start;
    vc::Stream out;
    Diagnostics diag;
    struct {
        u64 offset, size;
        u8 type;
    } kept[4];
    unsigned keptCount = 0, added = 0;
    u8 types[8];
    u64 offsets[8], sizes[8];
};
static void addCover(VorbisComment &c, const char *name, u32 size, u32 type)
{
    VorbisCommentField f(std::string(VorbisCommentIds::cover()), TagValue(vc::buffer(name, size), size, TagDataType::Picture));
    f.setTypeInfo(type);
    c.fields().emplace(f.id(), std::move(f));
}

static void makeHeader(u8 k, unsigned n)
{
    const auto start = vc::any<u64>("start"), i = vc::any<u64>("i");
    const auto size1 = vc::any<u32>("size1"), size2 = vc::any<u32>("size2"), cover1 = vc::any<u32>("cover1"), cover2 = vc::any<u32>("cover2"), type1 = vc::any<u32>("type1"), type2 = vc::any<u32>("type2");
    vc::assume(start < maxFile / 2 && size1 <= 0xFFFFFF && size2 <= 0xFFFFFF && cover1 && cover2 && cover1 <= 0x2000000 && cover2 <= 0x2000000);
    FlacFixture f(start);
    f.block(k == 7, 0, size1);
    if (k != 7)
        f.block(true, k, size2);
    FlacStream stream(f.file, start);
    if (n) {
        auto *const c = stream.createVorbisComment();
        if (n > 1)
            addCover(*c, "coverData1", cover1, type1);
        if (n > 2)
            addCover(*c, "coverData2", cover2, type2);
    }
    f.make(stream, i);
    vc::ensure(n ? f.added >= 1 && f.types[0] == 4 : f.added == 0, "Vorbis comment is written after kept blocks exactly if there is one");
    const bool fits1 = n > 1 && cover1 + 32 <= 0xFFFFFF, fits2 = n > 2 && cover2 + 32 <= 0xFFFFFF;
    if (n)
        vc::ensure(f.added == 1u + fits1 + fits2, "a block is written for each picture which can be denoted");
    unsigned x = 1;
    if (fits1) {
        vc::ensure(f.types[x] == 6 && f.sizes[x] == cover1 + 32 && f.out.be(f.offsets[x], 4) == type1, "block of first picture");
        ++x;
    }
    if (fits2)
        vc::ensure(f.types[x] == 6 && f.sizes[x] == cover2 + 32 && f.out.be(f.offsets[x], 4) == type2, "block of second picture");
    vc::ensure((n > 1 && !fits1) + (n > 2 && !fits2) == 0 || f.diag.has(DiagLevel::Critical), "pictures which cannot be written are reported");
    vc::cover("written");
    vc::finish();
}
// vc-bound make_header: original files with up to two metadata blocks of any type and size
VC_HARNESS(make_header)
{
    const auto kind = vc::any<u8>("kind");
    const auto comment = vc::any<bool>("comment");
    vc::assume(kind <= 7);
    makeHeader(vc::split(kind), vc::split(comment));
}
// vc-bound make_header_picture: original files with up to two metadata blocks of any size
VC_HARNESS(make_header_picture)
{
    const auto kind = vc::any<u8>("kind");
    vc::assume(kind == 1 || kind == 2 || kind == 7);
    makeHeader(vc::split(kind), 2);
}
// vc-bound make_header_pictures: original files with one metadata block of any size
VC_HARNESS(make_header_pictures)
{
    makeHeader(7, 3);
}
VC_HARNESS(padding)
{
    const auto size = vc::any<u32>("size"), i = vc::any<u32>("i");
    const auto last = vc::any<bool>("last");
    vc::assume(size >= 4 && size < 40000 && i >= 4 && i < size);
    vc::Stream s("file", 0);
    Diagnostics diag;
    MediaFileInfo file;
    FlacStream stream(file, 0);
    stream.makePadding(s.io, size, last, diag);
    vc::ensure(s.size() == size && s.be(1, 3) == size - 4 && s.at(0) == (last ? 0x81 : 1), "padding block is exactly as big as requested");
    vc::ensure(s.at(i) == 0, "padding consists of zeroes");
    vc::cover("written");
    vc::finish();
}
// vc-bound parse_stream: streams with the fixed sequence STREAMINFO, padding, picture, comment, application block, padding of any size and content
VC_HARNESS(parse_stream)
{
    const auto start = vc::any<u64>("start");
    const auto pad1 = vc::any<u32>("pad1"), pad2 = vc::any<u32>("pad2"), app = vc::any<u32>("app"), cover = vc::any<u32>("cover"), i = vc::any<u32>("i");
    vc::assume(start < maxFile / 4 && pad1 <= 0xFFFFFF && pad2 <= 0xFFFFFF && app <= 0xFFFFFF && cover && cover <= 0xFFFFFF - 32 && i < cover);
    FlacFixture f(start);
    f.block(false, 0, 34);
    f.block(false, 1, pad1);
    f.block(false, 6, 32 + cover);
    const u64 picture = f.source.pos() - 32 - cover;
    f.source.io.seekp(static_cast<std::streamoff>(picture + 4));
    f.source.io.write("\0\0\0\0\0\0\0\0", 8);
    f.source.io.seekp(static_cast<std::streamoff>(picture + 28));
    for (int n = 24; n >= 0; n -= 8)
        f.source.io.put(static_cast<char>(cover >> n));
    f.source.io.seekp(static_cast<std::streamoff>(picture + 32 + cover));
    f.block(false, 4, 8);
    f.source.io.seekp(-8, std::ios_base::cur);
    f.source.io.write("\0\0\0\0\0\0\0\0", 8);
    f.block(false, 2, app);
    f.block(true, 1, pad2);
    const u64 end = f.source.pos();
    FlacStream stream(f.file, start);
    AbortableProgressFeedback progress;
    stream.parseHeader(f.diag, progress);
    char b[34];
    for (unsigned n = 0; n != 34; ++n)
        b[n] = static_cast<char>(f.source.at(start + 8 + n));
    vc::ensure(stream.samplingFrequency() == bits(b, 80, 20) && stream.channelCount() == bits(b, 100, 3) + 1 && stream.bitsPerSample() == bits(b, 103, 5) + 1 && stream.sampleCount() == bits(b, 108, 36), "audio parameters");
    vc::ensure(stream.streamOffset() == static_cast<u32>(end), "audio data starts after the last block");
    vc::ensure(stream.paddingSize() == 8 + pad1 + pad2, "all padding blocks are counted including their headers");
    vc::ensure(stream.vorbisComment() && stream.vorbisComment()->fields().size() == 1, "picture is available via the comment");
    const auto &field = stream.vorbisComment()->fields().begin()->second;
    vc::ensure(field.id() == VorbisCommentIds::cover() && field.typeInfo() == f.source.be(picture, 4) && field.value().dataSize() == cover, "ID, type and size of picture");
    vc::ensure(static_cast<u8>(field.value().dataPointer()[i]) == f.source.at(picture + 32 + i), "data of picture");
    vc::cover("parsed");
    vc::finish();
}
