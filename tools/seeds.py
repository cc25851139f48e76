BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))

bug("B01", "P01", "a size of exactly 2^42-1 (6 byte all-ones pattern)", "a size which needs the reserved all-ones pattern is written with it and hence read as unknown size",
    [("matroska/ebmlelement.cpp", "minBytes <= 6 && size <= 4398046511102ul", "minBytes <= 6 && size <= 4398046511103ul")],
    r'''#include "matroska/ebmlelement.h"
int main() {
    char b[8] = {};
    const std::uint64_t v = 4398046511103ull;
    CHECK(TagParser::EbmlElement::makeSizeDenotation(v, b, 1) == TagParser::EbmlElement::calculateSizeDenotationLength(v));
    return 0;
}
''')
bug("B02", "P01", "an integer element with a value between 2^40 and 2^48 whose announced size is computed separately", "announced length of integers differs from written length for one range",
    [("matroska/ebmlelement.cpp", "    } else if (integer <= 0xFFFFFFFFFFul) {", "    } else if (integer < 0xFFFFFFFFFFul) {")],
    r'''#include "matroska/ebmlelement.h"
int main() {
    char b[8] = {};
    for (std::uint64_t v = 1; v; v <<= 1)
        for (std::uint64_t x : { v - 1, v })
            CHECK(TagParser::EbmlElement::makeUInteger(x, b) == TagParser::EbmlElement::calculateUIntegerLength(x));
    return 0;
}
''')
EBMLDEMO = r'''#include "matroska/ebmlelement.h"
#include "matroska/matroskacontainer.h"
#include "mediafileinfo.h"
#include "diagnostics.h"
using namespace TagParser;
static std::stringstream mk(const std::string &s) { std::stringstream x(std::ios_base::in | std::ios_base::out | std::ios_base::binary); x << s; x.exceptions(std::ios_base::badbit | std::ios_base::failbit); return x; }
'''
bug("B03", "P02", "an element in a parent of unknown size which is followed by a level 1 element, i.e. a live recording with two clusters", "the extent of a preceding cluster of unknown size ends too late (header size not subtracted)",
    [("matroska/ebmlelement.cpp", "m_parent->m_dataSize = m_startOffset - m_parent->m_startOffset - m_parent->headerSize();", "m_parent->m_dataSize = m_startOffset - m_parent->m_startOffset;")],
    EBMLDEMO + r'''
int main() {
    const std::string data("\x18\x53\x80\x67\xff\x1f\x43\xb6\x75\xff\xe7\x81\x01\x1f\x43\xb6\x75\xff\xe7\x81\x02", 21);
    auto s = mk(data);
    MediaFileInfo file; file.reportSizeChanged(data.size());
    MatroskaContainer c(file, 0); c.setStream(s);
    EbmlElement e(c, 0); Diagnostics diag;
    e.parse(diag);
    auto *cl = e.firstChild(); cl->parse(diag);
    auto *t = cl->firstChild(); t->parse(diag);
    auto *n = t->nextSibling(); n->parse(diag);
    CHECK(n->id() == cl->id() && cl->nextSibling() == n);
    CHECK(cl->endOffset() == n->startOffset());
    return 0;
}
''')
bug("B04", "P02", "a truncated file in which an element's size descriptor claims more than what is available by less than the header size", "extent of an element exceeds the available bytes",
    [("matroska/ebmlelement.cpp", "            if (totalSize() > maxTotalSize()) {", "            if (dataSize() > maxTotalSize()) {")],
    EBMLDEMO + r'''
int main() {
    const std::string data("\xec\x86" "12345", 7);
    auto s = mk(data);
    MediaFileInfo file; file.reportSizeChanged(data.size());
    MatroskaContainer c(file, 0); c.setStream(s);
    EbmlElement e(c, 0); Diagnostics diag;
    e.parse(diag);
    CHECK(e.endOffset() <= data.size());
    return 0;
}
''')
MP4DEMO = EBMLDEMO.replace("matroska/ebmlelement.h", "mp4/mp4atom.h").replace("matroska/matroskacontainer.h", "mp4/mp4container.h") + '#include "mp4/mpeg4descriptor.h"\n#include <c++utilities/io/binarywriter.h>\n'
bug("B05", "P03", "an atom with size zero (rest of the file) with a 64-bit sized predecessor, within a parent", "atom extending to the end of its parent is assigned the wrong data size: header subtracted twice",
    [("mp4/mp4atom.cpp", "        m_dataSize = maxTotalSize();\n    }\n    if (!m_dataSize) {", "        m_dataSize = maxTotalSize() > 0xFFFFFFFFu ? 0xFFFFFFFFu : maxTotalSize();\n    }\n    if (!m_dataSize) {")],
    MP4DEMO + r'''
int main() {
    const std::string data(std::string("\0\0\0\0mdat", 8));
    auto s = mk(data);
    MediaFileInfo file; file.reportSizeChanged(0x300000000ull);
    Mp4Container c(file, 0); c.setStream(s);
    Mp4Atom e(c, 0); Diagnostics diag;
    e.parse(diag);
    CHECK(e.endOffset() == 0x300000000ull);
    return 0;
}
''')
bug("B06", "P03", "data size of 0xFFFFFFF8..0xFFFFFFFF bytes (just below 4 GiB)", "size added for the header does not match the header which is written",
    [("mp4/mp4atom.h", "dataSize < 0xFFFFFFF7 ? 8 : 16", "dataSize <= 0xFFFFFFFF ? 8 : 16")],
    MP4DEMO + r'''
int main() {
    for (std::uint64_t d : {100ull, 0xFFFFFFF0ull, 0xFFFFFFF7ull, 0xFFFFFFF8ull, 0xFFFFFFFFull, 0x100000000ull}) {
        std::uint64_t t = d;
        Mp4Atom::addHeaderSize(t);
        std::stringstream s;
        CppUtilities::BinaryWriter w(&s);
        Mp4Atom::makeHeader(t, 0x66726565, w);
        CHECK(s.str().size() == t - d);
    }
    return 0;
}
''')
bug("B07", "P04", "a descriptor whose size is denoted using four bytes with bits set beyond the second one", "size of descriptor is not the denoted one",
    [("mp4/mpeg4descriptor.cpp", "m_dataSize = (m_dataSize << 7) |", "m_dataSize = (m_dataSize << (m_sizeLength < 3 ? 7 : 8)) |")],
    MP4DEMO + r'''
int main() {
    const std::string data(std::string("\x03\x81\x82\x83\x04", 5));
    auto s = mk(data);
    MediaFileInfo file; file.reportSizeChanged(data.size());
    Mp4Container c(file, 0); c.setStream(s);
    Mpeg4Descriptor e(c, 0, 0x10000000); Diagnostics diag;
    e.parse(diag);
    CHECK(e.dataSize() == ((1u << 21) | (2u << 14) | (3u << 7) | 4));
    return 0;
}
''')
bug("B08", "P04", "a nested descriptor which is followed by a sibling in an outer descriptor that has trailing bytes", "sibling of the nested descriptor may take bytes beyond its parent",
    [("mp4/mpeg4descriptor.cpp", "        m_nextSibling.reset(new Mpeg4Descriptor(*(parent()), startOffset() + totalSize()));", "        m_nextSibling.reset(new Mpeg4Descriptor(container(), startOffset() + totalSize(), parent()->maxTotalSize() - totalSize()));")],
    MP4DEMO + r'''
int main() {
    const std::string data(std::string("\x03\x06\x04\x01.\x05\x01.\x06\x01.", 11));
    auto s = mk(data);
    MediaFileInfo file; file.reportSizeChanged(data.size());
    Mp4Container c(file, 0); c.setStream(s);
    Mpeg4Descriptor e(c, 0, 11); Diagnostics diag;
    e.parse(diag);
    auto *f = e.denoteFirstChild(2); f->parse(diag);
    auto *n = f->nextSibling(); CHECK(n); n->parse(diag);
    CHECK(n->startOffset() == 5 && n->maxTotalSize() == 3 && !n->nextSibling());
    return 0;
}
''')
OGGDEMO = r'''#include "ogg/oggiterator.h"
#include "ogg/oggpage.h"
#include "exceptions.h"
using namespace TagParser;
static std::string page(std::uint32_t serial, const std::vector<int> &lacing, char fill, int flags = 0)
{
    std::string r("OggS\0", 5);
    r += static_cast<char>(flags);
    r.append(8, '\0');
    for (int i = 0; i != 4; ++i) r += static_cast<char>(serial >> (8 * i));
    r.append(8, '\0');
    r += static_cast<char>(lacing.size());
    for (int l : lacing) r += static_cast<char>(l);
    for (int l : lacing) r.append(static_cast<std::size_t>(l), fill++);
    return r;
}
static std::stringstream mk(const std::string &s) { std::stringstream x(std::ios_base::in | std::ios_base::out | std::ios_base::binary); x << s; x.exceptions(std::ios_base::badbit | std::ios_base::failbit); return x; }
'''
bug("B09", "P05", "a page with an empty segment in the middle which is followed by a segment of more than 254 bytes", "zero lacing value after a complete run does not terminate a segment; number and offsets of segments wrong",
    [("ogg/oggpage.cpp", "if (++i < m_segmentCount && entry < 0xFF) {", "if (++i < m_segmentCount && entry < 0xFF && (entry || i == 1 || m_segmentSizes.back())) {")],
    OGGDEMO + r'''
int main() {
    auto s = mk(page(1, {10, 0, 255, 7}, 'a'));
    OggPage p; p.parseHeader(s, 0, 1000);
    CHECK(p.segmentSizes() == (std::vector<std::uint32_t>{10, 0, 262}));
    CHECK(p.dataOffset(2) == 27 + 4 + 10);
    return 0;
}
''')
bug("B10", "P05", "a page with more than 127 lacing values", "bytes of big pages are missing in the checksum (segment count treated as signed)",
    [("ogg/oggpage.cpp", "segmentLength += (segmentTableSize = (value = static_cast<std::uint8_t>(stream.get())));", "segmentLength += static_cast<std::uint32_t>((segmentTableSize = (value = static_cast<std::uint8_t>(stream.get()))) & 0x7F);")],
    OGGDEMO + r'''
int main() {
    const auto d = page(1, std::vector<int>(200, 1), 'a');
    auto s = mk(d + "xxxx");
    std::uint32_t crc = 0;
    for (unsigned char c : d) { crc ^= std::uint32_t(c) << 24; for (int i = 0; i != 8; ++i) crc = crc & 0x80000000u ? (crc << 1) ^ 0x04c11db7u : crc << 1; }
    CHECK(OggPage::computeChecksum(s, 0) == crc);
    return 0;
}
''')
bug("B11", "P06", "a read which ends exactly at the end of a segment followed by another read, with a filter", "reading exactly up to the end of a page and continuing skips or repeats bytes: state advanced twice",
    [("ogg/oggiterator.cpp", "            stream().read(buffer + bytesRead, static_cast<std::streamsize>(count));\n            m_bytesRead += count;\n            return;", "            stream().read(buffer + bytesRead, static_cast<std::streamsize>(count));\n            m_bytesRead += count;\n            if (count == available && m_segment + 1 == m_pages[m_page].segmentSizes().size()) {\n                ++m_page;\n                m_segment = 0;\n                m_bytesRead = 0;\n            }\n            return;")],
    OGGDEMO + r'''
int main() {
    const auto d = page(1, {4}, 'a') + page(2, {4}, 'x') + page(1, {4}, 'b');
    auto s = mk(d);
    OggIterator it(s, 0, d.size());
    it.setFilter(1); it.reset();
    char b[8] = {};
    it.read(b, 4); it.read(b + 4, 4);
    CHECK(!std::memcmp(b, "aaaabbbb", 8));
    return 0;
}
''')
bug("B12", "P06", "going back from the first segment of a page to a page with several segments", "after going back to the previous page the offset is the one of the page's first segment",
    [("ogg/oggiterator.cpp", "            m_offset = page.dataOffset(m_segment = page.segmentSizes().size() - 1);", "            m_offset = page.startOffset() + page.headerSize() + (m_segment = page.segmentSizes().size() - 1) * page.segmentSizes().front();")],
    OGGDEMO + r'''
int main() {
    const auto d = page(1, {4, 5, 6}, 'a') + page(1, {4}, 'x');
    auto s = mk(d);
    OggIterator it(s, 0, d.size());
    it.reset(); ++it; ++it; ++it;
    CHECK(it.currentPageIndex() == 1);
    --it;
    CHECK(it.currentPageIndex() == 0 && it.currentSegmentIndex() == 2 && it.currentSegmentOffset() == 27 + 3 + 9);
    return 0;
}
''')
FLACDEMO = r'''#include "flac/flacmetadata.h"
#include "flac/flacstream.h"
#include "vorbis/vorbiscomment.h"
#include "vorbis/vorbiscommentids.h"
#include "mediafileinfo.h"
#include "diagnostics.h"
#include "progressfeedback.h"
#include "exceptions.h"
#include "tagvalue.h"
using namespace TagParser;
static std::string block(bool last, int type, const std::string &data)
{
    std::string r;
    r += static_cast<char>((last ? 0x80 : 0) | type);
    for (int i = 16; i >= 0; i -= 8) r += static_cast<char>(data.size() >> i);
    return r + data;
}
static void write(const std::string &path, const std::string &data) { std::ofstream(path, std::ios::binary) << data; }
static void cover(VorbisComment &c, std::size_t size, unsigned type)
{
    std::string d(size, 'x');
    VorbisCommentField f(std::string(VorbisCommentIds::cover()), TagValue(d.data(), d.size(), TagDataType::Picture));
    f.setTypeInfo(type);
    c.fields().emplace(f.id(), std::move(f));
}
// checks the chain and returns the block types
static std::string chain(const std::string &s)
{
    if (s.substr(0, 4) != "fLaC") return "bad";
    std::string r;
    for (std::size_t o = 4;;) {
        if (o + 4 > s.size()) return "bad";
        r += static_cast<char>('0' + (s[o] & 0x7F));
        const bool last = s[o] & 0x80;
        o += 4 + (static_cast<unsigned char>(s[o + 1]) << 16 | static_cast<unsigned char>(s[o + 2]) << 8 | static_cast<unsigned char>(s[o + 3]));
        if (last) return o == s.size() ? r : "bad";
    }
}
'''
bug("B13", "P07", "FLAC file whose last kept metadata block is empty, without comment", "a block of no data is not marked as last one when the blocks after it are dropped",
    [("flac/flacstream.cpp", "            lastActuallyWrittenHeader = header;\n        }\n    } while", "            if (header.dataSize()) {\n                lastActuallyWrittenHeader = header;\n            }\n        }\n    } while")],
    FLACDEMO + r'''
int main() {
    write("t.flac", "fLaC" + block(false, 0, std::string(34, 'i')) + block(true, 2, "") + "audio");
    MediaFileInfo file(std::string("t.flac")); file.open(true);
    FlacStream s(file, 0);
    cover(*s.createVorbisComment(), 100, 3);
    std::stringstream out(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    Diagnostics diag;
    s.makeHeader(out, diag);
    CHECK(chain(out.str()) == "0246");
    return 0;
}
''')
bug("B14", "P07", "a stream with more than 2^32 samples", "total sample count is truncated to 32 bit",
    [("flac/flacmetadata.cpp", "    m_totalSampleCount = reader.readBits<std::uint64_t>(36);", "    reader.skipBits(4);\n    m_totalSampleCount = reader.readBits<std::uint32_t>(32);")],
    FLACDEMO + r'''
int main() {
    std::string d(34, '\xff');
    FlacMetaDataBlockStreamInfo i; i.parse(d);
    CHECK(i.totalSampleCount() == 0xFFFFFFFFFull && i.bitsPerSample() == 32);
    return 0;
}
''')
bug("B15", "P07", "two pictures of which the last one is too big to be written", "no block is marked as last one if the last picture cannot be written and there is another one",
    [("flac/flacstream.cpp", "    if (!lastActuallyWrittenHeader.isLast()) {\n        outputStream.seekp(lastStartOffset);", "    if (!lastActuallyWrittenHeader.isLast() && lastActuallyWrittenHeader.type() != FlacMetaDataBlockType::Picture) {\n        outputStream.seekp(lastStartOffset);")],
    FLACDEMO + r'''
int main() {
    write("t.flac", "fLaC" + block(true, 0, std::string(34, 'i')) + "audio");
    MediaFileInfo file(std::string("t.flac")); file.open(true);
    FlacStream s(file, 0);
    cover(*s.createVorbisComment(), 100, 3);
    cover(*s.createVorbisComment(), 0x1000000, 4);
    std::stringstream out(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    Diagnostics diag;
    s.makeHeader(out, diag);
    CHECK(chain(out.str()) == "046");
    return 0;
}
''')
ID3V1DEMO = r'''#include "id3/id3v1tag.h"
#include "tagvalue.h"
#include "diagnostics.h"
using namespace TagParser;
static std::string made(Id3v1Tag &t) { std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary); Diagnostics d; t.make(s, d); return s.str(); }
static std::string base() { std::string b("TAG"); b.resize(128, '\0'); return b; }
'''
bug("B16", "P08", "a tag with track number 255", "the biggest track number which can be stored is dropped when writing the tag",
    [("id3/id3v1tag.cpp", "position < 0x00 || position > 0xFF", "position < 0x00 || position >= 0xFF")],
    ID3V1DEMO + r'''
int main() {
    Id3v1Tag t;
    t.setValue(KnownField::TrackPosition, TagValue(PositionInSet(255)));
    const auto d = made(t);
    CHECK(d.size() == 128 && static_cast<unsigned char>(d[126]) == 255);
    return 0;
}
''')
bug("B17", "P08", "an UTF-8 value with non-ASCII characters of almost exactly the size of the field", "the space taken by the BOM is not considered if the value fits otherwise; overflows the field buffer",
    [("id3/id3v1tag.cpp", "            valueLength -= 3;\n", "            valueLength -= valueAsString.size() > length ? 3 : 0;\n")],
    ID3V1DEMO + r'''
int main() {
    Id3v1Tag t;
    const std::string v = "\xC3\xA4" + std::string(26, 'x');
    t.setValue(KnownField::Title, TagValue(v, TagTextEncoding::Utf8));
    alignas(64) const auto d = made(t);
    CHECK(d.size() == 128 && d.substr(0, 3) == "TAG");
    CHECK(d.substr(3, 30) == "\xEF\xBB\xBF" + v.substr(0, 27));
    // the field must not be written past its end: check with the year field which is only 4 bytes long
    for (std::size_t n = 0; n < 64; ++n) {
        Id3v1Tag t2;
        t2.setValue(KnownField::RecordDate, TagValue("\xC3\xA4" + std::string(n, 'y'), TagTextEncoding::Utf8));
        const auto y = made(t2);
        CHECK(y.size() == 128 && y.substr(93, 4) == std::string("\xEF\xBB\xBF\xC3", 4));
    }
    // watch the memory directly behind a field which is as big as the buffer
    struct Probe : public std::streambuf {
        std::streamsize xsputn(const char *s, std::streamsize n) override { if (n == 30 && first) { first = false; after.assign(s + 30, 1); } return n; }
        int overflow(int c) override { return c; }
        bool first = true;
        std::string after;
    } p;
    for (int round = 0; round < 2; ++round) {
        Id3v1Tag t3;
        t3.setValue(KnownField::Title, TagValue(std::string(1, round ? '\xC3' : 'a') + std::string(28, round ? '\x51' : 'x'), TagTextEncoding::Utf8));
        p.first = true;
        std::ostream o(&p);
        Diagnostics dd;
        t3.make(o, dd);
        CHECK(p.after != "\x51");
    }
    return 0;
}
''')
bug("B18", "P08", "an ID3v1.1 tag where the track number is zero", "version and comment of the tag are determined wrongly when the last byte of the comment is used",
    [("id3/id3v1tag.cpp", "const auto is11 = buffer[125] == 0;", "const auto is11 = buffer[125] == 0 && buffer[126] != 0;")],
    ID3V1DEMO + r'''
int main() {
    auto b = base();
    b.replace(97, 3, "abc");
    std::stringstream s(b);
    Id3v1Tag t; Diagnostics d;
    t.parse(s, d);
    CHECK(t.version() == "1.1");
    return 0;
}
''')
VALDEMO = r'''#include "tagvalue.h"
using namespace TagParser;
'''
bug("B19", "P09", "an unsigned value beyond the range of int which is converted to a track position", "the value is silently truncated instead of being refused",
    [("tagvalue.cpp", "            if (track < std::numeric_limits<std::int32_t>::max()) {", "            if (track <= std::numeric_limits<std::uint32_t>::max()) {")],
    VALDEMO + r'''
int main() {
    try {
        const auto p = TagValue(std::uint64_t(3000000000u)).toPositionInSet();
        CHECK(static_cast<std::int64_t>(p.position()) == 3000000000ll);
    } catch (const CppUtilities::ConversionException &) {
    }
    return 0;
}
''')
bug("B20", "P09", "copying a value with a description of non-default encoding by assignment", "the copy has another description encoding",
    [("tagvalue.cpp", "    m_encoding = other.m_encoding;\n    m_descEncoding = other.m_descEncoding;\n    if (other.isEmpty()) {", "    m_encoding = other.m_encoding;\n    if (!other.isEmpty()) {\n        m_descEncoding = other.m_descEncoding;\n    }\n    if (other.isEmpty()) {")],
    VALDEMO + r'''
int main() {
    TagValue a; a.setDescription("abc", TagTextEncoding::Utf8);
    TagValue b; b = a;
    CHECK(b.descriptionEncoding() == TagTextEncoding::Utf8 && b.description() == "abc");
    return 0;
}
''')
bug("B21", "P09", "an UTF-16 text which only consists of the byte-order mark", "the byte-order mark of an otherwise empty text is kept as part of the value",
    [("tagvalue.cpp", "        if ((length >= 2) && (LE::toInt<std::uint16_t>(text) == 0xFEFF)) {", "        if ((length > 2) && (LE::toInt<std::uint16_t>(text) == 0xFEFF)) {")],
    VALDEMO + r"""
int main() {
    const char d[] = { char(0xFF), char(0xFE) };
    TagValue v(d, 2, TagTextEncoding::Utf16LittleEndian);
    CHECK(v.isEmpty() && v.dataSize() == 0);
    return 0;
}
""")
ID3V2DEMO = r'''#include "id3/id3v2frame.h"
#include "id3/id3v2frameids.h"
#include "id3/id3v2tag.h"
#include "tagvalue.h"
#include "diagnostics.h"
using namespace TagParser;
'''
bug("B22", "P10", "a play counter which needs exactly five bytes", "bytes of a big play counter are dropped when writing the frame",
    [("id3/id3v2frame.cpp", "    for (playCounter >>= 32; playCounter;", "    for (playCounter >>= 40; playCounter;")],
    ID3V2DEMO + r'''
int main() {
    Id3v2Frame f;
    f.setId(Id3v2FrameIds::lPlayCounter);
    f.setValue(TagValue(std::uint64_t(0x1234567890ull)));
    Diagnostics d;
    auto m = f.prepareMaking(4, d);
    CHECK(m.requiredSize() == 10 + 5);
    return 0;
}
''')
bug("B23", "P10", "a picture with an UTF-16 description in an ID3v2.2 tag", "the BOM is not accounted for, so the buffer is written past its end",
    [("id3/id3v2frame.cpp", "    const auto requiredBufferSize = 1 + 3 + 1 + descriptionSize\n        + (descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 4 : 1)",
      "    const auto requiredBufferSize = 1 + 3 + 1 + descriptionSize\n        + (convertedDescription.first ? 2 : (descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 4 : 1))")],
    ID3V2DEMO + r'''
int main() {
    TagValue v("DATA", 4, TagDataType::Picture);
    v.setMimeType("image/png");
    v.setDescription("abc", TagTextEncoding::Utf8);
    std::unique_ptr<char[]> b; std::uint32_t n = 0; Diagnostics d;
    Id3v2Frame::makePicture(b, n, v, 3, 2, d);
    CHECK(n == 1 + 3 + 1 + 2 + 6 + 2 + 4);
    return 0;
}
''')
bug("B24", "P10", "a frame which belongs to a group", "the announced size of frames with group information does not match what is written",
    [("id3/id3v2frame.cpp", "        if (m_frame.hasGroupInformation()) {\n            m_requiredSize += 1;", "        if (m_frame.hasGroupInformation() && version < 4) {\n            m_requiredSize += 1;")],
    ID3V2DEMO + r'''
int main() {
    // TIT2 frame with grouping flag
    const std::string data("TIT2\0\0\0\x04\0\x40" "\x07" "\0ab", 14);
    std::stringstream s(data + std::string(10, '\0'), std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    CppUtilities::BinaryReader r(&s);
    Id3v2Frame f; Diagnostics d;
    f.parse(r, 4, 24, d);
    CHECK(f.hasGroupInformation());
    std::stringstream o(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    CppUtilities::BinaryWriter w(&o);
    auto m = f.prepareMaking(4, d);
    m.make(w);
    CHECK(o.str().size() == m.requiredSize());
    return 0;
}
''')
bug("B25", "P10", "an ID3v2.4 tag with an extended header", "frames are looked for past the end of the extended header",
    [("id3/id3v2tag.cpp", "        stream.seekg(m_extendedHeaderSize - 4, ios_base::cur);", "        stream.seekg(m_extendedHeaderSize, ios_base::cur);")],
    ID3V2DEMO + r'''
int main() {
    std::string data("ID3\4\0\x40\0\0\0\x1c", 10);
    data += std::string("\0\0\0\6\1\0", 6) + std::string("TIT2\0\0\0\3\0\0\0ab", 13) + std::string(9, '\0');
    std::stringstream s(data);
    s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    Id3v2Tag t; Diagnostics d;
    t.parse(s, data.size(), d);
    CHECK(t.value(KnownField::Title).toString() == "ab");
    return 0;
}
''')

VORBISDEMO = r"""#include "vorbis/vorbiscomment.h"
#include "vorbis/vorbiscommentfield.h"
#include "diagnostics.h"
#include "exceptions.h"
#include <c++utilities/io/binarywriter.h>
using namespace TagParser;
static std::string le(unsigned n) { return std::string{ char(n), char(n >> 8), char(n >> 16), char(n >> 24) }; }
static std::string f(const std::string &s) { return le(s.size()) + s; }
static constexpr auto flac = VorbisCommentFlags::NoSignature | VorbisCommentFlags::NoFramingByte;
"""
bug("B26", "P11", "a comment in which a field is present that cannot be written or is empty", "denoted number of fields does not match the number of fields written",
    [("vorbis/vorbiscomment.cpp", "        if (field.make(writer, flags, diag)) {\n            return 1;\n        }", "        field.make(writer, flags, diag);\n        return 1;")],
    VORBISDEMO + r"""
int main() {
    VorbisComment c; Diagnostics d;
    TagValue v("abc", 3, TagDataType::Picture);
    c.setValue(KnownField::Cover, v);
    c.setValue(KnownField::Title, TagValue("t", 1, TagTextEncoding::Utf8));
    std::stringstream s(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
    c.make(s, flac | VorbisCommentFlags::NoCovers, d);
    CHECK(s.str() == le(0) + le(1) + f("TITLE=t"));
    return 0;
}
""")
bug("B27", "P11", "a field which exceeds the comment by up to three bytes", "a truncated field is read beyond the end of the comment: the size of the length prefix is not considered",
    [("vorbis/vorbiscommentfield.cpp", "    } else {\n        maxSize -= 4;\n    }\n    stream.read(buff, 4);\n    if (const auto size = LE::toUInt32(buff)) { // read size\n        if (size <= maxSize) {\n            maxSize -= size;",
      "    }\n    stream.read(buff, 4);\n    if (const auto size = LE::toUInt32(buff)) { // read size\n        if (size <= maxSize) {\n            maxSize -= std::min<std::uint64_t>(maxSize, size + 4);")],
    VORBISDEMO + r"""
int main() {
    std::stringstream s(le(0) + le(1) + le(7) + "ABC=abcdefg");
    s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    VorbisComment c; Diagnostics d;
    try {
        c.parse(s, 4 + 4 + 4 + 5, flac, d);
        CHECK(false);
    } catch (const TruncatedDataException &) {
    }
    return 0;
}
""")
HDRDEMO = r"""#include "adts/adtsframe.h"
#include "mpegaudio/mpegaudioframe.h"
#include "wav/waveaudiostream.h"
#include "signature.h"
#include "diagnostics.h"
#include "exceptions.h"
#include <c++utilities/io/binaryreader.h>
#include <sstream>
using namespace TagParser;
"""
bug("B29", "P12", "a Xing header which has a table of contents as well as a quality indicator", "the quality indicator is read from the wrong position",
    [("mpegaudio/mpegaudioframe.cpp", "            reader.stream()->seekg(0x64, ios_base::cur);", "            reader.stream()->seekg(isXingBytesfieldPresent() ? 0x64 : 0x60, ios_base::cur);")],
    HDRDEMO + r"""
int main() {
    std::string d("\xFF\xFB\x90\x00", 4);
    d += std::string(32, '\0') + "Xing" + std::string("\0\0\0\x0c", 4) + std::string(100, '\x01') + std::string("\0\0\0\x63", 4) + std::string(500, '\x02');
    std::stringstream s(d);
    CppUtilities::BinaryReader r(&s); Diagnostics diag; MpegAudioFrame f;
    f.parseHeader(r, diag);
    CHECK(f.isXingHeaderAvailable() && f.xingQualityIndicator() == 0x63);
    return 0;
}
""")
bug("B30", "P12", "MPEG 2 or 2.5, layer 1 with 176 kbit/s or 192 kbit/s", "two entries of the bitrate table are swapped",
    [("mpegaudio/mpegaudioframe.cpp", "{ { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256 }, { 0, 8,", "{ { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 192, 176, 224, 256 }, { 0, 8,")],
    HDRDEMO + r"""
int main() {
    std::string d("\xFF\xF7\xB0\x00", 4);
    d += std::string(600, '\x02');
    std::stringstream s(d);
    CppUtilities::BinaryReader r(&s); Diagnostics diag; MpegAudioFrame f;
    f.parseHeader(r, diag);
    CHECK(f.layer() == 1 && f.mpegVersion() == 2.0 && f.bitrate() == 176);
    return 0;
}
""")
bug("B31", "P12", "WAVE_FORMAT_EXTENSIBLE header in a segment which ends within the size of the extension", "the size of the extended header is read beyond the end of the segment",
    [("wav/waveaudiostream.cpp", "    if ((maxSize -= 16) < 2) {", "    if ((maxSize -= 16) < 1) {")],
    HDRDEMO + r"""
int main() {
    std::string d("\xFE\xFF\x02\x00", 4);
    d += std::string(30, '\x02');
    std::stringstream s(d);
    CppUtilities::BinaryReader r(&s); Diagnostics diag; WaveFormatHeader h;
    CHECK(h.parse(r, 17, diag) <= 17);
    CHECK(s.tellg() <= 17);
    return 0;
}
""")
