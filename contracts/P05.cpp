// Ogg pages
#include "common.h"
#include "ogg/oggpage.h"

// vc-bound page_segments: pages with up to five lacing values (any values, any page header)
// vc-bound checksum: pages with up to two lacing values and up to three bytes of data
// vc-bound update_checksum: pages with up to two lacing values and up to three bytes of data
// vc-bound reparse: pages with up to two lacing values

static bool parse(OggPage &page, std::istream &s, u64 start, std::int32_t max)
{
    try {
        page.parseHeader(s, start, max);
        return true;
    } catch (const Failure &) {
    } catch (const std::ios_base::failure &) {
    }
    return false;
}

VC_HARNESS(page_segments)
{
    const auto size = vc::any<u64>("fileSize");
    const auto start = vc::any<u64>("start");
    const auto max = vc::any<std::int32_t>("max");
    const auto count = vc::any<u8>("count");
    vc::assume(size <= maxFile && start <= maxFile && start + 27 + 255 <= size && count <= 5);
    vc::Stream s("file", size);
    s.io.seekp(static_cast<std::streamoff>(start + 26));
    s.io.put(static_cast<char>(count));
    const unsigned n = vc::split(count);
    u64 data = 0, current = 0;
    u32 sizes[6] = {};
    unsigned segments = 0;
    for (unsigned i = 0; i != n; ++i) {
        const u8 entry = s.at(start + 27 + i);
        data += entry;
        current += entry;
        if (entry < 0xFF || i + 1 == n) {
            sizes[segments++] = static_cast<u32>(current);
            current = 0;
        }
    }
    OggPage page;
    const bool ok = parse(page, s.io, start, max);
    vc::ensure(ok == (s.be(start, 4) == 0x4F676753 && max >= 27 && 27 + n + data <= static_cast<u64>(max)), "accepted exactly if capture pattern is present and page fits");
    if (!ok) {
        vc::cover("rejected");
        vc::finish();
    }
    vc::cover("parsed");
    vc::ensure(page.startOffset() == start && page.segmentTableSize() == n && page.headerSize() == 27 + n, "extent of header");
    vc::ensure(page.dataSize() == data && page.totalSize() == 27 + n + data, "extent of page is the sum of the lacing values");
    vc::ensure(page.segmentSizes().size() == segments, "number of segments");
    u64 offset = start + 27 + n;
    for (unsigned i = 0; i != segments; ++i) {
        vc::ensure(page.segmentSizes()[i] == sizes[i], "segment size is the sum of its lacing values");
        vc::ensure(page.dataOffset(i) == offset, "segments are consecutive");
        offset += sizes[i];
    }
    vc::ensure(page.isLastSegmentUnconcluded() == (n && s.at(start + 26 + n) == 0xFF), "last segment is continued on next page if its last lacing value is 255");
    vc::ensure(page.streamStructureVersion() == s.at(start + 4) && page.headerTypeFlag() == (s.at(start + 5) & 0xF), "version and flags");
    vc::ensure(page.isContinued() == ((s.at(start + 5) & 1) != 0) && page.isFirstpage() == ((s.at(start + 5) & 2) != 0) && page.isLastPage() == ((s.at(start + 5) & 4) != 0), "flags");
    vc::ensure(page.absoluteGranulePosition() == s.le(start + 6, 8), "granule position");
    vc::ensure(page.streamSerialNumber() == s.le(start + 14, 4) && page.sequenceNumber() == s.le(start + 18, 4) && page.checksum() == s.le(start + 22, 4), "numbers");
    vc::ensure(page.matchesStreamSerialNumber(static_cast<u32>(s.le(start + 14, 4))), "serial number matched");
    vc::finish();
}

VC_HARNESS(truncated)
{
    const auto size = vc::any<u64>("fileSize");
    const auto start = vc::any<u64>("start");
    const auto max = vc::any<std::int32_t>("max");
    vc::assume(size <= maxFile && start <= maxFile && max < 27);
    vc::Stream s("file", size);
    OggPage page;
    vc::ensure(!parse(page, s.io, start, max), "header which does not fit is rejected");
    vc::cover("rejected");
    vc::finish();
}

VC_HARNESS(reparse)
{
    const auto a = vc::any<u8>("count1"), b = vc::any<u8>("count2");
    vc::assume(a <= 2 && b <= 2);
    vc::Stream s("file", 4000);
    s.io.seekp(26);
    s.io.put(static_cast<char>(a));
    s.io.seekp(2000 + 26);
    s.io.put(static_cast<char>(b));
    OggPage page, fresh;
    if (!parse(page, s.io, 0, 1000))
        vc::finish();
    if (!parse(fresh, s.io, 2000, 1000))
        vc::finish();
    vc::ensure(parse(page, s.io, 2000, 1000), "page can be parsed again");
    vc::ensure(page.startOffset() == fresh.startOffset() && page.segmentSizes() == fresh.segmentSizes() && page.segmentTableSize() == fresh.segmentTableSize()
            && page.isLastSegmentUnconcluded() == fresh.isLastSegmentUnconcluded() && page.headerTypeFlag() == fresh.headerTypeFlag(),
        "result does not depend on what has been parsed before");
    vc::cover("reparsed");
    vc::finish();
}

// specification: CRC with polynomial 0x04c11db7, checksum field taken as zero
static u32 crcStep(u32 crc, u8 byte)
{
    return (crc << 8) ^ CppUtilities::BinaryReader::crc32Table[(crc >> 24) ^ byte];
}
VC_HARNESS(crc_table)
{
    for (u32 i = 0; i != 256; ++i) {
        u32 crc = i << 24;
        for (int bit = 0; bit != 8; ++bit)
            crc = (crc & 0x80000000u) ? (crc << 1) ^ 0x04c11db7u : crc << 1;
        vc::ensure(crcStep(0, static_cast<u8>(i)) == crc, "table entry is remainder for polynomial 0x04c11db7");
    }
    vc::cover("table");
}
static u32 expectedChecksum(vc::Stream &s, u64 start, unsigned total)
{
    u32 crc = 0;
    for (unsigned i = 0; i != total; ++i)
        crc = crcStep(crc, i >= 22 && i < 26 ? u8(0) : s.at(start + i));
    return crc;
}
static unsigned makePage(vc::Stream &s, u64 start)
{
    const auto count = vc::any<u8>("count"), seg1 = vc::any<u8>("segment1"), seg2 = vc::any<u8>("segment2");
    vc::assume(count <= 2 && seg1 <= 2 && seg2 <= 1);
    s.io.seekp(static_cast<std::streamoff>(start + 26));
    s.io.put(static_cast<char>(count));
    s.io.put(static_cast<char>(seg1));
    if (count > 1)
        s.io.put(static_cast<char>(seg2));
    return vc::split(27u + count + (count > 0 ? seg1 : 0) + (count > 1 ? seg2 : 0));
}
VC_HARNESS(checksum)
{
    const auto start = vc::any<u64>("start");
    vc::assume(start < maxFile / 2);
    vc::Stream s("file", start + 100);
    const unsigned total = makePage(s, start);
    vc::ensure(OggPage::computeChecksum(s.io, start) == expectedChecksum(s, start, total), "checksum covers exactly the bytes of the page with the checksum field taken as zero");
    vc::cover("checksum");
    vc::finish();
}
VC_HARNESS(update_checksum)
{
    const auto start = vc::any<u64>("start");
    const auto other = vc::any<u64>("other");
    vc::assume(start < maxFile / 2 && other < start + 100 && (other < start + 22 || other >= start + 26));
    vc::Stream s("file", start + 100);
    const unsigned total = makePage(s, start);
    const u8 before = s.at(other);
    OggPage::updateChecksum(s.io, start);
    vc::ensure(s.le(start + 22, 4) == expectedChecksum(s, start, total), "checksum is stored little endian in the page header");
    vc::ensure(s.at(other) == before && s.size() == start + 100, "nothing but the checksum field is changed");
    vc::cover("updated");
    vc::finish();
}
// vc-bound full_page: a page with 255 lacing values following a fixed pattern
VC_HARNESS(full_page)
{
    const auto start = vc::any<u64>("start");
    const auto max = vc::any<std::int32_t>("max");
    vc::assume(start < maxFile / 2);
    vc::Stream s("file", start + 27 + 255 + 255 * 255);
    s.io.seekp(static_cast<std::streamoff>(start));
    s.io.write("OggS", 4);
    s.io.seekp(static_cast<std::streamoff>(start + 26));
    s.io.put(static_cast<char>(255));
    u32 total = 0, current = 0, segments = 0;
    u32 sizes[255] = {};
    for (unsigned i = 0; i != 255; ++i) {
        const unsigned entry = i % 7 == 3 ? i : 255;
        s.io.put(static_cast<char>(entry));
        total += entry;
        current += entry;
        if (entry != 255 || i == 254) {
            sizes[segments++] = current;
            current = 0;
        }
    }
    OggPage page;
    vc::ensure(parse(page, s.io, start, max) == (max >= 27 + 255 + static_cast<std::int32_t>(total)), "accepted exactly if page fits");
    if (max < 27 + 255 + static_cast<std::int32_t>(total))
        vc::finish();
    vc::ensure(page.headerSize() == 27 + 255 && page.dataSize() == total && page.totalSize() == 27 + 255 + total, "extent of page is the sum of the lacing values");
    vc::ensure(page.isLastSegmentUnconcluded(), "last segment is continued on next page if its last lacing value is 255");
    vc::ensure(page.segmentSizes().size() == segments, "number of segments");
    u64 offset = start + 27 + 255;
    for (unsigned i = 0; i != segments; ++i) {
        vc::ensure(page.segmentSizes()[i] == sizes[i], "segment size is the sum of its lacing values");
        vc::ensure(page.dataOffset(i) == offset, "segments are consecutive");
        offset += sizes[i];
    }
    vc::cover("parsed");
    vc::finish();
}
// vc-bound checksum_large: a page with 255 lacing values following a fixed pattern (any other bytes)
VC_HARNESS(checksum_large)
{
    const auto start = vc::any<u64>("start");
    vc::assume(start < maxFile / 2);
    vc::Stream s("file", start + 5000);
    s.io.seekp(static_cast<std::streamoff>(start + 26));
    s.io.put(static_cast<char>(255));
    unsigned total = 27 + 255;
    for (unsigned i = 0; i != 255; ++i) {
        const u8 entry = i < 2 ? 255 : i == 254 ? 3 : i % 3;
        s.io.put(static_cast<char>(entry));
        total += entry;
    }
    OggPage::updateChecksum(s.io, start);
    vc::ensure(s.le(start + 22, 4) == expectedChecksum(s, start, total), "checksum covers exactly the bytes of the page with the checksum field taken as zero");
    vc::cover("checksum");
    vc::finish();
}

// vc-bound segment_denotation: sizes below 1024
VC_HARNESS(segment_denotation)
{
    const auto size = vc::any<u32>("size");
    vc::assume(size < 1024);
    vc::Stream s("file", 0);
    const auto n = OggPage::makeSegmentSizeDenotation(s.io, size);
    vc::ensure(s.size() == n && n == size / 255 + 1, "number of lacing values");
    for (unsigned i = 0; i + 1 < n; ++i)
        vc::ensure(s.at(i) == 255, "lacing values before the last one are 255");
    vc::ensure(s.at(n - 1) == size % 255, "last lacing value is the remainder");
    vc::cover("written");
    vc::finish();
}
