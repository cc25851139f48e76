// Ogg iterator
#include "common.h"
#include "ogg/oggiterator.h"

// vc-bound forward_backward: bitstreams of two pages with up to three and one lacing values (any values, any serial numbers, with or without filter)
// vc-bound read: bitstreams of two pages with up to two and one lacing values (any values, any number of bytes to read)
// vc-bound ignore: bitstreams of two pages with up to two lacing values each (any values, any number of bytes to ignore)
// vc-bound seek: bitstreams of two pages with up to two lacing values each
// vc-bound resync: nine patterns of up to six bytes before a page with up to one lacing value

struct Seg {
    u64 offset;
    u32 size;
    unsigned page, index;
};
struct Bits {
    Bits(vc::Stream &s, u64 start)
        : s(s)
        , end(start)
    {
    }
    // writes a page with arbitrary (but few) segments
    void page(const char *serialName, const char *countName, const char *entry1, const char *entry2, bool hasFilter, u32 filter, u8 max = 2)
    {
        const auto serial = vc::any<u32>(serialName);
        const auto count = vc::any<u8>(countName);
        const u8 entries[3] = { vc::any<u8>(entry1), vc::any<u8>(entry2), max > 2 ? vc::any<u8>("entry3") : u8(0) };
        vc::assume(count <= max);
        write(serial, entries, vc::split(count), hasFilter, filter);
    }
    // writes a page with the specified segments
    void write(u32 serial, const u8 *entries, unsigned n, bool hasFilter, u32 filter)
    {
        s.io.seekp(static_cast<std::streamoff>(end));
        s.io.write("OggS\0\0\0\0\0\0\0\0\0\0", 14);
        for (unsigned i = 0; i != 4; ++i)
            s.io.put(static_cast<char>(serial >> (8 * i)));
        s.io.write("\0\0\0\0\0\0\0\0", 8);
        s.io.put(static_cast<char>(n));
        for (unsigned i = 0; i != n; ++i)
            s.io.put(static_cast<char>(entries[i]));
        u64 offset = end + 27 + n;
        u32 current = 0;
        unsigned index = 0;
        for (unsigned i = 0; i != n; ++i) {
            current += entries[i];
            if (entries[i] < 0xFF || i + 1 == n) {
                if (!hasFilter || serial == filter) {
                    segs[count_++] = Seg{ offset, current, pages, index };
                    bytes += current;
                }
                ++index;
                offset += current;
                current = 0;
            }
        }
        end = offset;
        ++pages;
    }
    vc::Stream &s;
    u64 end;
    Seg segs[30];
    unsigned count_ = 0, pages = 0;
    u64 bytes = 0;
    // offset of byte i of the logical bitstream
    u64 locate(u64 i) const
    {
        for (unsigned k = 0; k != count_; ++k) {
            if (i < segs[k].size)
                return segs[k].offset + i;
            i -= segs[k].size;
        }
        return 0;
    }
};
static void at(OggIterator &it, const Seg &seg)
{
    vc::ensure(it && it.currentPageIndex() == seg.page && it.currentSegmentIndex() == seg.index, "iterator is at the expected segment");
    vc::ensure(it.currentSegmentOffset() == seg.offset && it.currentSegmentSize() == seg.size, "extent of current segment");
    vc::ensure(it.currentCharacterOffset() == seg.offset && it.bytesReadFromCurrentSegment() == 0 && it.remainingBytesInCurrentSegment() == seg.size, "nothing read from the segment so far");
}

VC_HARNESS(forward_backward)
{
    const auto start = vc::any<u64>("start");
    const auto filter = vc::any<u32>("filter");
    const auto hasFilter = vc::any<bool>("hasFilter");
    const auto back = vc::any<u8>("back");
    vc::assume(start < maxFile / 2);
    vc::Stream s("file", start + 2000);
    Bits bits(s, start);
    bits.page("serial1", "count1", "entry11", "entry12", hasFilter, filter, 3);
    bits.page("serial2", "count2", "entry21", "entry22", hasFilter, filter, 1);
    OggIterator it(s.io, start, bits.end);
    if (hasFilter)
        it.setFilter(filter);
    it.reset();
    for (unsigned i = 0; i != bits.count_; ++i) {
        at(it, bits.segs[i]);
        if (i == back && i) {
            --it;
            at(it, bits.segs[i - 1]);
            ++it;
            at(it, bits.segs[i]);
            vc::cover("back");
        }
        ++it;
    }
    vc::ensure(!it, "iterator is invalid after the last segment");
    vc::ensure(it.isLastPageFetched() && it.pages().size() == 2, "all pages fetched");
    it.reset();
    if (bits.count_) {
        at(it, bits.segs[0]);
        vc::cover("not empty");
    } else
        vc::ensure(!it, "iterator is invalid if there are no segments");
    vc::finish();
}

// vc-bound fixed_pages: a fixed bitstream of six pages (empty page, other serial number, continued and empty segments) at any offset
VC_HARNESS(fixed_pages)
{
    const auto start = vc::any<u64>("start");
    const auto filter = vc::any<u32>("filter");
    const auto hasFilter = vc::any<bool>("hasFilter");
    vc::assume(start < maxFile / 2 && filter >= 1 && filter <= 3);
    vc::Stream s("file", start + 10000);
    Bits bits(s, start);
    const auto f = vc::split(filter);
    const bool has = vc::split(hasFilter);
    static const u8 e0[] = { 30, 255, 4, 7, 255, 255, 0, 9 }, e1[] = { 255, 255 }, e2[] = { 1 }, e3[] = { 0, 0, 5 };
    bits.write(1, e0, 8, has, f);
    bits.write(1, nullptr, 0, has, f);
    bits.write(2, e1, 2, has, f);
    bits.write(1, e1, 2, has, f);
    bits.write(2, e2, 1, has, f);
    bits.write(1, e3, 3, has, f);
    OggIterator it(s.io, start, bits.end);
    if (has)
        it.setFilter(f);
    it.reset();
    for (unsigned i = 0; i != bits.count_; ++i, ++it)
        at(it, bits.segs[i]);
    vc::ensure(!it && it.isLastPageFetched(), "iterator is invalid after the last segment");
    for (unsigned i = 0; i != bits.count_; ++i) {
        const auto &seg = bits.segs[i];
        it.setPageIndex(seg.page);
        if (seg.index)
            it.setSegmentIndex(seg.index);
        at(it, seg);
        for (unsigned k = i; k; ) {
            --it;
            at(it, bits.segs[--k]);
        }
    }
    it.reset();
    if (bits.count_) {
        at(it, bits.segs[0]);
        for (u64 n = 0; n + 100 < bits.bytes; n += 100) {
            it.ignore(100);
            vc::ensure(it.tellg() == bits.locate(n + 99) + 1, "position is after the ignored bytes");
        }
        vc::cover("not empty");
    } else
        vc::ensure(!it, "iterator is invalid if there are no segments");
    vc::finish();
}

VC_HARNESS(read)
{
    const auto start = vc::any<u64>("start");
    const auto skip = vc::any<u64>("skip"), count = vc::any<u64>("count"), i = vc::any<u64>("i");
    vc::assume(start < maxFile / 2 && skip < 4096 && count < 4096 && i < count);
    vc::Stream s("file", start + 2000);
    Bits bits(s, start);
    bits.page("serial1", "count1", "entry11", "entry12", true, 1);
    bits.page("serial2", "count2", "entry21", "entry22", true, 1, 1);
    OggIterator it(s.io, start, bits.end);
    it.setFilter(1);
    it.reset();
    char *const buffer = vc::buffer("buffer", count);
    bool truncated = false;
    try {
        if (skip)
            it.ignore(skip);
        it.read(buffer, count);
    } catch (const TruncatedDataException &) {
        truncated = true;
    }
    vc::ensure(truncated == (skip + count > bits.bytes), "reading is possible exactly until the end of the bitstream");
    if (truncated) {
        vc::cover("truncated");
        vc::finish();
    }
    const auto last = bits.locate(skip + count - 1);
    vc::ensure(it.tellg() == last + 1, "position is after the last byte which has been read");
    vc::ensure(static_cast<u8>(buffer[i]) == s.at(bits.locate(skip + i)), "bytes of the logical bitstream are read consecutively");
    vc::cover("read");
    vc::finish();
}

// vc-bound read_all: bitstreams of two pages with up to two and one lacing values (any values, any number of bytes to read)
VC_HARNESS(read_all)
{
    const auto start = vc::any<u64>("start");
    const auto count = vc::any<u64>("count"), i = vc::any<u64>("i");
    vc::assume(start < maxFile / 2 && count < 4096);
    vc::Stream s("file", start + 2000);
    Bits bits(s, start);
    bits.page("serial1", "count1", "entry11", "entry12", true, 1);
    bits.page("serial2", "count2", "entry21", "entry22", true, 1, 1);
    OggIterator it(s.io, start, bits.end);
    it.setFilter(1);
    it.reset();
    char *const buffer = vc::buffer("buffer", count);
    const auto n = it.readAll(buffer, count);
    vc::ensure(n == (count < bits.bytes ? count : bits.bytes), "number of bytes read is limited by the bitstream");
    vc::assume(i < n);
    vc::ensure(static_cast<u8>(buffer[i]) == s.at(bits.locate(i)), "bytes of the logical bitstream are read consecutively");
    vc::cover("read");
    vc::finish();
}

VC_HARNESS(ignore)
{
    const auto start = vc::any<u64>("start");
    const auto count = vc::any<u64>("count");
    vc::assume(start < maxFile / 2 && count < 4096);
    vc::Stream s("file", start + 2000);
    Bits bits(s, start);
    bits.page("serial1", "count1", "entry11", "entry12", false, 0);
    bits.page("serial2", "count2", "entry21", "entry22", false, 0);
    vc::assume(bits.count_ != 0);
    OggIterator it(s.io, start, bits.end);
    it.reset();
    bool truncated = false;
    try {
        it.ignore(count);
    } catch (const TruncatedDataException &) {
        truncated = true;
    }
    vc::ensure(truncated == (count > bits.bytes), "ignoring is possible exactly until the end of the bitstream");
    if (truncated) {
        vc::cover("truncated");
        vc::finish();
    }
    if (count) {
        vc::ensure(it && it.tellg() == bits.locate(count - 1) + 1, "position is after the ignored bytes");
        vc::cover("ignored");
    }
    vc::finish();
}

VC_HARNESS(seek)
{
    const auto start = vc::any<u64>("start");
    const auto n = vc::any<u8>("read"), target = vc::any<u8>("target");
    vc::assume(start < maxFile / 2);
    vc::Stream s("file", start + 2000);
    Bits bits(s, start);
    bits.page("serial1", "count1", "entry11", "entry12", false, 0);
    bits.page("serial2", "count2", "entry21", "entry22", false, 0);
    vc::assume(n < bits.bytes && target < bits.count_);
    OggIterator it(s.io, start, bits.end);
    for (it.reset(); it; ++it)
        ;
    it.reset();
    it.ignore(n);
    const auto &seg = bits.segs[vc::split(target)];
    it.setPageIndex(seg.page);
    if (seg.index)
        it.setSegmentIndex(seg.index);
    at(it, seg);
    vc::cover("seek");
    vc::finish();
}

VC_HARNESS(resync)
{
    static const char *const junk[] = { "", "x", "O", "Og", "Ogg", "OgxgS", "OggxS", "SggO", "OggOgg" };
    static const u8 length[] = { 0, 1, 1, 2, 3, 5, 5, 4, 6 };
    const auto pattern = vc::any<u8>("pattern");
    const auto count = vc::any<u8>("count"), entry = vc::any<u8>("entry");
    const auto rest = vc::any<u64>("rest");
    const auto start = vc::any<u64>("start");
    vc::assume(pattern < 9 && count <= 1 && rest < 1000 && start < maxFile / 2);
    const auto p = vc::split(pattern);
    const u64 pageOffset = start + length[p], end = pageOffset + 27 + count + (count ? entry : 0);
    vc::Stream s("file", end + rest);
    s.io.seekp(static_cast<std::streamoff>(start));
    s.io.write(junk[p], length[p]);
    s.io.write("OggS\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 26);
    s.io.put(static_cast<char>(vc::split(count)));
    if (count)
        s.io.put(static_cast<char>(entry));
    OggIterator it(s.io, start, end + rest);
    vc::ensure(it.resyncAt(start), "next page is found if it fits into the bitstream");
    vc::ensure(it.currentPageOffset() == pageOffset && it.pages().size() == 1, "next page is appended");
    vc::ensure(it.currentPage().totalSize() == end - pageOffset, "extent of page");
    if (count)
        vc::ensure(it.currentSegmentOffset() == pageOffset + 28, "iterator is at the first segment");
    vc::ensure(!it.resyncAt(pageOffset) && !it.resyncAt(end + rest), "offsets within known pages and beyond the end are refused");
    vc::cover("found");
    vc::finish();
}

// vc-bound resync_none: up to four bytes without a page
VC_HARNESS(resync_none)
{
    const auto size = vc::any<u8>("size");
    const auto start = vc::any<u64>("start");
    vc::assume(size <= 4 && start < maxFile / 2);
    vc::Stream s("file", start + size);
    OggIterator it(s.io, start, start + size);
    vc::ensure(!it.resyncAt(start), "no page is found if there is none");
    vc::ensure(it.pages().empty() && !it, "iterator unchanged");
    vc::cover("none");
    vc::finish();
}
