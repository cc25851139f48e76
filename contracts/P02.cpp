// EBML element header parsing: extents
#include "common.h"
#include "matroska/ebmlelement.h"
#include "matroska/matroskacontainer.h"
#include "matroska/matroskaid.h"

struct Fixture {
    Fixture(std::iostream &io, u64 size)
        : container(file, 0)
    {
        file.reportSizeChanged(size);
        container.setStream(io);
        EbmlElement::bytesToBeSkipped = 1;
    }
    MediaFileInfo file;
    MatroskaContainer container;
    Diagnostics diag;
};
static bool parse(EbmlElement &e, Diagnostics &diag)
{
    try {
        e.parse(diag);
        return true;
    } catch (const Failure &) {
        vc::ensure(diag.has(DiagLevel::Critical), "rejection is reported");
    } catch (const std::ios_base::failure &) {
    }
    return false;
}
// specification of a parsed element; `end` is the end of the enclosing element or file
static void extent(EbmlElement &e, u64 start, u64 end)
{
    vc::ensure(e.startOffset() == start, "element starts where it has been expected");
    vc::ensure(e.headerSize() == e.idLength() + e.sizeLength() && e.idLength() >= 1 && e.sizeLength() >= 1 && e.idLength() <= 4 && e.sizeLength() <= 8,
        "header consists of ID and size");
    vc::ensure(e.dataOffset() == start + e.headerSize() && e.dataOffset() <= end, "header is within the enclosing element");
    vc::ensure(e.endOffset() == e.dataOffset() + e.dataSize() && e.endOffset() >= e.dataOffset() && e.endOffset() <= end,
        "element is within the enclosing element");
}

VC_HARNESS(top_level)
{
    const auto size = vc::any<u64>("fileSize");
    const auto start = vc::any<u64>("start");
    vc::assume(size <= maxFile && start <= maxFile);
    vc::Stream s("file", size);
    Fixture f(s.io, size);
    EbmlElement e(f.container, start);
    if (!parse(e, f.diag)) {
        vc::cover("rejected");
        vc::finish();
    }
    vc::cover("parsed");
    extent(e, start, size);
    const u64 end = e.endOffset();
    if (const auto *const child = e.firstChild()) {
        vc::ensure(e.isParent() && child->parent() == &e, "only parent elements have children");
        vc::ensure(child->startOffset() == e.dataOffset(), "first child starts right after the header");
        vc::ensure(child->maxTotalSize() == e.dataSize(), "first child may take the size of its parent's data");
        vc::cover("child");
    }
    vc::ensure((e.nextSibling() != nullptr) == (end < size), "there is a next sibling if there are bytes left");
    if (const auto *const sibling = e.nextSibling()) {
        vc::ensure(sibling->startOffset() == end, "next sibling starts where the element ends");
        vc::ensure(sibling->maxTotalSize() == size - end, "next sibling may take the remaining bytes");
        vc::cover("sibling");
    }
    vc::finish();
}

// value of the header fields
VC_HARNESS(header_fields)
{
    const auto size = vc::any<u64>("fileSize");
    const auto start = vc::any<u64>("start");
    vc::assume(size <= maxFile && start <= maxFile);
    vc::Stream s("file", size);
    Fixture f(s.io, size);
    EbmlElement e(f.container, start);
    if (!parse(e, f.diag))
        vc::finish();
    const unsigned idLen = vc::split(e.idLength());
    vc::assume(idLen >= 1 && idLen <= 4);
    vc::ensure(e.id() == s.be(start, idLen), "ID is the value of the ID bytes including the length marker");
    vc::ensure((s.at(start) >> (8 - idLen)) == 1, "ID length is denoted by the leading byte");
    const unsigned sizeLen = vc::split(e.sizeLength());
    vc::assume(sizeLen >= 1 && sizeLen <= 8);
    const u64 rest = size - start - idLen - sizeLen;
    if (s.at(start + idLen) == 0xFF) {
        vc::ensure(sizeLen == 1 && e.dataSize() == rest, "element of unknown size takes the remaining bytes");
        vc::cover("unknown size");
    } else {
        vc::ensure((s.at(start + idLen) >> (8 - sizeLen)) == 1, "size length is denoted by the leading byte");
        const u64 denoted = s.be(start + idLen, sizeLen) & ~(u64(1) << (7 * sizeLen));
        vc::ensure(e.dataSize() == std::min(denoted, rest), "data size is the denoted one or what is available");
        vc::cover("known size");
        if (denoted > rest)
            vc::cover("truncated");
    }
    vc::finish();
}

// Elements within an element. The parsing of an element depends on its parent only via the parent's extent, ID and ancestors, so the
// header of the parent is written in one particular form here (4-byte ID, 8-byte size).
static void putHeader(std::iostream &io, u64 start, u32 id, u64 dataSize)
{
    io.seekp(static_cast<std::streamoff>(start));
    for (unsigned i = 4; i != 0; --i)
        io.put(static_cast<char>(id >> (8 * (i - 1))));
    io.put(1);
    for (unsigned i = 7; i != 0; --i)
        io.put(static_cast<char>(dataSize >> (8 * (i - 1))));
}
static void putUnknownSizeHeader(std::iostream &io, u64 start, u32 id)
{
    io.seekp(static_cast<std::streamoff>(start));
    for (unsigned i = 4; i != 0; --i)
        io.put(static_cast<char>(id >> (8 * (i - 1))));
    io.put(static_cast<char>(0xFF));
}

VC_HARNESS(child)
{
    const auto size = vc::any<u64>("fileSize");
    const auto start = vc::any<u64>("start");
    const auto dataSize = vc::any<u64>("dataSize");
    vc::assume(start < maxFile && dataSize < (u64(1) << 56) - 1 && size <= maxFile && start + 12 < size);
    vc::Stream s("file", size);
    Fixture f(s.io, size);
    putHeader(s.io, start, MatroskaIds::Cluster, dataSize);
    EbmlElement e(f.container, start);
    vc::ensure(parse(e, f.diag), "parent parsed");
    auto *const c = e.firstChild();
    vc::ensure((c != nullptr) == (dataSize != 0), "parent has a child if it is not empty");
    if (!c)
        vc::finish();
    const u64 dataOffset = e.dataOffset(), end = e.endOffset();
    vc::ensure(dataOffset == start + 12 && end == std::min(size, dataOffset + dataSize), "extent of parent");
    if (!parse(*c, f.diag))
        vc::finish();
    vc::cover("child parsed");
    extent(*c, dataOffset, end);
    vc::ensure((c->nextSibling() != nullptr) == (c->endOffset() < end), "child has a sibling if there are bytes left in the parent");
    if (const auto *const n = c->nextSibling()) {
        vc::ensure(n->startOffset() == c->endOffset() && n->maxTotalSize() == end - c->endOffset() && n->parent() == &e,
            "next sibling of a child takes the remaining bytes of the parent");
        vc::cover("sibling of child");
    }
    vc::ensure(e.startOffset() == start && e.dataOffset() == dataOffset && e.endOffset() == end && c->parent() == &e, "parent unchanged");
    vc::finish();
}

// elements within elements of unknown size: a level 1 element ends its preceding sibling of unknown size
VC_HARNESS(unknown_size)
{
    const auto size = vc::any<u64>("fileSize");
    const auto start = vc::any<u64>("start");
    vc::assume(start < maxFile && size <= maxFile && start + 10 < size);
    vc::Stream s("file", size);
    Fixture f(s.io, size);
    putUnknownSizeHeader(s.io, start, MatroskaIds::Segment);
    putUnknownSizeHeader(s.io, start + 5, MatroskaIds::Cluster);
    EbmlElement segment(f.container, start);
    vc::ensure(parse(segment, f.diag), "segment parsed");
    auto *const cluster = segment.firstChild();
    vc::ensure(cluster && parse(*cluster, f.diag), "cluster parsed");
    vc::ensure(cluster->id() == MatroskaIds::Cluster && cluster->endOffset() == size && segment.endOffset() == size, "unknown size assumed to be the max");
    auto *const c = cluster->firstChild();
    vc::ensure(c && c->startOffset() == start + 10, "first child of cluster");
    if (!parse(*c, f.diag))
        vc::finish();
    extent(*c, start + 10, size);
    const auto level = matroskaIdLevel(c->id());
    if (level == MatroskaElementLevel::Level1) {
        vc::ensure(c->parent() == &segment && cluster->nextSibling() == c && !cluster->firstChild() && segment.firstChild() == cluster,
            "level 1 element becomes the next sibling of the preceding level 1 element");
        vc::ensure(cluster->endOffset() == start + 10, "preceding element of unknown size ends where its sibling starts");
        vc::cover("level 1 element");
    } else if (level != MatroskaElementLevel::TopLevel) {
        vc::ensure(c->parent() == cluster && cluster->firstChild() == c && !cluster->nextSibling(), "other elements remain children");
        vc::ensure(cluster->endOffset() == size, "assumed extent is preserved");
        vc::cover("other level");
    }
    if (const auto *const n = c->nextSibling())
        vc::ensure(n->startOffset() == c->endOffset() && n->maxTotalSize() == size - c->endOffset() && n->parent() == c->parent(),
            "next sibling takes the remaining bytes");
}

// same but with elements in between
VC_HARNESS(unknown_size_second_child)
{
    const auto size = vc::any<u64>("fileSize");
    const auto start = vc::any<u64>("start");
    const auto dataSize = vc::any<u64>("dataSize");
    vc::assume(start < maxFile && size <= maxFile && dataSize < 0x1000000 && start + 22 + dataSize < size);
    vc::Stream s("file", size);
    Fixture f(s.io, size);
    putUnknownSizeHeader(s.io, start, MatroskaIds::Segment);
    putUnknownSizeHeader(s.io, start + 5, MatroskaIds::Cluster);
    putHeader(s.io, start + 10, 0x1FFFFFFE, dataSize);
    EbmlElement segment(f.container, start);
    vc::ensure(parse(segment, f.diag), "segment parsed");
    auto *const cluster = segment.firstChild();
    vc::ensure(cluster && parse(*cluster, f.diag), "cluster parsed");
    auto *const first = cluster->firstChild();
    vc::ensure(first && parse(*first, f.diag) && first->parent() == cluster, "first child of cluster parsed");
    auto *const c = first->nextSibling();
    const u64 pos = start + 22 + dataSize;
    vc::ensure(c && c->startOffset() == pos, "second child of cluster");
    if (!parse(*c, f.diag))
        vc::finish();
    extent(*c, pos, size);
    vc::ensure(cluster->firstChild() == first && segment.firstChild() == cluster, "preceding elements unchanged");
    const auto level = matroskaIdLevel(c->id());
    if (level == MatroskaElementLevel::Level1) {
        vc::ensure(c->parent() == &segment && cluster->nextSibling() == c && !first->nextSibling(),
            "level 1 element becomes the next sibling of the preceding level 1 element");
        vc::ensure(cluster->endOffset() == pos, "preceding element of unknown size ends where its sibling starts");
        vc::cover("level 1 element");
    } else if (level != MatroskaElementLevel::TopLevel) {
        vc::ensure(c->parent() == cluster && first->nextSibling() == c && !cluster->nextSibling(), "other elements remain children");
        vc::ensure(cluster->endOffset() == size, "assumed extent is preserved");
        vc::cover("other level");
    }
}
