// MPEG-4 descriptors: extents
#include "common.h"
#include "mp4/mp4container.h"
#include "mp4/mpeg4descriptor.h"

struct Fixture {
    Fixture(std::iostream &io, u64 size)
        : container(file, 0)
    {
        file.reportSizeChanged(size);
        container.setStream(io);
    }
    MediaFileInfo file;
    Mp4Container container;
    Diagnostics diag;
};
static bool parse(Mpeg4Descriptor &e, Diagnostics &diag)
{
    try {
        e.parse(diag);
        return true;
    } catch (const Failure &) {
        vc::ensure(diag.has(DiagLevel::Critical), "rejection is reported");
    } catch (const std::ios_base::failure &) {
    }
    return false;
}
static void extent(Mpeg4Descriptor &e, u64 start, u64 end)
{
    vc::ensure(e.startOffset() == start, "descriptor starts where it has been expected");
    vc::ensure(e.dataOffset() == start + e.headerSize() && e.dataOffset() <= end && e.headerSize() >= 2, "header is within the enclosing element");
    vc::ensure(e.endOffset() == e.dataOffset() + e.dataSize() && e.endOffset() >= e.dataOffset() && e.endOffset() <= end,
        "descriptor is within the enclosing element");
}

VC_HARNESS(top_level)
{
    const auto size = vc::any<u64>("fileSize");
    const auto start = vc::any<u64>("start");
    const auto max = vc::any<u64>("max");
    vc::assume(size <= maxFile && start <= maxFile && max <= maxFile);
    vc::Stream s("file", size);
    Fixture f(s.io, size);
    Mpeg4Descriptor e(f.container, start, max);
    if (!parse(e, f.diag)) {
        vc::cover("rejected");
        vc::finish();
        return;
    }
    vc::cover("parsed");
    const u64 end = start + max;
    extent(e, start, end);
    vc::ensure(e.id() == s.at(start), "ID is the first byte");
    const unsigned n = vc::split(e.sizeLength());
    vc::assume(n >= 1 && n <= 4);
    u64 denoted = 0;
    for (unsigned i = 1; i <= n; ++i) {
        vc::ensure((s.at(start + i) >= 0x80) == (i < n), "size length is denoted by the leading bits");
        denoted = denoted << 7 | (s.at(start + i) & 0x7F);
    }
    vc::ensure(e.dataSize() == std::min(denoted, end - start - 1 - n), "data size is the denoted one or what is available");
    if (denoted > end - start - 1 - n) {
        vc::ensure(f.diag.has(DiagLevel::Warning), "truncation is reported");
        vc::cover("truncated");
    }
    vc::ensure((e.nextSibling() != nullptr) == (e.endOffset() < end), "there is a next sibling if there are bytes left");
    if (const auto *const sibling = e.nextSibling()) {
        vc::ensure(sibling->startOffset() == e.endOffset(), "next sibling starts where the descriptor ends");
        vc::ensure(sibling->maxTotalSize() == end - e.endOffset(), "next sibling may take the remaining bytes");
        vc::cover("sibling");
    }
    vc::finish();
}

VC_HARNESS(child)
{
    const auto size = vc::any<u64>("fileSize");
    const auto start = vc::any<u64>("start");
    const auto max = vc::any<u64>("max");
    const auto childOffset = vc::any<u32>("childOffset");
    vc::assume(size <= maxFile && start <= maxFile && max <= maxFile && childOffset < 0x10000000);
    vc::Stream s("file", size);
    Fixture f(s.io, size);
    Mpeg4Descriptor e(f.container, start, max);
    if (!parse(e, f.diag))
        vc::finish();
    vc::assume(childOffset >= e.headerSize());
    auto *const c = e.denoteFirstChild(childOffset);
    const u64 end = e.endOffset();
    vc::ensure((c != nullptr) == (childOffset + 2 <= e.totalSize()), "first child can be denoted if it fits into the descriptor");
    if (!c)
        vc::finish();
    if (!parse(*c, f.diag))
        vc::finish();
    extent(*c, start + childOffset, end);
    vc::ensure((c->nextSibling() != nullptr) == (c->endOffset() < end), "child has a sibling if there are bytes left in the parent");
    if (auto *const n = c->nextSibling()) {
        vc::ensure(n->startOffset() == c->endOffset() && n->maxTotalSize() == end - c->endOffset() && n->parent() == &e,
            "next sibling of a child takes the remaining bytes of the parent");
        vc::cover("sibling of child");
    }
    vc::ensure(e.endOffset() == end && e.startOffset() == start, "parent unchanged");
    vc::finish();
}
