// MP4 atoms: headers and extents
#include "common.h"
#include "mp4/mp4atom.h"
#include "mp4/mp4container.h"
#include <c++utilities/io/binarywriter.h>

struct Fixture {
    Fixture(std::iostream &io, u64 size)
        : container(file, 0)
    {
        file.reportSizeChanged(size);
        container.setStream(io);
    }
    MediaFileInfo file;
    Mp4Container container;
    Diagnostics diag;
};
static bool parse(Mp4Atom &e, Diagnostics &diag)
{
    try {
        e.parse(diag);
        return true;
    } catch (const Failure &) {
        vc::ensure(diag.has(DiagLevel::Critical), "rejection is reported");
    } catch (const std::ios_base::failure &) {
    }
    return false;
}
static void extent(Mp4Atom &e, u64 start, u64 end)
{
    vc::ensure(e.startOffset() == start, "atom starts where it has been expected");
    vc::ensure(e.headerSize() == 8 || e.headerSize() == 16, "header has 8 or 16 bytes");
    vc::ensure(e.dataOffset() == start + e.headerSize() && e.dataOffset() <= end, "header is within the enclosing atom");
    vc::ensure(e.endOffset() == e.dataOffset() + e.dataSize() && e.endOffset() >= e.dataOffset() && e.endOffset() <= end,
        "atom is within the enclosing atom");
}

VC_HARNESS(top_level)
{
    const auto size = vc::any<u64>("fileSize");
    const auto start = vc::any<u64>("start");
    vc::assume(size <= maxFile && start <= maxFile);
    vc::Stream s("file", size);
    Fixture f(s.io, size);
    Mp4Atom e(f.container, start);
    if (!parse(e, f.diag)) {
        vc::cover("rejected");
        vc::finish();
    }
    vc::cover("parsed");
    extent(e, start, size);
    const u64 denoted32 = s.be(start, 4), end = e.endOffset();
    vc::ensure(e.id() == s.be(start + 4, 4), "ID is the value of the ID bytes");
    vc::ensure((e.headerSize() == 16) == (denoted32 == 1), "64-bit size is used if denoted");
    const u64 denoted = denoted32 == 1 ? s.be(start + 8, 8) : denoted32 == 0 ? size - start : denoted32;
    vc::ensure(end - start == std::min(denoted, size - start), "extent is the denoted one or what is available");
    vc::ensure(denoted <= size - start || f.diag.has(DiagLevel::Warning), "truncation is reported");
    if (denoted32 == 1)
        vc::cover("64-bit size");
    if (const auto *const child = e.firstChild()) {
        vc::ensure(child->parent() == &e && child->startOffset() >= e.dataOffset() && child->startOffset() + 8 <= end, "first child starts within the data");
        vc::ensure(child->maxTotalSize() == end - child->startOffset(), "first child may take the remaining bytes of its parent");
        vc::cover("child");
    }
    vc::ensure((e.nextSibling() != nullptr) == (end < size), "there is a next sibling if there are bytes left");
    if (const auto *const sibling = e.nextSibling()) {
        vc::ensure(sibling->startOffset() == end, "next sibling starts where the atom ends");
        vc::ensure(sibling->maxTotalSize() == size - end, "next sibling may take the remaining bytes");
        vc::cover("sibling");
    }
    vc::finish();
}

VC_HARNESS(child)
{
    const auto size = vc::any<u64>("fileSize");
    const auto start = vc::any<u64>("start");
    vc::assume(size <= maxFile && start <= maxFile);
    vc::Stream s("file", size);
    Fixture f(s.io, size);
    Mp4Atom e(f.container, start);
    if (!parse(e, f.diag))
        vc::finish();
    auto *const c = e.firstChild();
    if (!c)
        vc::finish();
    const u64 end = e.endOffset(), childStart = c->startOffset();
    if (!parse(*c, f.diag))
        vc::finish();
    extent(*c, childStart, end);
    vc::ensure((c->nextSibling() != nullptr) == (c->endOffset() < end), "child has a sibling if there are bytes left in the parent");
    if (auto *const n = c->nextSibling()) {
        vc::ensure(n->startOffset() == c->endOffset() && n->maxTotalSize() == end - c->endOffset() && n->parent() == &e,
            "next sibling of a child takes the remaining bytes of the parent");
        vc::cover("sibling of child");
    }
    vc::ensure(e.endOffset() == end && e.startOffset() == start, "parent unchanged");
    vc::finish();
}

// what makeHeader() writes is read back
VC_HARNESS(make_header)
{
    const auto data = vc::any<u64>("dataSize");
    const auto id = vc::any<u32>("id");
    vc::assume(data < maxFile - 100);
    u64 total = data;
    Mp4Atom::addHeaderSize(total);
    vc::Stream s("file", 0);
    CppUtilities::BinaryWriter writer(&s.io);
    Mp4Atom::makeHeader(total, id, writer);
    const u64 written = s.size();
    vc::ensure(written == total - data, "size of the written header is the one added by addHeaderSize()");
    vc::Stream t("copy", total);
    for (unsigned i = 0; i != vc::split(unsigned(written)); ++i)
        t.io.put(static_cast<char>(s.at(i)));
    Fixture f(t.io, total);
    Mp4Atom e(f.container, 0);
    vc::ensure(parse(e, f.diag), "written header can be parsed");
    vc::ensure(e.dataOffset() == written && e.dataSize() == data && e.endOffset() == total, "data size read back");
    vc::ensure(e.id() == id, "ID read back");
    if (written == 16)
        vc::cover("64-bit size");
    else
        vc::cover("32-bit size");
    vc::finish();
}

VC_HARNESS(seek_back)
{
    const auto start = vc::any<u64>("start");
    const auto length = vc::any<u64>("length");
    const auto before = vc::any<u64>("pos");
    vc::assume(start < maxFile / 2 && length < maxFile / 2 && length >= 8 && before < start + length);
    vc::Stream s("file", start + length);
    s.io.seekp(static_cast<std::streamoff>(start + length));
    Diagnostics diag;
    bool thrown = false;
    try {
        Mp4Atom::seekBackAndWriteAtomSize(s.io, std::ostream::pos_type(static_cast<std::streamoff>(start)), diag);
    } catch (const Failure &) {
        thrown = true;
    }
    vc::ensure(thrown == (length > 0xFFFFFFFF), "size is rejected exactly if not representable");
    vc::ensure(static_cast<u64>(s.io.tellp()) == start + length && s.size() == start + length, "position restored");
    if (thrown)
        vc::cover("too big");
    else
        vc::ensure(s.be(start, 4) == length, "number of bytes since start written");
    vc::ensure((!thrown && before >= start && before < start + 4) || s.at(before) == s.orig(before), "nothing but the size is overwritten");
    vc::finish();
}

VC_HARNESS(seek_back64)
{
    const auto start = vc::any<u64>("start");
    const auto length = vc::any<u64>("length");
    const auto before = vc::any<u64>("pos");
    vc::assume(start < maxFile / 2 && length < maxFile / 2 && length >= 16 && before < start + length);
    vc::Stream s("file", start + length);
    s.io.seekp(static_cast<std::streamoff>(start + length));
    Mp4Atom::seekBackAndWriteAtomSize64(s.io, std::ostream::pos_type(static_cast<std::streamoff>(start)));
    vc::ensure(static_cast<u64>(s.io.tellp()) == start + length && s.size() == start + length, "position restored");
    vc::ensure(s.be(start, 4) == 1 && s.be(start + 8, 8) == length, "number of bytes since start written");
    vc::ensure((before >= start && before < start + 4) || (before >= start + 8 && before < start + 16) || s.at(before) == s.orig(before),
        "nothing but the size is overwritten");
    vc::cover("written");
    vc::finish();
}
