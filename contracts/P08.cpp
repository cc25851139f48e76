// ID3v1 tag
#include "common.h"
#include "id3/id3v1tag.h"
#include "id3/id3genres.h"

// the 128 bytes of an ID3v1 tag
constexpr KnownField textFields[] = { KnownField::Title, KnownField::Artist, KnownField::Album, KnownField::RecordDate, KnownField::Comment };
constexpr unsigned offsets[] = { 3, 33, 63, 93, 97 };
constexpr unsigned lengths[] = { 30, 30, 30, 4, 28 };
constexpr KnownField allFields[] = { KnownField::Title, KnownField::Artist, KnownField::Album, KnownField::RecordDate, KnownField::Comment, KnownField::TrackPosition, KnownField::Genre };

// reads field k of a tag whose other text fields are blank
static void parseField(unsigned k)
{
    const auto start = vc::any<u64>("start");
    const auto i = vc::any<u8>("i");
    vc::assume(start < maxFile / 2);
    vc::Stream s("file", start + 128);
    s.io.seekp(static_cast<std::streamoff>(start));
    char b[128] = { 'T', 'A', 'G' };
    const auto v11 = vc::split(vc::any<bool>("v11"));
    const unsigned length = k == 4 && !v11 ? 30 : lengths[k];
    vc::bytes("text", b + offsets[k], length);
    b[126] = static_cast<char>(vc::any<u8>("track"));
    b[127] = static_cast<char>(vc::any<u8>("genre"));
    if (!v11 && k != 4)
        b[125] = 'x';
    if (!v11)
        vc::assume(b[125] != 0);
    s.io.write(b, 128);
    s.io.seekg(static_cast<std::streamoff>(start));
    Id3v1Tag tag;
    Diagnostics diag;
    tag.parse(s.io, diag);
    vc::ensure(s.pos() == start + 128 && tag.size() == 128, "128 bytes are consumed");
    vc::ensure(tag.version() == (v11 ? "1.1" : "1.0"), "version is the denoted one");
    for (unsigned j = 0; j != 5; ++j) {
        const auto &value = tag.value(textFields[j]);
        if (j != k) {
            vc::ensure((value.isEmpty() && !tag.hasField(textFields[j])) || (j == 4 && !v11), "blank fields are absent");
            continue;
        }
        // expected: text without trailing blanks
        const char *text = b + offsets[k];
        unsigned size = length;
        while (size && (text[size - 1] == 0 || text[size - 1] == ' '))
            --size;
        const bool utf8 = size >= 3 && static_cast<u8>(text[0]) == 0xEF && static_cast<u8>(text[1]) == 0xBB && static_cast<u8>(text[2]) == 0xBF;
        if (utf8) {
            text += 3;
            size -= 3;
            vc::assume(size < 3 || vc::be(text, 3) != 0xEFBBBF); // further marks are removed as well
        }
        vc::ensure(tag.hasField(textFields[k]) == (size != 0), "field is present if it is not blank");
        vc::ensure(value.dataSize() == size, "trailing blanks and byte-order mark are not part of the value");
        if (!size)
            vc::finish();
        vc::ensure(value.type() == TagDataType::Text && value.dataEncoding() == (utf8 ? TagTextEncoding::Utf8 : TagTextEncoding::Latin1), "encoding");
        vc::assume(i < size);
        vc::ensure(value.dataPointer()[i] == text[i], "text is the denoted one");
        vc::cover("text read");
    }
    if (v11) {
        vc::ensure(tag.hasField(KnownField::TrackPosition) == (b[126] != 0), "track number is present if not zero");
        const auto p = tag.value(KnownField::TrackPosition).toPositionInSet();
        vc::ensure(p.position() == static_cast<u8>(b[126]) && p.total() == 0, "track number");
    } else {
        vc::ensure(!tag.hasField(KnownField::TrackPosition), "no track number before version 1.1");
    }
    const auto &g = tag.value(KnownField::Genre);
    vc::ensure(g.type() == TagDataType::StandardGenreIndex && g.toInteger() == static_cast<u8>(b[127]), "genre index");
    vc::cover("read");
    vc::finish();
}
VC_HARNESS(parse_title)
{
    parseField(0);
}
VC_HARNESS(parse_artist)
{
    parseField(1);
}
VC_HARNESS(parse_album)
{
    parseField(2);
}
VC_HARNESS(parse_year)
{
    parseField(3);
}
VC_HARNESS(parse_comment)
{
    parseField(4);
}
VC_HARNESS(parse_signature)
{
    const auto start = vc::any<u64>("start");
    vc::assume(start < maxFile / 2);
    vc::Stream s("file", start + 128);
    vc::assume(s.be(start, 3) != 0x544147);
    s.io.seekg(static_cast<std::streamoff>(start));
    Id3v1Tag tag;
    Diagnostics diag;
    try {
        tag.parse(s.io, diag);
        vc::ensure(false, "missing signature is reported");
    } catch (const NoDataFoundException &) {
        vc::cover("no tag");
    }
    vc::ensure(tag.fieldCount() == 0, "nothing is read without signature");
    vc::finish();
}

// writes text field k with an arbitrary text of any size, an arbitrary position and genre
static void makeField(unsigned k)
{
    const auto start = vc::any<u64>("start"), size = vc::any<u64>("size");
    const auto position = vc::any<std::int32_t>("position"), genre = vc::any<std::int32_t>("genre");
    vc::assume(start < maxFile / 2 && size < 0x80000000);
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    const char *text = vc::buffer("text", size + 30);
    Id3v1Tag tag;
    Diagnostics diag;
    tag.setValue(textFields[k], TagValue(text, size, TagDataType::Text, TagTextEncoding::Latin1));
    const auto withPosition = vc::any<bool>("withPosition"), withGenre = vc::any<bool>("withGenre");
    TagValue p, g;
    if (withPosition) {
        p.assignPosition(PositionInSet(position, 99));
        tag.setValue(KnownField::TrackPosition, p);
    }
    if (withGenre) {
        g.assignStandardGenreIndex(genre);
        tag.setValue(KnownField::Genre, g);
    }
    tag.make(s.io, diag);
    vc::ensure(s.pos() == start + 128 && s.size() == start + 128, "exactly 128 bytes are written");
    vc::ensure(s.be(start, 3) == 0x544147, "signature");
    const bool positionOk = !withPosition || (position >= 0 && position <= 255), genreOk = !withGenre || genre == 255 || (genre >= 0 && genre < 192);
    vc::ensure(s.at(start + 125) == 0 && s.at(start + 126) == (positionOk && withPosition ? position : 0), "track number");
    if (genreOk)
        vc::ensure(s.at(start + 127) == (withGenre ? genre : 255), "genre index");
    vc::ensure((diag.size() != 0) == (!positionOk || !genreOk || size > lengths[k]), "values which cannot be written are reported");
    for (unsigned i = 3; i != 125; ++i) {
        const bool inside = i >= offsets[k] && i < offsets[k] + lengths[k];
        const u8 expected = inside ? static_cast<u8>(text[i - offsets[k]] * (i - offsets[k] < size)) : 0;
        vc::ensure(s.at(start + i) == expected, "text is written from the beginning as far as it fits and the remaining space is filled with zeros");
    }
    vc::cover("written");
    vc::finish();
}
VC_HARNESS(make_title)
{
    makeField(0);
}
VC_HARNESS(make_artist)
{
    makeField(1);
}
VC_HARNESS(make_album)
{
    makeField(2);
}
VC_HARNESS(make_year)
{
    makeField(3);
}
VC_HARNESS(make_comment)
{
    makeField(4);
}

// UTF-8 texts are marked with a byte-order mark so they are read back as UTF-8
VC_HARNESS(utf8)
{
    const auto start = vc::any<u64>("start");
    const auto n = vc::split(vc::any<u8>("n"));
    vc::assume(start < maxFile / 2 && n >= 1 && n <= 3);
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    char text[3];
    vc::bytes("text", text, n);
    vc::assume(text[n - 1] != 0 && text[n - 1] != ' ' && !(n == 3 && vc::be(text, 3) == 0xEFBBBF));
    Id3v1Tag tag, read;
    Diagnostics diag;
    const TagValue v(text, n, TagDataType::Text, TagTextEncoding::Utf8);
    tag.setValue(KnownField::Title, v);
    tag.make(s.io, diag);
    s.io.seekg(static_cast<std::streamoff>(start));
    read.parse(s.io, diag);
    const auto &r = read.value(KnownField::Title);
    bool ascii = true, same = r.dataSize() == n;
    for (unsigned i = 0; i != n; ++i) {
        ascii = ascii && !(text[i] & 0x80);
        same = same && r.dataPointer()[i] == text[i];
    }
    vc::ensure(same && r.dataEncoding() == (ascii ? TagTextEncoding::Latin1 : TagTextEncoding::Utf8), "text is read back with its encoding");
    vc::cover("read back");
    vc::finish();
}

// writes text field k with an UTF-8 text of the given size which has its first non-ASCII character at the given index
static void makeUtf8(unsigned k, const char *text, u64 size, u64 index)
{
    const auto start = vc::any<u64>("start");
    vc::assume(start < maxFile / 2);
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    Id3v1Tag tag;
    Diagnostics diag;
    tag.setValue(textFields[k], TagValue(text, size, TagDataType::Text, TagTextEncoding::Utf8));
    const bool marked = index < size;
    tag.make(s.io, diag);
    vc::ensure(s.pos() == start + 128 && s.size() == start + 128 && s.be(start, 3) == 0x544147, "exactly 128 bytes are written");
    vc::ensure(!marked || s.be(start + offsets[k], 3) == 0xEFBBBF, "UTF-8 is denoted by the byte-order mark");
    vc::ensure((diag.size() != 0) || (!marked && size <= lengths[k]), "limited support of encoding and truncation are reported");
    const unsigned begin = offsets[k] + (marked ? 3 : 0);
    for (unsigned i = 3; i != 127; ++i) {
        if (i >= offsets[k] && i < begin)
            continue;
        const bool inside = i >= begin && i < offsets[k] + lengths[k];
        const u8 expected = inside ? static_cast<u8>(text[i - begin] * (i - begin < size)) : 0;
        vc::ensure(s.at(start + i) == expected, "text is written behind the byte-order mark as far as it fits and the remaining space is filled with zeros");
    }
    vc::cover("written");
    vc::finish();
}
static void makeUtf8Marked(unsigned k)
{
    const auto size = vc::any<u64>("size");
    vc::assume(size < 0x80000000 && size > 3);
    const char *text = vc::buffer("text", size + 30);
    vc::assume((text[0] & 0x80) && vc::be(text, 3) != 0xEFBBBF);
    makeUtf8(k, text, size, 0);
}
VC_HARNESS(make_utf8_title)
{
    makeUtf8Marked(0);
}
VC_HARNESS(make_utf8_year)
{
    makeUtf8Marked(3);
}
VC_HARNESS(make_utf8_comment)
{
    makeUtf8Marked(4);
}
// vc-bound make_utf8_mixed: texts of 4 to 33 characters of which the first non-ASCII character can be at any index
VC_HARNESS(make_utf8_mixed)
{
    const auto size = vc::any<u8>("size"), index = vc::any<u8>("index");
    vc::assume(size >= 4 && size <= 33 && index <= size && size != 16);
    const auto n = vc::split(size), at = vc::split(index);
    char text[64];
    vc::bytes("text", text, 64);
    for (unsigned i = 0; i < at; ++i)
        vc::assume(!(text[i] & 0x80));
    if (at < n)
        vc::assume(text[at] & 0x80);
    vc::assume(vc::be(text, 3) != 0xEFBBBF);
    makeUtf8(0, text, n, at);
}
// other encodings are not denoted but a warning is emitted
VC_HARNESS(make_utf16)
{
    const auto size = vc::any<u64>("size"), start = vc::any<u64>("start");
    vc::assume(size < 0x80000000 && size > 3 && start < maxFile / 2);
    const auto be = vc::split(vc::any<bool>("be"));
    const char *text = vc::buffer("text", size + 30);
    vc::assume(vc::be(text, 2) != 0xFEFF && vc::be(text, 2) != 0xFFFE);
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    Id3v1Tag tag;
    Diagnostics diag;
    tag.setValue(KnownField::Title, TagValue(text, size, TagDataType::Text, be ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf16LittleEndian));
    tag.make(s.io, diag);
    vc::ensure(s.size() == start + 128 && diag.size() != 0, "limited support of encoding is reported");
    for (unsigned i = 3; i != 33; ++i)
        vc::ensure(s.at(start + i) == static_cast<u8>(text[i - 3] * (i - 3 < size)), "text is written from the beginning as far as it fits");
    vc::cover("written");
    vc::finish();
}

static void checkField(unsigned k)
{
    const auto other = vc::any<u8>("other");
    vc::assume(other < 7);
    char text[2];
    vc::bytes("text", text, 2);
    Id3v1Tag tag;
    const TagValue v(text, 2, TagDataType::Text, TagTextEncoding::Latin1);
    vc::ensure(tag.fieldCount() == 0 && !tag.hasField(allFields[k]), "new tags have no fields");
    vc::ensure(tag.supportsField(allFields[k]) && tag.setValue(allFields[k], v), "field is supported");
    vc::ensure(tag.fieldCount() == 1, "field is counted");
    vc::ensure(tag.hasField(allFields[other]) == (k == other), "only the assigned field is present");
    const auto &r = tag.value(allFields[k]);
    vc::ensure(r.dataSize() == 2 && r.dataPointer()[0] == text[0] && r.dataPointer()[1] == text[1], "assigned value is returned");
    tag.removeAllFields();
    vc::ensure(tag.fieldCount() == 0 && !tag.hasField(allFields[k]), "all fields are removed");
    vc::cover("field");
    vc::finish();
}
VC_HARNESS(field_title)
{
    checkField(0);
}
VC_HARNESS(field_artist)
{
    checkField(1);
}
VC_HARNESS(field_album)
{
    checkField(2);
}
VC_HARNESS(field_year)
{
    checkField(3);
}
VC_HARNESS(field_comment)
{
    checkField(4);
}
VC_HARNESS(field_track)
{
    checkField(5);
}
VC_HARNESS(field_genre)
{
    checkField(6);
}
VC_HARNESS(unsupported_fields)
{
    const auto f = vc::any<u32>("field");
    vc::assume(f <= static_cast<u32>(lastKnownField));
    const auto field = static_cast<KnownField>(f);
    for (const auto known : allFields)
        vc::assume(field != known);
    Id3v1Tag tag;
    const TagValue v("ab", 2, TagDataType::Text, TagTextEncoding::Latin1);
    vc::ensure(!tag.supportsField(field) && !tag.setValue(field, v) && !tag.hasField(field) && tag.value(field).isEmpty() && tag.fieldCount() == 0, "other fields are refused");
    vc::cover("unsupported");
    vc::finish();
}
