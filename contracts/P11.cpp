// Vorbis comments
#include "conversions.h"
#include "flac/flacmetadata.h"
#include "vorbis/vorbiscomment.h"
#include "vorbis/vorbiscommentfield.h"
#include "vorbis/vorbiscommentids.h"
#include <c++utilities/conversion/stringconversion.h>
#include <c++utilities/io/binaryreader.h>
#include <c++utilities/io/binarywriter.h>

constexpr auto utf8 = TagTextEncoding::Utf8;

// ---- fields
// reads a field from arbitrary bytes with an ID of n characters (if there is a separator)
static void parseField(unsigned n, bool separator)
{
    const auto start = vc::any<u64>("start"), fileSize = vc::any<u64>("fileSize"), maxSize = vc::any<u64>("maxSize"), i = vc::any<u64>("i");
    vc::assume(start < maxFile / 2 && fileSize < maxFile / 2 && maxSize <= fileSize && start <= fileSize - maxSize && maxSize < 0x80000000);
    vc::Stream s("file", fileSize);
    s.io.seekg(static_cast<std::streamoff>(start));
    const u64 size = maxSize >= 4 ? s.le(start, 4) : 0;
    if (!separator)
        vc::assume(size == n);
    else
        vc::assume(size > n && maxSize >= 5 + n && s.at(start + 4 + n) == '=');
    if (maxSize >= 4 + n)
        for (unsigned k = 0; k != n; ++k)
            vc::assume(s.at(start + 4 + k) != '=');
    VorbisCommentField field;
    Diagnostics diag;
    u64 left = maxSize;
    // the cover is the subject of other contracts
    if (n == VorbisCommentIds::cover().size())
        vc::assume(s.at(start + 4) != 'M');
    try {
        field.parse(s.io, left, diag);
    } catch (const TruncatedDataException &) {
        vc::ensure(maxSize < 4 || size > maxSize - 4, "only fields which exceed the available bytes are truncated");
        vc::ensure(diag.has(DiagLevel::Critical), "truncation is reported");
        vc::ensure(field.value().isEmpty(), "nothing is read from a truncated field");
        vc::cover("truncated");
        vc::finish();
    } catch (const InvalidDataException &) {
        vc::ensure(size && !n, "only fields without ID are invalid");
        vc::ensure(diag.has(DiagLevel::Critical), "invalid fields are reported");
        vc::ensure(s.pos() == start + 4 + size && left == maxSize - 4 - size, "the bytes of invalid fields are consumed");
        vc::cover("invalid");
        vc::finish();
    }
    vc::ensure(maxSize >= 4 && size <= maxSize - 4 && (n || !size), "fields which exceed the available bytes or have no ID are rejected");
    vc::ensure(s.pos() == start + 4 + size && left == maxSize - 4 - size, "exactly the bytes of the field are consumed");
    if (!size)
        vc::ensure(field.id().empty() && field.value().isEmpty(), "empty field");
    vc::ensure(field.id().size() == n, "the ID ends at the first separator");
    bool same = true;
    for (unsigned k = 0; k != n; ++k)
        same = same && static_cast<u8>(field.id()[k]) == s.at(start + 4 + k);
    vc::ensure(same, "ID is the denoted one");
    const u64 valueSize = separator ? size - n - 1 : 0;
    if (separator && valueSize >= 3)
        vc::assume(s.be(start + 5 + n, 3) != 0xEFBBBF);
    const auto &v = field.value();
    vc::ensure(v.dataSize() == valueSize, "the value is everything after the separator");
    if (valueSize)
        vc::ensure(v.type() == TagDataType::Text && v.dataEncoding() == utf8, "values are UTF-8 texts");
    if (separator) {
        vc::cover("read");
        vc::assume(i < valueSize);
        vc::ensure(static_cast<u8>(v.dataPointer()[i]) == s.at(start + 5 + n + i), "value is the denoted one");
    }
    vc::finish();
}
// vc-bound field_parse: IDs of up to 7 characters (values of any size)
VC_HARNESS(field_parse)
{
    const auto n = vc::any<u8>("n");
    vc::assume(n <= 7 && n != 6);
    parseField(vc::split(n), true);
}
// vc-bound field_parse_no_value: IDs of up to 5 characters
VC_HARNESS(field_parse_no_value)
{
    const auto n = vc::any<u8>("n");
    vc::assume(n <= 5);
    parseField(vc::split(n), false);
}

namespace {
double number;
bool numberOk;
std::string_view *numberText;
double numberContract(const char *text, std::size_t size)
{
    *numberText = std::string_view(text, size);
    if (!numberOk)
        throw CppUtilities::ConversionException();
    return number;
}
double numberContractView(std::string_view text, int)
{
    return numberContract(text.data(), text.size());
}
} // namespace
// ratings are numbers
VC_HARNESS(field_parse_rating)
{
    const auto start = vc::any<u64>("start"), fileSize = vc::any<u64>("fileSize"), i = vc::any<u64>("i");
    const auto n = vc::any<u32>("number");
    vc::assume(start < maxFile / 2 && fileSize < maxFile / 2 && start + 12 < fileSize && n <= 100);
    numberOk = vc::split(vc::any<bool>("numberOk"));
    number = static_cast<double>(n);
    std::string_view text;
    numberText = &text;
    vc::useContract("double CppUtilities::stringToNumber<double", &numberContractView);
    vc::Stream s("file", fileSize);
    s.io.seekg(static_cast<std::streamoff>(start));
    const u64 size = s.le(start, 4);
    vc::assume(size > 7 && size < 0x80000000 && start + 4 + size <= fileSize && s.be(start + 4, 7) == 0x524154494E473D);
    if (size >= 10)
        vc::assume(s.be(start + 11, 3) != 0xEFBBBF);
    if (!__vc_symbolic())
        vc::finish();
    VorbisCommentField field;
    Diagnostics diag;
    u64 left = 4 + size;
    field.parse(s.io, left, diag);
    vc::ensure(text.size() == size - 7, "rating is everything after the separator");
    vc::ensure(s.pos() == start + 4 + size && left == 0, "exactly the bytes of the field are consumed");
    if (numberOk) {
        const auto p = field.value().toPopularity();
        vc::ensure(field.value().type() == TagDataType::Popularity && p.rating == number && p.scale == TagType::VorbisComment && p.playCounter == 0 && p.user.empty(), "rating is the number");
        vc::cover("rating");
        vc::finish();
    }
    vc::ensure(diag.size() == 1 && field.value().type() == TagDataType::Text && field.value().dataSize() == size - 7, "other ratings are texts");
    vc::cover("text");
    vc::assume(i < size - 7);
    vc::ensure(static_cast<u8>(field.value().dataPointer()[i]) == s.at(start + 11 + i), "value is the denoted one");
    vc::finish();
}

// writes a field with an ID and text of any size
VC_HARNESS(field_make)
{
    const auto start = vc::any<u64>("start"), idSize = vc::any<u64>("idSize"), size = vc::any<u64>("size"), i = vc::any<u64>("i"), j = vc::any<u64>("j");
    const auto flags = vc::any<u8>("flags");
    vc::assume(start < maxFile / 2 && idSize >= 32 && idSize < 0xF0000000 && size < 0xF0000000 && flags < 16);
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    const char *id = vc::buffer("id", idSize + 8), *text = vc::buffer("text", size + 8);
    vc::assume(size < 3 || vc::be(text, 3) != 0xEFBBBF);
    VorbisCommentField field;
    Diagnostics diag;
    field.setId(std::string(id, idSize));
    field.value().assignText(text, size, utf8);
    CppUtilities::BinaryWriter w(&s.io);
    try {
        vc::ensure(field.make(w, static_cast<VorbisCommentFlags>(flags), diag), "field is written");
    } catch (const InvalidDataException &) {
        vc::ensure(idSize + 1 + size > 0xFFFFFFFF, "only fields whose size cannot be denoted are rejected");
        vc::ensure(s.size() == start && s.pos() == start && diag.has(DiagLevel::Critical), "nothing is written when rejecting a field and this is reported");
        vc::cover("rejected");
        vc::finish();
    }
    vc::ensure(idSize + 1 + size <= 0xFFFFFFFF, "fields whose size cannot be denoted are rejected");
    vc::ensure(s.size() == start + 4 + idSize + 1 + size && s.pos() == s.size(), "exactly the bytes of the field are written");
    vc::ensure(s.le(start, 4) == idSize + 1 + size, "size is denoted");
    vc::ensure(i >= idSize || s.at(start + 4 + i) == static_cast<u8>(id[i]), "ID is written");
    vc::ensure(s.at(start + 4 + idSize) == '=', "ID and value are separated");
    vc::ensure(j >= size || s.at(start + 5 + idSize + j) == static_cast<u8>(text[j]), "value is written");
    vc::cover("written");
    vc::finish();
}
// texts of another encoding are converted to UTF-8
VC_HARNESS(field_make_converted)
{
    const auto start = vc::any<u64>("start");
    const auto e = vc::any<u8>("encoding");
    vc::assume(start < maxFile / 2 && e < 5 && e != static_cast<u8>(utf8));
    const auto encoding = static_cast<TagTextEncoding>(vc::split(e));
    useConversions();
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    char text[4];
    vc::bytes("text", text, 4);
    vc::assume(vc::be(text, 2) != 0xFEFF && vc::be(text, 2) != 0xFFFE);
    if (!__vc_symbolic())
        vc::finish();
    conversions = 0;
    VorbisCommentField field("TITLE", TagValue(text, 4, encoding));
    Diagnostics diag;
    CppUtilities::BinaryWriter w(&s.io);
    vc::ensure(field.make(w, VorbisCommentFlags::None, diag), "field is written");
    if (encoding == TagTextEncoding::Unspecified) {
        vc::ensure(conversions == 0 && s.size() == start + 14, "text of unspecified encoding is taken as is");
        vc::finish();
    }
    vc::ensure(conversions == 1 && from == encoding && to == utf8 && inputSize == 4, "text is converted to UTF-8");
    vc::ensure(s.size() == start + 12 && s.le(start, 4) == 8 && s.be(start + 4, 8) == 0x5449544C453D5859, "converted text is written");
    vc::cover("converted");
    vc::finish();
}

// ---- covers
namespace {
const char *b64In;
u64 b64InSize;
char *b64Out;
u64 b64OutSize;
unsigned b64Calls;
bool b64Ok;
std::pair<std::unique_ptr<u8[]>, u32> decodeContract(const char *in, u32 n)
{
    ++b64Calls;
    b64In = in;
    b64InSize = n;
    if (!b64Ok)
        throw CppUtilities::ConversionException();
    return { std::unique_ptr<u8[]>(reinterpret_cast<u8 *>(b64Out)), static_cast<u32>(b64OutSize) };
}
std::string encodeContract(const u8 *in, u32 n)
{
    ++b64Calls;
    b64InSize = n;
    std::memcpy(b64Out, in, n);
    return std::string("BASE64");
}
} // namespace
// vc-bound cover_parse: pictures with MIME-types and descriptions of up to 3 bytes (data of any size)
VC_HARNESS(cover_parse)
{
    const auto start = vc::any<u64>("start"), size = vc::any<u64>("size"), i = vc::any<u64>("i");
    const auto typeInfo = vc::any<u32>("type"), dataSize = vc::any<u32>("dataSize");
    auto mimeSize = vc::any<u8>("mimeSize"), descSize = vc::any<u8>("descSize");
    const auto slack = vc::any<u8>("slack");
    vc::assume(start < maxFile / 2 && size > 23 && size < 0x80000000 && mimeSize <= 3 && descSize <= 3 && slack <= 40 && dataSize < 0x7FFFFFFF - 100);
    mimeSize = vc::split(mimeSize), descSize = vc::split(descSize);
    vc::Stream s("file", start + 4 + size);
    b64Ok = vc::split(vc::any<bool>("ok"));
    b64Calls = 0;
    // the decoded block is truncated if there is less data than denoted
    b64OutSize = static_cast<u64>(32) + mimeSize + descSize + dataSize + slack;
    vc::assume(b64OutSize >= 40);
    b64OutSize -= 20;
    if (!__vc_symbolic())
        vc::finish();
    b64Out = static_cast<char *>(::operator new(b64OutSize));
    std::memcpy(b64Out, vc::buffer("decoded", b64OutSize), b64OutSize);
    vc::assume(vc::be(b64Out, 4) == typeInfo && vc::be(b64Out + 4, 4) == mimeSize && vc::be(b64Out + 8 + mimeSize, 4) == descSize);
    const bool fits = slack >= 20;
    vc::assume(b64OutSize < 32u + mimeSize + descSize || vc::be(b64Out + 28 + mimeSize + descSize, 4) == dataSize);
    vc::useContract("CppUtilities::decodeBase64(", &decodeContract);
    vc::assume(s.le(start, 4) == size);
    const char id[] = "METADATA_BLOCK_PICTURE=";
    for (unsigned k = 0; k != 23; ++k)
        vc::assume(s.at(start + 4 + k) == static_cast<u8>(id[k]));
    s.io.seekg(static_cast<std::streamoff>(start));
    VorbisCommentField field;
    Diagnostics diag;
    u64 left = 4 + size;
    try {
        field.parse(s.io, left, diag);
        vc::ensure(b64Ok && fits, "truncated pictures and invalid coding are rejected");
    } catch (const TruncatedDataException &) {
        vc::ensure(b64Ok && !fits && diag.has(DiagLevel::Critical), "only pictures which exceed the decoded data are truncated");
        vc::cover("truncated");
        vc::finish();
    } catch (const InvalidDataException &) {
        vc::ensure(!b64Ok && diag.has(DiagLevel::Critical) && field.value().isEmpty(), "invalid coding is reported");
        vc::cover("invalid coding");
        vc::finish();
    }
    vc::ensure(s.pos() == start + 4 + size && left == 0, "exactly the bytes of the field are consumed");
    vc::ensure(b64Calls == 1 && b64InSize == size - 23, "everything after the separator is decoded");
    const auto &v = field.value();
    vc::ensure(field.typeInfo() == typeInfo && v.mimeType().size() == mimeSize && v.description().size() == descSize && v.dataSize() == dataSize, "type, MIME-type, description and data are the denoted ones");
    vc::ensure(!dataSize || v.type() == TagDataType::Picture, "value is a picture");
    vc::cover("picture");
    vc::assume(i < dataSize);
    vc::ensure(static_cast<u8>(v.dataPointer()[i]) == __vc_arr_at("decoded", 32 + mimeSize + descSize + i), "data");
    vc::finish();
}
// a cover without separator has no picture
VC_HARNESS(cover_without_value)
{
    const auto start = vc::any<u64>("start");
    vc::assume(start < maxFile / 2);
    vc::Stream s("file", start + 26);
    b64Ok = true;
    b64Calls = 0;
    b64OutSize = 0;
    if (!__vc_symbolic())
        vc::finish();
    b64Out = static_cast<char *>(::operator new(1));
    vc::useContract("CppUtilities::decodeBase64(", &decodeContract);
    vc::assume(s.le(start, 4) == 22);
    const char id[] = "METADATA_BLOCK_PICTURE";
    for (unsigned k = 0; k != 22; ++k)
        vc::assume(s.at(start + 4 + k) == static_cast<u8>(id[k]));
    s.io.seekg(static_cast<std::streamoff>(start));
    VorbisCommentField field;
    Diagnostics diag;
    u64 left = 26;
    try {
        field.parse(s.io, left, diag);
    } catch (const Failure &) {
        vc::ensure(diag.has(DiagLevel::Critical), "missing picture is reported");
    }
    vc::ensure(b64Calls == 0 || b64InSize == 0, "nothing beyond the field is decoded");
    vc::ensure(field.value().isEmpty() && left == 0 && s.pos() == start + 26, "there is no picture");
    vc::cover("no picture");
    vc::finish();
}
// vc-bound cover_make: pictures with MIME-types and descriptions of up to 2 bytes (data of any size)
VC_HARNESS(cover_make)
{
    const auto start = vc::any<u64>("start"), dataSize = vc::any<u64>("dataSize"), i = vc::any<u64>("i");
    const auto typeInfo = vc::any<u32>("type");
    auto mimeSize = vc::any<u8>("mimeSize"), descSize = vc::any<u8>("descSize");
    const auto noCovers = vc::split(vc::any<bool>("noCovers"));
    vc::assume(start < maxFile / 2 && mimeSize <= 2 && descSize <= 2 && dataSize < 0x100000400 && dataSize);
    mimeSize = vc::split(mimeSize), descSize = vc::split(descSize);
    const char *data = vc::buffer("data", dataSize + 8);
    char mime[2], desc[2];
    vc::bytes("mime", mime, 2);
    vc::bytes("desc", desc, 2);
    if (!__vc_symbolic())
        vc::finish();
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    b64Calls = 0;
    b64Out = static_cast<char *>(::operator new(0x100000000));
    vc::useContract("CppUtilities::encodeBase64", &encodeContract);
    VorbisCommentField field("METADATA_BLOCK_PICTURE", TagValue(data, dataSize, TagDataType::Picture));
    field.value().setMimeType(std::string_view(mime, mimeSize));
    field.value().setDescription(std::string_view(desc, descSize), utf8);
    field.setTypeInfo(typeInfo);
    Diagnostics diag;
    CppUtilities::BinaryWriter w(&s.io);
    bool written;
    const u64 required = 32 + mimeSize + descSize + dataSize;
    try {
        written = field.make(w, noCovers ? VorbisCommentFlags::NoCovers : VorbisCommentFlags::None, diag);
    } catch (const InvalidDataException &) {
        vc::ensure(required > 0xFFFFFFFF && !noCovers && diag.has(DiagLevel::Critical), "only pictures whose size cannot be denoted are rejected");
        vc::ensure(s.size() == start, "nothing is written when rejecting a field");
        vc::cover("rejected");
        vc::finish();
    }
    vc::ensure(written == !noCovers, "covers are skipped if requested");
    if (!written) {
        vc::ensure(s.size() == start && s.pos() == start && b64Calls == 0, "nothing is written for skipped covers");
        vc::cover("skipped");
        vc::finish();
    }
    vc::ensure(b64Calls == 1 && b64InSize == required, "the picture structure is encoded");
    vc::ensure(vc::be(b64Out, 4) == typeInfo && vc::be(b64Out + 4, 4) == mimeSize && vc::be(b64Out + 8 + mimeSize, 4) == descSize && vc::be(b64Out + 28 + mimeSize + descSize, 4) == dataSize,
        "type and sizes are denoted");
    bool same = true;
    for (unsigned k = 0; k != mimeSize; ++k)
        same = same && b64Out[8 + k] == mime[k];
    for (unsigned k = 0; k != descSize; ++k)
        same = same && b64Out[12 + mimeSize + k] == desc[k];
    vc::ensure(same, "MIME-type and description are written");
    vc::ensure(s.size() == start + 33 && s.le(start, 4) == 29 && s.at(start + 26) == '=' && s.be(start + 27, 6) == 0x424153453634, "encoded picture is written");
    vc::cover("picture");
    vc::assume(i < dataSize);
    vc::ensure(b64Out[32 + mimeSize + descSize + i] == data[i], "data is written");
    vc::finish();
}
VC_HARNESS(cover_make_other)
{
    const auto start = vc::any<u64>("start");
    vc::assume(start < maxFile / 2);
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    VorbisCommentField field("METADATA_BLOCK_PICTURE", TagValue("abc", 3, TagDataType::Text, utf8));
    Diagnostics diag;
    CppUtilities::BinaryWriter w(&s.io);
    try {
        field.make(w, VorbisCommentFlags::None, diag);
        vc::ensure(false, "covers which are no picture are rejected");
    } catch (const InvalidDataException &) {
        vc::ensure(diag.has(DiagLevel::Critical) && s.size() == start, "nothing is written when rejecting a field");
        vc::cover("rejected");
    }
    vc::finish();
}

// ---- whole comments
static VorbisCommentField &add(VorbisComment &c, const char *id, const char *text, u64 size)
{
    return c.fields().emplace(std::string(id), VorbisCommentField(std::string(id), TagValue(text, size, TagDataType::Text, utf8)))->second;
}
static void setCover(VorbisComment &c, const char *text)
{
    // a value which is no picture: cannot be written
    c.fields().emplace(std::string("METADATA_BLOCK_PICTURE"), VorbisCommentField("METADATA_BLOCK_PICTURE", TagValue(text, 1, TagDataType::Text, utf8)));
}
// writes a comment with two texts of any size
static void makeComment(bool signature, bool framing)
{
    const auto start = vc::any<u64>("start"), vendorSize = vc::any<u64>("vendorSize"), size1 = vc::any<u64>("size1"), size2 = vc::any<u64>("size2"), i = vc::any<u64>("i");
    const auto first = vc::split(vc::any<bool>("first")), second = vc::split(vc::any<bool>("second")), bad = vc::split(vc::any<bool>("bad")), noCovers = vc::split(vc::any<bool>("noCovers"));
    vc::assume(start < maxFile / 2 && vendorSize < 0x40000000 && size1 < 0x40000000 && size2 < 0x40000000 && size1 > 15 && size2 > 15 && vendorSize > 15);
    vc::Stream s("file", start);
    s.io.seekp(static_cast<std::streamoff>(start));
    const char *vendor = vc::buffer("vendor", vendorSize + 8), *text1 = vc::buffer("text1", size1 + 8), *text2 = vc::buffer("text2", size2 + 8);
    vc::assume(vc::be(vendor, 3) != 0xEFBBBF && vc::be(text1, 3) != 0xEFBBBF && vc::be(text2, 3) != 0xEFBBBF);
    VorbisComment c;
    Diagnostics diag;
    c.setVendor(TagValue(vendor, vendorSize, TagDataType::Text, utf8));
    if (second)
        add(c, "TITLE", text2, size2);
    if (first)
        add(c, "ALBUM", text1, size1);
    c.fields().emplace(std::string("EMPTY"), VorbisCommentField("EMPTY", TagValue()));
    if (bad)
        setCover(c, "x");
    c.make(s.io, (noCovers ? VorbisCommentFlags::NoCovers : VorbisCommentFlags::None) | (signature ? VorbisCommentFlags::None : VorbisCommentFlags::NoSignature) | (framing ? VorbisCommentFlags::None : VorbisCommentFlags::NoFramingByte), diag);
    u64 p = start;
    if (signature) {
        vc::ensure(s.be(p, 7) == 0x03766F72626973, "signature");
        p += 7;
    }
    vc::ensure(s.le(p, 4) == vendorSize, "vendor size is denoted");
    vc::ensure(i >= vendorSize || s.at(p + 4 + i) == static_cast<u8>(vendor[i]), "vendor is written");
    p += 4 + vendorSize;
    vc::ensure(s.le(p, 4) == static_cast<u64>(first) + second, "number of fields is the number of fields written");
    p += 4;
    if (first) {
        vc::ensure(s.le(p, 4) == 6 + size1 && s.be(p + 4, 6) == 0x414C42554D3D, "first field");
        vc::ensure(i >= size1 || s.at(p + 10 + i) == static_cast<u8>(text1[i]), "value of first field");
        p += 10 + size1;
    }
    if (second) {
        vc::ensure(s.le(p, 4) == 6 + size2 && s.be(p + 4, 6) == 0x5449544C453D, "second field");
        vc::ensure(i >= size2 || s.at(p + 10 + i) == static_cast<u8>(text2[i]), "value of second field");
        p += 10 + size2;
    }
    if (framing) {
        vc::ensure(s.at(p) == 1, "framing byte");
        p += 1;
    }
    vc::ensure(s.size() == p && s.pos() == p, "nothing else is written");
    vc::ensure((bad && !noCovers) == diag.has(DiagLevel::Critical), "fields which cannot be written are reported");
    vc::cover("comment");
    vc::finish();
}
VC_HARNESS(make_comment)
{
    makeComment(true, true);
}
VC_HARNESS(make_comment_flac)
{
    makeComment(false, false);
}
VC_HARNESS(make_comment_opus)
{
    makeComment(true, false);
}

// reads a comment with two fields; `any` determines which of vendor, first and second field is of any size
static void parseComment(bool signature, bool framing, unsigned any, bool truncated)
{
    const auto start = vc::any<u64>("start"), maxSize = vc::any<u64>("maxSize"), fileSize = vc::any<u64>("fileSize"), i = vc::any<u64>("i");
    const auto year = !truncated && vc::split(vc::any<bool>("year")), date = vc::split(vc::any<bool>("date"));
    vc::assume(start < maxFile / 2 && fileSize < maxFile / 2 && maxSize > 50 && maxSize <= fileSize && start + maxSize + framing <= fileSize && maxSize < 0x80000000);
    vc::Stream s("file", fileSize);
    s.io.seekg(static_cast<std::streamoff>(start));
    const u64 signatureSize = signature ? 7 : 0;
    if (signature)
        vc::assume(s.be(start, 7) == 0x03766F72626973);
    const u64 vendorStart = start + signatureSize + 4;
    const u64 vendorSize = any == 0 ? s.le(vendorStart - 4, 4) : 5;
    vc::assume(s.le(vendorStart - 4, 4) == vendorSize && vendorSize > 4 && signatureSize + 12 + vendorSize <= maxSize);
    const u64 start1 = vendorStart + vendorSize + 8;
    vc::assume(s.le(start1 - 8, 4) == 2);
    const u64 size1 = any == 1 ? s.le(start1 - 4, 4) : 12;
    vc::assume(s.le(start1 - 4, 4) == size1 && size1 > 10 && signatureSize + 16 + vendorSize + size1 <= maxSize);
    const u64 start2 = start1 + size1 + 4;
    const u64 size2 = any == 2 ? s.le(start2 - 4, 4) : 12;
    // the second field exceeds the available bytes or not
    vc::assume(s.le(start2 - 4, 4) == size2 && size2 > 10 && (signatureSize + 16 + vendorSize + size1 + size2 > maxSize) == truncated);
    // "DATE=" or "NAME=" and "YEAR=" or "XABC="
    vc::assume(s.be(start1, 5) == (date ? 0x446174653D : 0x4E616D653D) && s.be(start1 + 5, 3) != 0xEFBBBF && s.be(vendorStart, 3) != 0xEFBBBF);
    if (!truncated)
        vc::assume(s.be(start2, 5) == (year ? 0x796561723D : 0x586162633D) && s.be(start2 + 5, 3) != 0xEFBBBF);
    VorbisComment c;
    Diagnostics diag;
    try {
        c.parse(s.io, maxSize, (signature ? VorbisCommentFlags::None : VorbisCommentFlags::NoSignature) | (framing ? VorbisCommentFlags::None : VorbisCommentFlags::NoFramingByte), diag);
        vc::ensure(!truncated, "truncated comments are rejected");
    } catch (const TruncatedDataException &) {
        vc::ensure(truncated && diag.has(DiagLevel::Critical), "only truncated comments are rejected");
        vc::ensure(c.fieldCount() == 1 && c.vendor().dataSize() == vendorSize, "what precedes the truncated field is kept");
        vc::cover("truncated");
        vc::finish();
    }
    const u64 stop = start2 + size2 + framing;
    vc::ensure(s.pos() == stop && c.size() == stop - start, "exactly the comment is consumed");
    vc::ensure(c.vendor().dataSize() == vendorSize && (i >= vendorSize || static_cast<u8>(c.vendor().dataPointer()[i]) == s.at(vendorStart + i)), "vendor is the denoted one");
    vc::ensure(c.fieldCount() == 2 && c.fields().size() == 2, "all fields are read");
    const auto &v1 = c.value(date ? std::string("DATE") : std::string("NAME"));
    const auto &v2 = c.value(year ? (date ? std::string("YEAR") : std::string("DATE")) : std::string("XABC"));
    vc::ensure(v1.dataSize() == size1 - 5 && v2.dataSize() == size2 - 5, "IDs are case-insensitive and years are considered dates if there is no date");
    vc::ensure(i >= size1 - 5 || static_cast<u8>(v1.dataPointer()[i]) == s.at(start1 + 5 + i), "value of first field");
    vc::ensure(i >= size2 - 5 || static_cast<u8>(v2.dataPointer()[i]) == s.at(start2 + 5 + i), "value of second field");
    vc::ensure(diag.empty(), "nothing to report");
    vc::cover("comment");
    vc::finish();
}
// vc-bound parse_comment_vendor: comments with two fields of 12 bytes (vendor of any size)
VC_HARNESS(parse_comment_vendor)
{
    parseComment(true, true, 0, false);
}
// vc-bound parse_comment_first: comments with a field of any size and one of 12 bytes
VC_HARNESS(parse_comment_first)
{
    parseComment(true, false, 1, false);
}
// vc-bound parse_comment_second: comments with a field of 12 bytes and one of any size
VC_HARNESS(parse_comment_second)
{
    parseComment(false, false, 2, false);
}
// vc-bound parse_comment_truncated_field: comments with a field of 12 bytes and a truncated field of any size
VC_HARNESS(parse_comment_truncated_field)
{
    parseComment(false, false, 2, true);
}
VC_HARNESS(parse_signature)
{
    const auto start = vc::any<u64>("start"), maxSize = vc::any<u64>("maxSize"), fileSize = vc::any<u64>("fileSize");
    vc::assume(start < maxFile / 2 && fileSize < maxFile / 2 && maxSize <= fileSize && start + maxSize <= fileSize);
    vc::Stream s("file", fileSize);
    s.io.seekg(static_cast<std::streamoff>(start));
    VorbisComment c;
    Diagnostics diag;
    if (maxSize >= 7)
        vc::assume(s.be(start, 7) != 0x03766F72626973);
    try {
        c.parse(s.io, maxSize, VorbisCommentFlags::None, diag);
        vc::ensure(false, "data without signature is rejected");
    } catch (const TruncatedDataException &) {
        vc::ensure(maxSize < 7, "truncated");
        vc::cover("truncated");
    } catch (const InvalidDataException &) {
        vc::cover("no comment");
    }
    vc::ensure(diag.has(DiagLevel::Critical) && c.fields().empty() && c.vendor().isEmpty(), "rejected comments are reported");
    vc::finish();
}
// vc-bound parse_comment_invalid_field: comments with one valid field of four characters (value of any size) and a field without ID
VC_HARNESS(parse_comment_invalid_field)
{
    const auto start = vc::any<u64>("start"), fileSize = vc::any<u64>("fileSize");
    vc::assume(start < maxFile / 2 && fileSize < maxFile / 2 && start + 64 < fileSize);
    vc::Stream s("file", fileSize);
    s.io.seekg(static_cast<std::streamoff>(start));
    vc::assume(s.le(start, 4) == 0 && s.le(start + 4, 4) == 2);
    const u64 size1 = s.le(start + 8, 4), start2 = start + 12 + size1, size2 = s.le(start2, 4);
    vc::assume(size1 && size1 < 0x10000000 && start2 + 4 <= fileSize && size2 > 10 && size2 < 0x10000000 && start2 + 4 + size2 <= fileSize);
    vc::assume(s.at(start + 12) == '=' && s.be(start2 + 4, 5) == 0x4E616D653D && s.be(start2 + 9, 3) != 0xEFBBBF);
    VorbisComment c;
    Diagnostics diag;
    c.parse(s.io, fileSize - start, VorbisCommentFlags::NoSignature | VorbisCommentFlags::NoFramingByte, diag);
    vc::ensure(s.pos() == start2 + 4 + size2, "exactly the comment is consumed");
    vc::ensure(diag.has(DiagLevel::Critical) && c.fields().size() == 1 && c.value(std::string("NAME")).dataSize() == size2 - 5, "fields without ID are reported and skipped");
    vc::cover("comment");
    vc::finish();
}
// truncated vendor
VC_HARNESS(parse_comment_truncated)
{
    const auto start = vc::any<u64>("start"), maxSize = vc::any<u64>("maxSize"), fileSize = vc::any<u64>("fileSize");
    vc::assume(start < maxFile / 2 && fileSize < maxFile / 2 && maxSize <= fileSize && start + maxSize <= fileSize && maxSize < 0x80000000);
    vc::Stream s("file", fileSize);
    s.io.seekg(static_cast<std::streamoff>(start));
    const u64 vendorSize = maxSize >= 4 ? s.le(start, 4) : 0;
    vc::assume(maxSize < 8 || vendorSize > maxSize - 8);
    VorbisComment c;
    Diagnostics diag;
    try {
        c.parse(s.io, maxSize, VorbisCommentFlags::NoSignature | VorbisCommentFlags::NoFramingByte, diag);
        vc::ensure(false, "truncated comments are rejected");
    } catch (const TruncatedDataException &) {
        vc::ensure(diag.has(DiagLevel::Critical) && c.fields().empty(), "truncation is reported");
        vc::ensure(s.pos() <= start + maxSize, "nothing beyond the available bytes is read");
        vc::cover("truncated");
    }
    vc::finish();
}

// ---- field IDs
static VorbisComment *comment;
VC_HARNESS(known_fields)
{
    VorbisComment c;
    const auto f = vc::any<u32>("field"), other = vc::any<u32>("other");
    vc::assume(f <= static_cast<u32>(lastKnownField) && other <= static_cast<u32>(lastKnownField));
    const auto field = static_cast<KnownField>(vc::split(f));
    const auto id = c.fieldId(field);
    if (id.empty()) {
        const TagValue v("ab", 2, TagDataType::Text, utf8);
        vc::ensure(field == KnownField::Vendor || (!c.setValue(field, v) && c.fieldCount() == 0), "fields without ID are refused");
        vc::finish();
    }
    vc::ensure(c.knownField(id) == field, "known field of the ID of a known field is that field");
    auto lower = id;
    for (auto &ch : lower)
        if (ch >= 'A' && ch <= 'Z')
            ch = static_cast<char>(ch + 32);
    vc::ensure(c.knownField(lower) == field, "IDs are case-insensitive");
    vc::ensure(c.supportsField(field), "fields with ID are supported");
    const auto o = static_cast<KnownField>(vc::split(other));
    vc::ensure(o == field || c.fieldId(o) != id, "different fields have different IDs");
    vc::cover("field");
    vc::finish();
}
VC_HARNESS(vendor_field)
{
    VorbisComment c;
    const TagValue v("ab", 2, TagDataType::Text, utf8);
    vc::ensure(c.setValue(KnownField::Vendor, v) && c.value(KnownField::Vendor) == v && c.vendor() == v, "vendor is accessible as field");
    vc::ensure(c.fieldCount() == 0, "vendor is no field");
    vc::cover("vendor");
    vc::finish();
}
// vc-bound id_order: IDs of up to three characters
VC_HARNESS(id_order)
{
    const auto a = vc::split(vc::any<u8>("a") & 3), b = vc::split(vc::any<u8>("b") & 3), c = vc::split(vc::any<u8>("c") & 3);
    char x[3], y[3], z[3];
    vc::bytes("x", x, 3);
    vc::bytes("y", y, 3);
    vc::bytes("z", z, 3);
    const CaseInsensitiveStringComparer less;
    const std::string_view s(x, a), t(y, b), u(z, c);
    const bool st = less(s, t), ts = less(t, s);
    vc::ensure(!less(s, s) && !(st && ts), "order is asymmetric");
    bool same = a == b;
    for (unsigned i = 0; i != 3; ++i) {
        if (i < a && i < b) {
            const auto lower = [](char ch) { return ch >= 'A' && ch <= 'Z' ? ch + 32 : ch; };
            same = same && lower(x[i]) == lower(y[i]);
        }
    }
    vc::ensure((!st && !ts) == same, "IDs are equivalent exactly if they only differ in case");
    vc::ensure(!(st && less(t, u)) || less(s, u), "order is transitive");
    vc::cover("compared");
    vc::finish();
}

// ---- total fields
// vc-bound total_fields: at most two track numbers and two totals (any values)
VC_HARNESS(total_fields)
{
    const auto numbers = vc::split(vc::any<u8>("numbers") & 3), totals = vc::split(vc::any<u8>("totals") & 3);
    vc::assume(numbers < 3 && totals < 3);
    std::int32_t position[2], total[2], denoted[2];
    const char *names[] = { "p0", "p1", "t0", "t1", "d0", "d1" };
    VorbisComment c;
    Diagnostics diag;
    for (unsigned i = 0; i != 2; ++i) {
        position[i] = vc::any<std::int32_t>(names[i]);
        total[i] = vc::any<std::int32_t>(names[2 + i]);
        denoted[i] = vc::any<std::int32_t>(names[4 + i]);
        vc::assume(position[i]);
        if (i < numbers)
            c.fields().emplace(std::string("TRACKNUMBER"), VorbisCommentField("TRACKNUMBER", TagValue(PositionInSet(position[i], denoted[i]))));
        if (i < totals)
            c.fields().emplace(std::string("TRACKTOTAL"), VorbisCommentField("TRACKTOTAL", TagValue(total[i])));
    }
    c.convertTotalFields("context", diag);
    vc::ensure(c.fields().count("TRACKTOTAL") == 0 || totals == 0, "totals are removed");
    const auto expected = totals > numbers ? totals : numbers;
    const auto values = c.values(std::string("TRACKNUMBER"));
    vc::ensure(values.size() == expected, "number of positions");
    bool mismatch = totals > numbers;
    for (unsigned i = 0; i < expected; ++i) {
        const auto p = values[i]->toPositionInSet();
        if (i >= numbers) {
            vc::ensure(p.position() == 0 && p.total() == total[i], "totals without position are kept");
        } else {
            const bool keep = i >= totals || denoted[i];
            vc::ensure(p.position() == position[i] && p.total() == (keep ? denoted[i] : total[i]), "total is added to the position unless it has one");
            mismatch = mismatch || (i < totals && denoted[i] && denoted[i] != total[i]);
        }
    }
    vc::ensure(mismatch == !diag.empty(), "totals which do not match are reported");
    vc::cover("totals");
    vc::finish();
}
