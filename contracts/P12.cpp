// Headers of MPEG audio, ADTS, WAVE, IVF, Opus, Vorbis and bitmaps; signatures
#include "common.h"
#include "adts/adtsframe.h"
#include "adts/adtsstream.h"
#include "avi/bitmapinfoheader.h"
#include "ivf/ivfframe.h"
#include "ivf/ivfstream.h"
#include "mpegaudio/mpegaudioframe.h"
#include "mpegaudio/mpegaudioframestream.h"
#include "mp4/mp4ids.h"
#include "signature.h"
#include "wav/waveaudiostream.h"
#include <c++utilities/io/binaryreader.h>
#include <cmath>

using namespace CppUtilities;

// tables of ISO/IEC 11172-3 and 13818-3 (bitrates in kbit/s by index 1 to 14)
static unsigned mpegBitrate(bool mpeg1, unsigned layer, unsigned index)
{
    static const unsigned v1l1[] = { 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448 };
    static const unsigned v1l2[] = { 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384 };
    static const unsigned v1l3[] = { 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 };
    static const unsigned v2l1[] = { 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256 };
    static const unsigned v2l23[] = { 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 };
    if (!index || index == 15)
        return 0;
    if (mpeg1)
        return (layer == 1 ? v1l1 : layer == 2 ? v1l2 : v1l3)[index - 1];
    return (layer == 1 ? v2l1 : v2l23)[index - 1];
}
struct MpegHeader {
    u32 header;
    bool valid;
    unsigned version; // times 10; 0 if reserved
    unsigned layer; // 0 if reserved
    unsigned bitrate;
    unsigned frequency;
    unsigned samples;
    bool padding;
    unsigned size() const
    {
        if (!bitrate || !frequency)
            return 0;
        if (layer == 1)
            return (12 * bitrate * 1000 / frequency + (padding ? 1 : 0)) * 4;
        return samples / 8 * bitrate * 1000 / frequency + (padding ? 1 : 0);
    }
};
static MpegHeader decode(u32 h, unsigned versionBits, unsigned layerBits, unsigned frequencyBits)
{
    MpegHeader r;
    r.header = h;
    r.valid = (h >> 21) == 0x7FF;
    r.version = versionBits == 3 ? 10 : versionBits == 2 ? 20 : versionBits == 0 ? 25 : 0;
    r.layer = layerBits ? 4 - layerBits : 0;
    r.bitrate = r.version && r.layer ? mpegBitrate(r.version == 10, r.layer, (h >> 12) & 0xF) : 0;
    static const unsigned frequencies[] = { 44100, 48000, 32000 };
    r.frequency = frequencyBits == 3 || !r.version ? 0 : frequencies[frequencyBits] / (r.version == 10 ? 1 : r.version == 20 ? 2 : 4);
    r.samples = r.layer == 1 ? 384 : r.layer == 2 ? 1152 : r.layer == 3 ? (r.version == 10 ? 1152 : 576) : 0;
    r.padding = (h >> 9) & 1;
    return r;
}
static MpegHeader splitHeader(u32 h)
{
    const auto versionBits = vc::split((h >> 19) & 3), layerBits = vc::split((h >> 17) & 3), frequencyBits = vc::split((h >> 10) & 3);
    return decode(h, versionBits, layerBits, frequencyBits);
}
static void checkFrame(const MpegAudioFrame &frame, const MpegHeader &h)
{
    vc::ensure(frame.isValid(), "valid");
    vc::ensure(frame.mpegVersion() == (h.version == 10 ? 1.0 : h.version == 20 ? 2.0 : h.version == 25 ? 2.5 : 0.0), "version");
    vc::ensure(frame.layer() == static_cast<int>(h.layer), "layer");
    vc::ensure(frame.bitrate() == h.bitrate, "bitrate");
    vc::ensure(frame.samplingFrequency() == h.frequency, "sampling frequency");
    vc::ensure(!h.version || frame.sampleCount() == h.samples, "sample count");
    vc::ensure(frame.size() == h.size(), "size of frame");
    vc::ensure(frame.paddingSize() == (h.padding ? (h.layer == 1 ? 4 : 1) : 0), "size of padding");
    vc::ensure(frame.isProtectedByCrc() == !((h.header >> 16) & 1), "CRC flag");
    vc::ensure(frame.hasCopyright() == (((h.header >> 3) & 1) != 0) && frame.isOriginal() == (((h.header >> 2) & 1) != 0), "copyright and original flag");
    const auto mode = (h.header >> 6) & 3;
    vc::ensure(frame.channelMode() == (mode == 0 ? MpegChannelMode::Stereo : mode == 1 ? MpegChannelMode::JointStereo : mode == 2 ? MpegChannelMode::DualChannel : MpegChannelMode::SingleChannel), "channel mode");
}
static void checkXing(const MpegAudioFrame &frame, const vc::Stream &s, u64 start)
{
    const u64 id = s.be(start + 0x24, 4);
    const bool present = id == 0x58696e67 || id == 0x496e666f;
    vc::ensure(frame.isXingHeaderAvailable() == present, "Xing header is recognised");
    const auto flags = static_cast<u32>(s.be(start + 0x28, 4));
    vc::ensure(frame.isXingFramefieldPresent() == (present && (flags & 1)) && frame.isXingBytesfieldPresent() == (present && (flags & 2)) && frame.isXingTocFieldPresent() == (present && (flags & 4)) && frame.isXingQualityIndicatorFieldPresent() == (present && (flags & 8)), "flags of Xing header");
    u64 p = start + 0x2C;
    if (!present) {
        vc::cover("no Xing header");
        return;
    }
    if (flags & 1) {
        vc::ensure(frame.xingFrameCount() == s.be(p, 4), "frame count");
        p += 4;
    }
    if (flags & 2) {
        vc::ensure(frame.xingBytesfield() == s.be(p, 4), "number of bytes");
        p += 4;
    }
    if (flags & 4)
        p += 100;
    if (flags & 8) {
        vc::ensure(frame.xingQualityIndicator() == s.be(p, 4), "quality indicator");
        p += 4;
    }
    vc::ensure(s.pos() == p, "Xing header is read completely");
    vc::cover("Xing header");
}
VC_HARNESS(mpeg_frame)
{
    const auto size = vc::any<u64>("size"), start = vc::any<u64>("start");
    vc::assume(size < maxFile / 2 && start <= size);
    vc::Stream s("file", size);
    s.io.seekg(static_cast<std::streamoff>(start));
    BinaryReader reader(&s.io);
    Diagnostics diag;
    MpegAudioFrame frame;
    try {
        frame.parseHeader(reader, diag);
    } catch (const InvalidDataException &) {
        vc::ensure(size - start >= 4 && (s.be(start, 4) >> 21) != 0x7FF, "only data without synchronisation word is rejected");
        vc::cover("rejected");
        vc::finish();
    } catch (const std::ios_base::failure &) {
        vc::ensure(size - start < 4 + 0x24 + 8 + 12 + 100, "reading fails only at the end of the file");
        vc::cover("end of file");
        vc::finish();
    }
    vc::ensure(size - start >= 4 && (s.be(start, 4) >> 21) == 0x7FF, "data without synchronisation word is rejected");
    const auto h = splitHeader(static_cast<u32>(s.be(start, 4)));
    checkFrame(frame, h);
    if (h.size() >= 0x28) {
        checkXing(frame, s, start);
    } else {
        vc::ensure(!frame.isXingHeaderAvailable(), "frame is too small for Xing header");
        vc::cover("small");
    }
    vc::finish();
}

static u64 field(const vc::Stream &s, u64 start, unsigned pos, unsigned n)
{
    u64 r = 0;
    for (unsigned i = pos; i != pos + n; ++i)
        r = (r << 1) | ((s.at(start + i / 8) >> (7 - i % 8)) & 1);
    return r;
}
VC_HARNESS(adts_frame)
{
    const auto size = vc::any<u64>("size"), start = vc::any<u64>("start");
    vc::assume(size < maxFile / 2 && start <= size);
    vc::Stream s("file", size);
    s.io.seekg(static_cast<std::streamoff>(start));
    BinaryReader reader(&s.io);
    AdtsFrame frame;
    try {
        frame.parseHeader(reader);
    } catch (const InvalidDataException &) {
        vc::ensure(size - start >= 2 && (field(s, start, 0, 12) != 0xFFF || field(s, start, 13, 2) || (size - start >= 7 && field(s, start, 30, 13) < (field(s, start, 15, 1) ? 7 : 9))), "only invalid headers are rejected");
        vc::cover("rejected");
        vc::finish();
    } catch (const std::ios_base::failure &) {
        vc::ensure(size - start < (size - start >= 2 && !field(s, start, 15, 1) ? 9 : 7), "reading fails only at the end of the file");
        vc::cover("end of file");
        vc::finish();
    }
    const bool crc = !field(s, start, 15, 1);
    vc::ensure(size - start >= (crc ? 9 : 7) && frame.isValid() && s.pos() == start + (crc ? 9 : 7), "header is read completely");
    vc::ensure(field(s, start, 0, 12) == 0xFFF && !field(s, start, 13, 2), "headers without synchronisation word are rejected");
    vc::ensure(frame.isMpeg4() == (field(s, start, 12, 1) != 0) && frame.hasCrc() == crc && frame.headerSize() == (crc ? 9 : 7), "version, CRC flag and size of header");
    vc::ensure(frame.mpeg4AudioObjectId() == field(s, start, 16, 2) + 1 && frame.mpeg4SamplingFrequencyIndex() == field(s, start, 18, 4) && frame.mpeg4ChannelConfig() == field(s, start, 23, 3), "audio parameters");
    vc::ensure(frame.totalSize() == field(s, start, 30, 13) && frame.totalSize() >= frame.headerSize() && frame.dataSize() == frame.totalSize() - frame.headerSize(), "size of frame");
    vc::ensure(frame.bufferFullness() == field(s, start, 43, 11) && frame.frameCount() == field(s, start, 54, 2) + 1, "buffer fullness and number of blocks");
    vc::ensure(!crc || frame.crc() == field(s, start, 56, 16), "checksum");
    vc::cover("parsed");
    vc::finish();
}
VC_HARNESS(adts_stream)
{
    const auto size = vc::any<u64>("size"), start = vc::any<u64>("start");
    vc::assume(size < maxFile / 2 && start <= size);
    vc::Stream s("file", size);
    AdtsStream stream(s.io, start);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    try {
        stream.internalParseHeader(diag, progress);
    } catch (const InvalidDataException &) {
        vc::cover("invalid");
        vc::finish();
    } catch (const std::ios_base::failure &) {
        vc::ensure(size - start < 9, "reading fails only at the end of the file");
        vc::finish();
    }
    static const u32 frequencies[] = { 96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350 };
    const auto index = vc::split(field(s, start, 18, 4));
    vc::ensure(stream.samplingFrequency() == (index < 13 ? frequencies[index] : 0), "sampling frequency");
    const auto config = field(s, start, 23, 3);
    vc::ensure(stream.channelConfig() == config && stream.channelCount() == (config == 7 ? 8 : config), "channels");
    vc::cover("parsed");
    vc::finish();
}
VC_HARNESS(ivf_stream)
{
    const auto size = vc::any<u64>("size");
    vc::assume(size < maxFile / 2);
    vc::Stream s("file", size);
    IvfStream stream(s.io, 0);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    try {
        stream.internalParseHeader(diag, progress);
    } catch (const InvalidDataException &) {
        vc::ensure(size >= 4 && s.be(0, 4) != 0x444B4946, "only data without signature is rejected");
        vc::cover("rejected");
        vc::finish();
    } catch (const std::ios_base::failure &) {
        vc::ensure(size < 32, "reading fails only at the end of the file");
        vc::cover("end of file");
        vc::finish();
    }
    vc::ensure(size >= 28 && s.be(0, 4) == 0x444B4946 && s.pos() == 32, "header is read completely");
    vc::ensure(stream.version() == static_cast<double>(s.le(4, 2)), "version");
    vc::ensure(stream.formatId().size() == 4 && static_cast<u8>(stream.formatId()[0]) == s.at(8) && static_cast<u8>(stream.formatId()[3]) == s.at(11), "format ID");
    vc::ensure(stream.pixelSize().width() == s.le(12, 2) && stream.pixelSize().height() == s.le(14, 2), "size of pictures");
    vc::ensure(stream.fps() == s.le(16, 4) && stream.timeScale() == s.le(20, 4) && stream.sampleCount() == s.le(24, 4), "frame rate, time scale and number of frames");
    vc::cover("parsed");
    vc::finish();
}
VC_HARNESS(ivf_frame)
{
    const auto size = vc::any<u64>("size"), start = vc::any<u64>("start");
    vc::assume(size < maxFile / 2 && start <= size && size - start >= 12);
    vc::Stream s("file", size);
    s.io.seekg(static_cast<std::streamoff>(start));
    BinaryReader reader(&s.io);
    Diagnostics diag;
    IvfFrame frame;
    frame.parseHeader(reader, diag);
    vc::ensure(frame.startOffset == start && frame.size == s.be(start, 4) && frame.timestamp == s.be(start + 4, 8), "offset, size and timestamp");
    vc::finish();
}
VC_HARNESS(wave_header)
{
    const auto size = vc::any<u64>("size"), start = vc::any<u64>("start"), maxSize = vc::any<u64>("maxSize");
    vc::assume(size < maxFile / 2 && start <= size && maxSize <= size - start);
    vc::Stream s("file", size);
    s.io.seekg(static_cast<std::streamoff>(start));
    BinaryReader reader(&s.io);
    Diagnostics diag;
    WaveFormatHeader h;
    const auto read = h.parse(reader, maxSize, diag);
    vc::ensure(read <= maxSize && s.pos() == start + read, "number of bytes read is returned and does not exceed the segment");
    if (maxSize < 16) {
        vc::ensure(read == 0 && !diag.empty(), "truncated header is reported");
        vc::cover("truncated");
        vc::finish();
    }
    const auto tag = s.le(start, 2);
    vc::ensure(h.formatTag == tag && h.channelCount == s.le(start + 2, 2) && h.sampleRate == s.le(start + 4, 4) && h.bytesPerSecond == s.le(start + 8, 4) && h.chunkSize == s.le(start + 12, 2), "audio parameters");
    if (tag == 1 || tag == 3) {
        vc::ensure(read == 16 && h.bitsPerSample == s.le(start + 14, 2), "PCM");
        vc::cover("PCM");
    } else if (tag == 0xFFFE && maxSize >= 40 && s.le(start + 16, 2) == 22) {
        vc::ensure(read == 40 && h.bitsPerSample == s.le(start + 18, 2) && h.channelMask == s.le(start + 20, 4) && h.guid1 == s.be(start + 24, 8) && h.guid2 == s.be(start + 32, 8), "extended header");
        vc::cover("extended");
    } else if (tag != 0xFFFE && maxSize >= 20 && s.le(start + 16, 2) <= maxSize - 18) {
        vc::ensure(read == 18 + s.le(start + 16, 2), "extended header is skipped");
        vc::cover("skipped");
    } else {
        vc::ensure(!diag.empty(), "truncated and invalid extended header is reported");
        vc::cover("truncated extended header");
    }
    vc::finish();
}
VC_HARNESS(bitmap_header)
{
    const auto size = vc::any<u64>("size"), start = vc::any<u64>("start");
    vc::assume(size < maxFile / 2 && start <= size && size - start >= 40);
    vc::Stream s("file", size);
    s.io.seekg(static_cast<std::streamoff>(start));
    BinaryReader reader(&s.io);
    BitmapInfoHeader h;
    h.parse(reader);
    vc::ensure(s.pos() == start + 40, "40 bytes are read");
    vc::ensure(h.size == s.le(start, 4) && h.width == s.le(start + 4, 4) && h.height == s.le(start + 8, 4) && h.planes == s.le(start + 12, 2) && h.bitCount == s.le(start + 14, 2), "size and depth");
    vc::ensure(h.compression == s.be(start + 16, 4) && h.imageSize == s.le(start + 20, 4), "compression and size of image");
    vc::ensure(h.horizontalResolution == s.le(start + 24, 4) && h.verticalResolution == s.le(start + 28, 4) && h.clrUsed == s.le(start + 32, 4) && h.clrImportant == s.le(start + 36, 4), "resolution and colours");
    vc::finish();
}

// the first frame of a MPEG audio stream
// vc-bound mpeg_stream: first frames of MPEG 1, layer 3 with 44.1 kHz and 32 or 320 kbit/s (other frames are decoded the same way, see mpeg_frame)
VC_HARNESS(mpeg_stream)
{
    const auto size = vc::any<u64>("size"), start = vc::any<u64>("start"), streamSize = vc::any<u64>("streamSize");
    vc::assume(size < maxFile / 2 && start <= size && size - start >= 0x24 + 8 + 12 + 100 + 4 && streamSize && streamSize < (u64(1) << 40));
    vc::Stream s("file", size);
    const auto header = static_cast<u32>(s.be(start, 4));
    vc::assume((header >> 21) == 0x7FF);
    vc::assume(((header >> 17) & 0xF) == 0xD && !((header >> 10) & 3) && ((header >> 12) & 0xF) == vc::split(vc::any<u8>("index") % 2 ? 1u : 14u));
    const auto h = decode(header, 3, 1, 0);
    MpegAudioFrameStream stream(s.io, start);
    stream.setSize(streamSize);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    stream.internalParseHeader(diag, progress);
    vc::ensure(stream.version() == (h.version == 10 ? 1.0 : h.version == 20 ? 2.0 : 2.5), "version");
    vc::ensure(stream.format() == GeneralMediaFormat::Mpeg1Audio && stream.format().sub == h.layer, "format");
    vc::ensure(stream.samplingFrequency() == h.frequency, "sampling frequency");
    vc::ensure(stream.channelCount() == (((header >> 6) & 3) == 3 ? 1 : 2) && stream.channelConfig() == ((header >> 6) & 3), "channels");
    const u64 id = s.be(start + 0x24, 4), frames = s.be(start + 0x2C, 4);
    if ((id == 0x58696e67 || id == 0x496e666f) && (s.at(start + 0x2B) & 1) && frames) {
        vc::ensure(stream.bitrate() > 0.0, "bitrate");
        vc::cover("Xing header");
    } else {
        vc::ensure(stream.bitrate() == static_cast<double>(h.bitrate) && stream.m_bytesPerSecond == h.bitrate * 125, "bitrate");
        vc::cover("no Xing header");
    }
    vc::ensure(stream.size() == streamSize, "size");
    vc::finish();
}
// vc-bound wave_stream: PCM files with the fixed sequence of format segment, another segment of any size and data segment
VC_HARNESS(wave_stream)
{
    const auto other = vc::any<u32>("other"), data = vc::any<u32>("data"), rate = vc::any<u32>("rate");
    const auto channels = vc::any<u16>("channels"), chunk = vc::any<u16>("chunk");
    const u64 dataSegment = 36 + 8 + u64(other) + (other & 1);
    vc::assume(rate && chunk);
    vc::Stream s("file", dataSegment + 8 + data);
    const auto le = [&s](u32 v, int n) {
        for (; n; --n, v >>= 8)
            s.io.put(static_cast<char>(v));
    };
    s.io.write("RIFF", 4);
    s.io.seekp(8);
    s.io.write("WAVEfmt ", 8);
    le(16, 4);
    le(1, 2);
    le(channels, 2);
    le(rate, 4);
    le(1000, 4);
    le(chunk, 2);
    le(16, 2);
    s.io.write("LIST", 4);
    le(other, 4);
    s.io.seekp(static_cast<std::streamoff>(dataSegment));
    s.io.write("data", 4);
    le(data, 4);
    s.io.seekg(0);
    WaveAudioStream stream(s.io, 0);
    Diagnostics diag;
    AbortableProgressFeedback progress;
    stream.internalParseHeader(diag, progress);
    vc::ensure(stream.format() == GeneralMediaFormat::Pcm && stream.channelCount() == channels && stream.samplingFrequency() == rate && stream.bitsPerSample() == 16, "audio parameters");
    vc::ensure(stream.m_dataOffset == dataSegment + 8 && stream.size() == data, "data segment is found");
    vc::ensure(stream.sampleCount() == u64(data) / chunk, "number of samples");
    vc::cover("parsed");
    vc::finish();
}
// formats the library handles by their documented signature (other: not one of them)
static ContainerFormat expectedFormat(const char *b, u64 n, bool &other)
{
    other = false;
    if (n < 2)
        return ContainerFormat::Unknown;
    const auto id = n >= 4 ? vc::be(b, 4) : 0, id2 = n >= 8 ? vc::be(b + 4, 4) : 0;
    const auto b0 = static_cast<u8>(b[0]), b1 = static_cast<u8>(b[1]);
    if (id == 0x41504554 && id2 == 0x41474558)
        return ContainerFormat::ApeTag;
    if (id2 == 0x66747970)
        return ContainerFormat::Mp4;
    if (id2 == 0x6D6F6F76)
        return ContainerFormat::QuickTime;
    switch (id) {
    case 0x664C6143:
        return ContainerFormat::Flac;
    case 0x444B4946:
        return ContainerFormat::Ivf;
    case 0x1A45DFA3:
        return ContainerFormat::Ebml;
    case 0x4F676753:
        return ContainerFormat::Ogg;
    case 0x52494646:
        if (n >= 16 && vc::be(b + 8, 4) == 0x41564920 && vc::be(b + 12, 4) == 0x4C495354)
            return ContainerFormat::RiffAvi;
        return n >= 12 && vc::be(b + 8, 4) == 0x57415645 ? ContainerFormat::RiffWave : ContainerFormat::Riff;
    }
    if (id >> 8 == 0x494433)
        return ContainerFormat::Id3v2Tag;
    if (b0 == 0xFF && (b1 & 0xF6) == 0xF0)
        return ContainerFormat::Adts;
    if (b0 == 0xFF && b1 >= 0xE0 && b1 != 0xFE)
        return ContainerFormat::MpegAudioFrames;
    other = true;
    return ContainerFormat::Unknown;
}
template <unsigned n> static void signature()
{
    char b[n + 1];
    vc::bytes("buffer", b, n);
    bool other;
    const auto expected = expectedFormat(b, n, other);
    const auto format = parseSignature(std::string_view(b, n));
    if (!other) {
        vc::ensure(format == expected, "signature is recognised");
        vc::cover("recognised");
        vc::finish();
    }
    switch (format) {
    case ContainerFormat::ApeTag:
    case ContainerFormat::Mp4:
    case ContainerFormat::QuickTime:
    case ContainerFormat::Flac:
    case ContainerFormat::Ivf:
    case ContainerFormat::Ebml:
    case ContainerFormat::Ogg:
    case ContainerFormat::RiffAvi:
    case ContainerFormat::RiffWave:
    case ContainerFormat::Riff:
    case ContainerFormat::Id3v2Tag:
    case ContainerFormat::Adts:
    case ContainerFormat::MpegAudioFrames:
        vc::ensure(false, "other data is not mistaken for a supported format");
    default:;
    }
    vc::cover("other");
    vc::finish();
}
VC_HARNESS(signature_0) { signature<0>(); }
VC_HARNESS(signature_1) { signature<1>(); }
VC_HARNESS(signature_2) { signature<2>(); }
VC_HARNESS(signature_3) { signature<3>(); }
VC_HARNESS(signature_4) { signature<4>(); }
VC_HARNESS(signature_7) { signature<7>(); }
VC_HARNESS(signature_8) { signature<8>(); }
VC_HARNESS(signature_12) { signature<12>(); }
VC_HARNESS(signature_16) { signature<16>(); }
