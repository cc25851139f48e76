P = []
TECH = ("contract-based deductive verification: verification conditions generated from clang's IR of the real sources against contracts, "
        "discharged by an SMT solver (z3, LIA pre-prover; cvc5 as fallback)")
NOTE = ("Every obligation generated from the current source is discharged for all inputs (all paths, loops either unrolled completely or cut by a proved invariant); additionally memory accesses, "
        "null/assertion/unreachable checks and uncaught exceptions of all executed library code are obligations. A failed obligation is replayed natively (ASan/UBSan). Trusted: clang's front end and the few "
        "LLVM passes run, the VC generator in engine/, the solvers and the assumed contracts of external functions (engine/rt/models.cpp, engine/builtins_vc.py), all listed in the evidence. "
        "Parts the verifier cannot finish are reported as bounded_parts in the evidence and never counted as discharged.")
NOTES = "Contracts are in contracts/<property>.cpp; see DESIGN.md."
def prop(id, title, statement, quant, why, files, mech, **k):
    P.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, **k))

prop("P01", "EBML sizes, IDs and integers: encoding is exact and announced length is written",
     "For every 64-bit size the EBML size denotation is a well-formed descriptor of exactly the announced length (respecting a requested minimum length) which denotes that size and is never the reserved unknown-size pattern; sizes which cannot be represented are rejected. "
     "Valid IDs and unsigned integers are written big endian using the announced (smallest or requested) number of bytes. Simple elements written to a stream are read back by the element parser with the same ID, extent and value.",
     "all 64-bit sizes/values, all 32-bit IDs, all minimum lengths, texts of any length", "The tests use a few sizes; boundaries of the eight length classes and the reserved patterns are not covered.",
     ["matroska/ebmlelement.cpp", "matroska/ebmlelement.h"], [("size/ID/integer codecs", "matroska/ebmlelement.cpp: makeSizeDenotation, makeId, makeUInteger, calculate*Length, makeSimpleElement, readUInteger, readString")])
prop("P02", "EBML elements never exceed the file or the element that encloses them",
     "After an EBML element has been parsed successfully from arbitrary bytes, its header and data lie within the available bytes (the file or the enclosing element), ID and size are those denoted by the bytes (a size that is too big or unknown is limited to what is available), its first child starts right after its header and its next sibling exactly where it ends, each limited to the remaining bytes. "
     "An element within an element of unknown size which belongs to level 1 becomes the next sibling of that element, which then ends where the sibling starts. Rejections are reported as critical diagnostic message.",
     "all file contents, file sizes and start offsets (below 2^62)", "Tests only parse a few well-formed files; truncated and unknown-size elements at every position are beyond reach.",
     ["matroska/ebmlelement.cpp", "genericfileelement.h", "matroska/matroskaid.cpp"], [("element header parser", "matroska/ebmlelement.cpp: EbmlElement::internalParse"), ("extent bookkeeping", "genericfileelement.h")],
     note="Skipping over junk bytes is covered for a limit of one attempt (each attempt is the same computation at the next offset). ")
prop("P03", "MP4 atoms never exceed what encloses them; written atom sizes are exact",
     "After an MP4 atom has been parsed successfully from arbitrary bytes, its extent is the denoted one (32-bit, 64-bit or rest of the enclosing space) limited to the available bytes, its children lie within its data and its next sibling starts exactly where it ends, limited to the remaining bytes. "
     "A header written for data of any size is as big as announced and is parsed back to the same ID and data size. Writing the size of an atom afterwards stores the number of bytes since its start, changes nothing else, restores the position, and rejects sizes that do not fit.",
     "all file contents, file sizes, start offsets, data sizes (below 2^62)", "Tests only parse a few well-formed files; the 4 GiB boundary, 64-bit sizes and truncation are beyond their reach.",
     ["mp4/mp4atom.cpp", "mp4/mp4atom.h", "genericfileelement.h"], [("atom header parser", "mp4/mp4atom.cpp: Mp4Atom::internalParse"), ("atom header writer", "mp4/mp4atom.cpp: makeHeader, seekBackAndWriteAtomSize(64), mp4/mp4atom.h: addHeaderSize")])
prop("P04", "MPEG-4 descriptors never exceed what encloses them",
     "After an MPEG-4 descriptor has been parsed successfully from arbitrary bytes, header and data lie within the available bytes, the data size is the one denoted by the variable-length size limited to the available bytes, and the next sibling starts exactly where it ends, limited to the remaining bytes of the enclosing descriptor. "
     "A denoted child descriptor exists only if it fits into its parent and stays within it.",
     "all file contents, available sizes and offsets (below 2^62)", "No test parses malformed or nested descriptors.",
     ["mp4/mpeg4descriptor.cpp", "genericfileelement.h"], [("descriptor header parser", "mp4/mpeg4descriptor.cpp: Mpeg4Descriptor::internalParse")])
prop("P05", "Ogg pages: lacing, extents and checksum are exact",
     "An Ogg page is accepted exactly if the capture pattern is present and the page (27 bytes, lacing values and data) fits into the specified maximum size; otherwise the failure is reported via exception. The sizes and offsets of its segments are the sums of their lacing values, in order and without gaps, the page's data size is the sum of all lacing values, and the last segment is marked as continued exactly if its last lacing value is 255. All other header fields are the denoted ones, regardless of what the object has been used for before. "
     "The checksum of a page is the CRC-32 (polynomial 0x04c11db7) over exactly the bytes of the page with the checksum field taken as zero; updating it stores it little endian in the checksum field and changes nothing else. The lacing values written for a segment size are 255 except for the last one and sum up to the size.",
     "all page headers, offsets and maximum sizes; lacing values and page data up to the stated bounds", "Tests do not parse malformed pages and never check lacing or checksums of unusual pages.",
     ["ogg/oggpage.cpp", "ogg/oggpage.h"], [("page header parser and checksum", "ogg/oggpage.cpp: parseHeader, computeChecksum, updateChecksum, makeSegmentSizeDenotation")],
     level="other", note="Most contracts are discharged for bounded structures only (bounded, not a proof for all pages). Loops over lacing values and page bytes are unrolled: up to five arbitrary lacing values, one fixed table of 255; checksums up to three arbitrary data bytes and one page of about 1 KiB (bounded, all values within the bounds). ")
prop("P06", "Ogg iterator visits segments in order and reads exactly their bytes",
     "Iterating an Ogg bitstream visits every segment of every page which matches the filter (if any) exactly once and in order, with the segment's page, index, offset and size and with no bytes read so far; going back, resetting and selecting a page or segment again restore the very same state. "
     "Reading and ignoring pass over exactly the bytes of the visited segments, skipping page headers and pages not matching the filter, leave the position after the last byte concerned and throw a truncation error exactly if fewer bytes are left. "
     "Resynchronising finds the next page after stray bytes if it fits into the bitstream, appends it and points to its first segment; offsets within already known pages or beyond the end are refused and nothing is changed if there is no page.",
     "all start offsets, serial numbers, filters, lacing values and read sizes within bitstreams of two pages", "Tests read one or two well-formed files; multi-page segments, filters and reading across page boundaries are not settled by them.",
     ["ogg/oggiterator.cpp", "ogg/oggiterator.h"], [("iterator", "ogg/oggiterator.cpp: nextPage, nextSegment, previousPage, previousSegment, setPageIndex, setSegmentIndex, read, readAll, ignore, resyncAt, fetchNextPage")],
     level="other", note="Discharged for bounded structures only: Bitstreams of up to two pages with up to two lacing values each (bounded structure; all values, offsets and read sizes). ")
prop("P07", "FLAC metadata blocks: fields are exact and written chains are valid",
     "Block headers, STREAMINFO and the FLAC-to-Ogg mapping header are decoded to exactly the denoted bit fields; a mapping header is accepted exactly if its signatures and the STREAMINFO block are present. A written block header is read back unchanged and a size which needs more than 24 bits is rejected without writing anything. "
     "A picture block consumes exactly the denoted bytes, never more than the block offers; a written picture is as big as announced and type, MIME-type, description and data are read back unchanged. "
     "Parsing a FLAC stream yields the audio parameters, the size of all padding, the pictures and the offset right after the last block. "
     "The metadata written for a FLAC stream consists of the signature and a gapless chain of blocks of which exactly the last one is marked as last: all original blocks except padding, comments and pictures unchanged and in order, then the Vorbis comment (if any), then one block per picture; pictures too big to be denoted are reported and left out. The offset of the last block is returned and the output position is the end of the chain; padding blocks are exactly as big as requested.",
     "all header/STREAMINFO bytes, sizes, picture contents and offsets; original files with one or two metadata blocks", "Tests only process one well-formed FLAC file; the last-block flag, block order and size limits depend on the combination of existing and added blocks.",
     ["flac/flacmetadata.cpp", "flac/flacstream.cpp", "flac/flactooggmappingheader.cpp"], [("metadata block parsers/makers", "flac/flacmetadata.cpp"), ("metadata chain", "flac/flacstream.cpp: internalParseHeader, makeHeader, makePadding"), ("Ogg mapping", "flac/flactooggmappingheader.cpp: parseHeader")],
     note="The chain is verified for original files of up to two blocks (bounded structure; any type, size and content) and up to two added pictures. ")
prop("P08", "ID3v1 tags are read and written exactly",
     "Reading an ID3v1 tag consumes 128 bytes, recognises version 1.1 exactly by the null byte before the track number and yields title, artist, album, year and comment without trailing blanks, the track number and the genre exactly as stored; data without the signature is rejected. "
     "A written tag is exactly 128 bytes with every field at its position, padded with null bytes; texts which are too long are truncated to the field's size and this is reported; what has been written is read back with the same values. "
     "Setting, reading and removing fields refers to exactly one field each; the number of fields is the number of fields set; fields which the format does not have are refused.",
     "all field contents and start offsets, texts of any size (below 2^31)", "Tests read one file; padding, truncation, encodings and version 1.0/1.1 differences depend on the field content.",
     ["id3/id3v1tag.cpp", "id3/id3v1tag.h"], [("parser/maker", "id3/id3v1tag.cpp: parse, make, readValue, writeValue"), ("field access", "id3/id3v1tag.cpp: internallyGetValue, setValue, hasField, fieldCount, removeAllFields")])
prop("P09", "Tag values hold, copy, convert and compare data without loss",
     "A tag value returns the very data assigned to it: integers, positions, time spans, dates and genres unchanged, texts byte by byte except for a leading byte-order mark, popularities completely, along with type and encoding. Ratings are converted between the scales of the tag formats as documented. Conversions between types yield the exact value or are rejected with a conversion error if it cannot be represented; stored data of a wrong size is never misread. "
     "Copies are complete and independent (including metadata and flags), moving and reassigning leave usable values. Values are equal exactly if their data and (unless ignored) metadata are. Text is converted between character sets exactly once from its encoding to the requested one, and not at all if they are the same.",
     "all numbers; texts of any size when storing/copying, up to two bytes when comparing; all pairs of encodings", "Tests use a few values; boundary values, wrong sizes and encodings are not covered.",
     ["tagvalue.cpp", "tagvalue.h", "positioninset.h", "id3/id3genres.cpp", "id3/id3genres.h"], [("value container", "tagvalue.cpp: to*, assign*, copy, comparison, stripBom, convert*"), ("genres", "id3/id3genres.h")],
     note="Character set conversion itself is c++utilities/iconv (assumed contract); expressing numbers as text and parsing text as number/date/popularity is not covered. ")
prop("P10", "ID3v2 frames and tags are read and written exactly",
     "An ID3v2 frame (versions 2.2 to 2.4) has the denoted ID, flags, group and extent; a frame that exceeds the tag is rejected and reported, and in any case the next frame is found exactly where the frame ends. Frame data is read completely and as is: all strings of a text frame, language, description and text of comments and lyrics, MIME-type, type, description and data of pictures, play counters and ratings; nothing outside the frame is read. "
     "A written frame is as big as announced, its size field denotes everything after the frame header (including group and decompressed size), and ID, flags and data are the ones expected in that version; data which is too big for the version is rejected. "
     "Short and long frame IDs are converted to each other consistently and the order of frames is a strict weak ordering. A tag consists of a header denoting frames and padding exactly, the frames in the defined order and the padding; when reading, exactly the frames within the maximum size are read, the extended header is skipped and the size includes a footer.",
     "all IDs, flags, sizes, offsets and binary contents; texts of any size when writing; texts/descriptions of a few bytes when reading (bounds stated in the evidence)", "Tests process a few well-formed tags; truncated frames, missing terminations, flags, groups, and size limits of each version are not settled by them.",
     ["id3/id3v2frame.cpp", "id3/id3v2frame.h", "id3/id3v2frameids.cpp", "id3/id3v2frameids.h", "id3/id3v2tag.cpp", "id3/id3v2tag.h"],
     [("frame parser", "id3/id3v2frame.cpp: Id3v2Frame::parse, parseSubstring, parsePicture, parseLegacyPicture, parseComment"), ("frame maker", "id3/id3v2frame.cpp: Id3v2FrameMaker, makePicture, makeLegacyPicture, makeComment"), ("tag", "id3/id3v2tag.cpp: Id3v2Tag::parse, Id3v2TagMaker, FrameComparer"), ("frame IDs", "id3/id3v2frameids.cpp")],
     note="Strings inside frames are read by loops unrolled for contents of a few bytes (bounded, see bounded_parts); zlib, iconv and formatting/parsing numbers as text are assumed contracts. ")
prop("P11", "Vorbis comments are read and written exactly",
     "Reading a Vorbis comment yields the vendor and all fields with ID (up to the first separator) and value exactly as stored and consumes exactly the comment's bytes; nothing outside the available bytes is read, truncated or invalid comments and fields are rejected and reported (a field without ID does not prevent others from being read). "
     "A written comment consists of the signature and framing byte (if requested), the vendor, the number of the fields actually written and the fields, each with its exact size; values are written as UTF-8, empty fields are skipped and fields which cannot be written are reported. "
     "Covers are stored as encoded picture structure of exactly the announced size with type, MIME-type, description and data unchanged. "
     "Field IDs are case-insensitive and correspond one to one to known fields, a year is treated as date if there is none, and separate totals are incorporated into the corresponding positions without losing or overwriting any number.",
     "all texts, vendors and pictures of any size, all offsets; comments of two fields when reading (bounds stated in the evidence)", "Tests read a few well-formed files; truncation, invalid fields, size limits and combinations of flags are not covered.",
     ["vorbis/vorbiscomment.cpp", "vorbis/vorbiscomment.h", "vorbis/vorbiscommentfield.cpp", "vorbis/vorbiscommentids.h", "caseinsensitivecomparer.h"],
     [("field parser/maker", "vorbis/vorbiscommentfield.cpp: internalParse, make"), ("comment parser/maker", "vorbis/vorbiscomment.cpp: internalParse, make, convertTotalFields"), ("field IDs", "vorbis/vorbiscomment.cpp: internallyGetFieldId, internallyGetKnownField")],
     note="IDs are read by a loop unrolled for a few characters (bounded, see bounded_parts); Base64 coding and conversion of text to numbers are assumed contracts; reading via OggIterator uses the same code with the iterator of P06. ")
prop("P12", "Audio and video headers and signatures are decoded exactly",
     "The header of an MPEG audio frame is accepted exactly if the synchronisation word is present and yields version, layer, bitrate, sampling frequency, channel mode, flags, number of samples and size as specified by ISO/IEC 11172-3 and 13818-3 (zero where reserved) and the fields of the Xing header exactly if one is present. "
     "ADTS headers, WAVE format headers (the segment is never exceeded and the number of bytes read is returned), IVF headers and frames and bitmap headers are decoded to exactly the denoted fields; invalid or truncated headers are rejected or reported. "
     "The format of a file is recognised by its signature exactly: all formats the library handles are recognised from any amount of leading bytes which contains the signature, and other data is not mistaken for one of them.",
     "all headers (all 2^32 MPEG headers, all contents of the other headers), all offsets and sizes of segments", "Tests read a few files; reserved values, all combinations of version, layer, bitrate and frequency, truncated headers and short files are not covered.",
     ["mpegaudio/mpegaudioframe.cpp", "mpegaudio/mpegaudioframe.h", "mpegaudio/mpegaudioframestream.cpp", "adts/adtsframe.h", "adts/adtsframe.cpp", "adts/adtsstream.cpp", "wav/waveaudiostream.cpp", "ivf/ivfstream.cpp", "ivf/ivfframe.cpp", "avi/bitmapinfoheader.cpp", "signature.cpp"],
     [("MPEG audio", "mpegaudio/mpegaudioframe.cpp: parseHeader, size, bitrate, samplingFrequency"), ("ADTS", "adts/adtsframe.cpp: parseHeader"), ("WAVE", "wav/waveaudiostream.cpp: WaveFormatHeader::parse, internalParseHeader"), ("IVF and bitmaps", "ivf/ivfstream.cpp, avi/bitmapinfoheader.cpp"), ("signatures", "signature.cpp: parseSignature")],
     note="Durations are only shown to be computed without undefined behaviour, their value is not checked. ")
