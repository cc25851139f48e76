From f951c9cabf2b4214d6db06c44a87614a68d3dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:19 +0000
Subject: [PATCH 01/51] fix: Don't let size of truncated EBML element of
 unknown size wrap around

---
 matroska/ebmlelement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index d1baf02..a3f8329 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -148,6 +148,12 @@ void EbmlElement::internalParse(Diagnostics &diag)
         m_sizeLength = 1;
         if ((m_sizeUnknown = (beg == 0xFF))) {
             // this indicates that the element size is unknown
+            if (headerSize() > maxTotalSize()) { // header truncated
+                if (!skipped) {
+                    diag.emplace_back(DiagLevel::Critical, "EBML header seems to be truncated.", parsingContext());
+                }
+                continue; // try again
+            }
             // -> just assume the element takes the maximum available size
             m_dataSize = maxTotalSize() - headerSize();
         } else {
-- 
2.43.0


From 32eed315ada0164dd5b94c3b69ce837b2277561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 02/51] fix: Don't let size of MP4 atom with truncated/invalid
 64-bit size wrap around

---
 mp4/mp4atom.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index 2e99a81..0ed4b82 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -84,9 +84,13 @@ void Mp4Atom::internalParse(Diagnostics &diag)
     m_id = reader().readUInt32BE();
     m_idLength = 4;
     if (m_dataSize == 1) { // atom denotes 64-bit size
-        m_dataSize = reader().readUInt64BE();
         m_sizeLength = 12; // 4 bytes indicate long size denotation + 8 bytes for actual size denotation
-        if (dataSize() < 16 && m_dataSize != 1) {
+        if (maxTotalSize() < headerSize()) {
+            diag.emplace_back(DiagLevel::Critical, "Header of atom denoting 64-bit size is truncated.", parsingContext());
+            throw TruncatedDataException();
+        }
+        m_dataSize = reader().readUInt64BE();
+        if (dataSize() < 16) {
             diag.emplace_back(DiagLevel::Critical, "Atom denoting 64-bit size is smaller than 16 byte and hence invalid.", parsingContext());
             throw TruncatedDataException();
         }
-- 
2.43.0


From c28a643c0956e55854edfd078350c7a9ab564cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 03/51] fix: Compute extent of truncated MPEG-4 descriptors
 correctly

---
 mp4/mpeg4descriptor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mp4/mpeg4descriptor.cpp b/mp4/mpeg4descriptor.cpp
index 0d3bb29..1ce30e3 100644
--- a/mp4/mpeg4descriptor.cpp
+++ b/mp4/mpeg4descriptor.cpp
@@ -70,13 +70,21 @@ void Mpeg4Descriptor::internalParse(Diagnostics &diag)
     std::uint8_t tmp = reader().readByte();
     m_dataSize = tmp & 0x7F;
     while (tmp & 0x80) {
+        if (m_sizeLength >= maximumSizeLengthSupported()) {
+            diag.emplace_back(DiagLevel::Critical, "The size length of the descriptor is not supported.", parsingContext());
+            throw InvalidDataException();
+        }
         m_dataSize = (m_dataSize << 7) | ((tmp = reader().readByte()) & 0x7F);
         ++m_sizeLength;
     }
     // check whether the denoted data size exceeds the available data size
+    if (maxTotalSize() < headerSize()) {
+        diag.emplace_back(DiagLevel::Critical, "The header of the descriptor is truncated.", parsingContext());
+        throw TruncatedDataException();
+    }
     if (maxTotalSize() < totalSize()) {
         diag.emplace_back(DiagLevel::Warning, "The descriptor seems to be truncated; unable to parse siblings of that ", parsingContext());
-        m_dataSize = static_cast<std::uint32_t>(maxTotalSize()); // using max size instead
+        m_dataSize = static_cast<std::uint32_t>(maxTotalSize() - headerSize()); // using max size instead
     }
     m_firstChild.reset();
 
-- 
2.43.0


From 4d18ba4cafab879cd833c2ef2217b201f9e78b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:13 +0000
Subject: [PATCH 04/51] fix: Reset flag for unconcluded last segment when
 re-parsing Ogg page header

---
 ogg/oggpage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ogg/oggpage.cpp b/ogg/oggpage.cpp
index 3cf92b8..176994f 100644
--- a/ogg/oggpage.cpp
+++ b/ogg/oggpage.cpp
@@ -46,6 +46,7 @@ void OggPage::parseHeader(istream &stream, std::uint64_t startOffset, std::int32
     m_sequenceNumber = reader.readUInt32LE();
     m_checksum = reader.readUInt32LE();
     m_segmentCount = reader.readByte();
+    m_lastSegmentUnconcluded = false;
     m_segmentSizes.clear();
     if (m_segmentCount > 0) {
         if (maxSize < m_segmentCount) {
-- 
2.43.0


From a0ce991b7260b769aebf5b61f535813bce99a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:13 +0000
Subject: [PATCH 05/51] fix: Keep offset of OggIterator consistent when seeking
 and going back

---
 ogg/oggiterator.cpp | 8 +++++---
 ogg/oggiterator.h   | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 7a3cd22..6d8b37e 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -45,7 +45,7 @@ void OggIterator::clear(istream &stream, std::uint64_t startOffset, std::uint64_
  */
 void OggIterator::reset()
 {
-    for (m_page = m_segment = m_offset = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
+    for (m_page = m_segment = m_offset = m_bytesRead = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
         const OggPage &page = m_pages[m_page];
         if (!page.segmentSizes().empty() && matchesFilter(page)) {
             // page is not empty and matches ID filter if set
@@ -99,8 +99,9 @@ void OggIterator::previousPage()
 {
     while (m_page) {
         const OggPage &page = m_pages[--m_page];
-        if (matchesFilter(page)) {
+        if (!page.segmentSizes().empty() && matchesFilter(page)) {
             m_offset = page.dataOffset(m_segment = page.segmentSizes().size() - 1);
+            m_bytesRead = 0;
             return;
         }
     }
@@ -114,7 +115,8 @@ void OggIterator::previousSegment()
 {
     const OggPage &page = m_pages[m_page];
     if (m_segment && matchesFilter(page)) {
-        m_offset -= page.segmentSizes()[m_segment--];
+        m_offset -= page.segmentSizes()[--m_segment];
+        m_bytesRead = 0;
     } else {
         previousPage();
     }
diff --git a/ogg/oggiterator.h b/ogg/oggiterator.h
index c76a06f..f01c30b 100644
--- a/ogg/oggiterator.h
+++ b/ogg/oggiterator.h
@@ -183,7 +183,7 @@ inline std::vector<OggPage>::size_type OggIterator::currentPageIndex() const
 inline void OggIterator::setPageIndex(std::vector<OggPage>::size_type index)
 {
     const OggPage &page = m_pages[m_page = index];
-    m_segment = 0;
+    m_segment = m_bytesRead = 0;
     m_offset = page.startOffset() + page.headerSize();
 }
 
@@ -196,6 +196,7 @@ inline void OggIterator::setSegmentIndex(std::vector<std::uint32_t>::size_type i
 {
     const OggPage &page = m_pages[m_page];
     m_offset = page.dataOffset(m_segment = index);
+    m_bytesRead = 0;
 }
 
 /*!
-- 
2.43.0


From 7eda80b975a14f04e068391709b53af2e6b4aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:13 +0000
Subject: [PATCH 06/51] fix: Consider correct number of available bytes when
 re-syncing Ogg bitstream

---
 ogg/oggiterator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 6d8b37e..02bdf15 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -246,7 +246,7 @@ bool OggIterator::resyncAt(std::uint64_t offset)
     // find capture pattern 'OggS'
     stream().seekg(static_cast<streamoff>(offset));
     std::uint8_t lettersFound = 0;
-    for (std::uint64_t bytesAvailable = max<std::uint64_t>(streamSize() - offset, 65307ul); bytesAvailable >= 27; --bytesAvailable) {
+    for (std::uint64_t bytesLeft = min<std::uint64_t>(streamSize() - offset, 65307ul + 4ul); bytesLeft; --bytesLeft) {
         switch (static_cast<char>(stream().get())) {
         case 'O':
             lettersFound = 1;
@@ -259,8 +259,10 @@ bool OggIterator::resyncAt(std::uint64_t offset)
                 // capture pattern found
                 const auto currentOffset = stream().tellg();
                 // -> try to parse an Ogg page at this position
+                const auto pageOffset = static_cast<std::uint64_t>(currentOffset) - 4;
+                const auto bytesAvailable = streamSize() - pageOffset;
                 try {
-                    m_pages.emplace_back(stream(), static_cast<std::uint64_t>(stream().tellg()) - 4,
+                    m_pages.emplace_back(stream(), pageOffset,
                         bytesAvailable > numeric_limits<std::int32_t>::max() ? numeric_limits<std::int32_t>::max()
                                                                              : static_cast<std::int32_t>(bytesAvailable));
                     setPageIndex(m_pages.size() - 1);
-- 
2.43.0


From be6bc9c67ea478679dbf7124341a6ba36a90af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 07/51] fix: Continue writing after the last FLAC metadata
 block after adjusting its header

Otherwise the STREAMINFO block (or whatever block has been the last one) is overwritten when adding a Vorbis comment.
---
 flac/flacstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 0b8cfee..970a5e7 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -221,7 +221,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(!m_vorbisComment);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        originalStream.seekg(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
+        outputStream.seekp(static_cast<streamoff>(lastActuallyWrittenHeader.dataSize()), ios_base::cur);
     }
 
     // write Vorbis comment
@@ -290,7 +290,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(true);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        outputStream.seekp(lastActuallyWrittenHeader.dataSize());
+        outputStream.seekp(static_cast<streamoff>(lastActuallyWrittenHeader.dataSize()), ios_base::cur);
     }
 
     return lastStartOffset;
-- 
2.43.0


From f0877f11a5596056d341b41289f2918abb3a53bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 08/51] fix: Do not write FLAC metadata blocks with a size
 which cannot be denoted

The size of a METADATA_BLOCK_PICTURE of 16 MiB or more was truncated leading to a corrupt file.
---
 flac/flacmetadata.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flac/flacmetadata.cpp b/flac/flacmetadata.cpp
index b212a63..d2c728b 100644
--- a/flac/flacmetadata.cpp
+++ b/flac/flacmetadata.cpp
@@ -39,6 +39,9 @@ void FlacMetaDataBlockHeader::parseHeader(std::string_view buffer)
  */
 void FlacMetaDataBlockHeader::makeHeader(std::ostream &outputStream)
 {
+    if (m_dataSize > 0xFFFFFFu) {
+        throw InvalidDataException(); // size can not be denoted
+    }
     std::uint8_t buff[4];
     *buff = (m_last ? (0x80 | m_type) : m_type);
     BE::getBytes24(m_dataSize, reinterpret_cast<char *>(buff) + 1);
-- 
2.43.0


From 0b403455548b49de9bad6e541462e46e4ed26e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 09/51] fix: Do not dereference absent Vorbis comment when FLAC
 picture precedes it

---
 flac/flacstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 970a5e7..53411c5 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -129,7 +129,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
             try {
                 // parse the cover
                 VorbisCommentField coverField;
-                coverField.setId(m_vorbisComment->fieldId(KnownField::Cover));
+                coverField.setId(m_vorbisComment ? m_vorbisComment->fieldId(KnownField::Cover) : VorbisComment().fieldId(KnownField::Cover));
                 FlacMetaDataBlockPicture picture(coverField.value());
                 picture.parse(*m_istream, header.dataSize());
                 coverField.setTypeInfo(picture.pictureType());
-- 
2.43.0


From 5c683193cafcbe4b2098f176d4979d2c5bd1ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 10/51] fix: Avoid infinite loop if size of FLAC picture
 exceeds 32 bit

---
 flac/flacstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 53411c5..d3d9fd8 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -259,7 +259,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
     }
     header.setType(FlacMetaDataBlockType::Picture);
     const auto coverFields = m_vorbisComment->fields().equal_range(coverId);
-    for (auto i = coverFields.first; i != coverFields.second;) {
+    for (auto i = coverFields.first; i != coverFields.second; ++i) {
         const auto lastCoverStartOffset = outputStream.tellp();
 
         try {
@@ -267,7 +267,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
             FlacMetaDataBlockPicture pictureBlock(i->second.value());
             pictureBlock.setPictureType(i->second.typeInfo());
             header.setDataSize(pictureBlock.requiredSize());
-            header.setLast(++i == coverFields.second);
+            header.setLast(std::next(i) == coverFields.second);
             header.makeHeader(outputStream);
             pictureBlock.make(outputStream);
 
-- 
2.43.0


From 8e06e85e4d7828853df2e24034775801e6714c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 11/51] fix: Write all covers of a Vorbis comment exactly once

Only the first one was written and a field using a different case for the ID was written twice.
---
 vorbis/vorbiscomment.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 0a7ac6f..897b194 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -409,14 +409,16 @@ void VorbisComment::make(std::ostream &stream, VorbisCommentFlags flags, Diagnos
     writer.writeUInt32LE(0);
     // write fields
     std::uint32_t fieldsWritten = 0;
-    static const auto coverId = std::string(VorbisCommentIds::cover());
-    for (auto &i : fields()) {
-        if (i.first != coverId) { // write cover at the end
-            fieldsWritten += makeField(i.second, writer, flags, diag);
+    const auto [coversBegin, coversEnd] = fields().equal_range(std::string(VorbisCommentIds::cover()));
+    for (auto i = fields().begin(), end = fields().end(); i != end;) {
+        if (i == coversBegin && i != coversEnd) { // write covers at the end
+            i = coversEnd;
+            continue;
         }
+        fieldsWritten += makeField((i++)->second, writer, flags, diag);
     }
-    if (const auto cover = fields().find(coverId); cover != fields().end()) {
-        fieldsWritten += makeField(cover->second, writer, flags, diag);
+    for (auto i = coversBegin; i != coversEnd; ++i) {
+        fieldsWritten += makeField(i->second, writer, flags, diag);
     }
     // write field count
     const auto framingByteOffset = stream.tellp();
-- 
2.43.0


From fa92a0c7eec6114a4ae92cc219068872ce10aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 12/51] fix: Consider language when returning known field for
 Vorbis comment field ID

---
 vorbis/vorbiscomment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 897b194..238049e 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -144,6 +144,7 @@ KnownField VorbisComment::internallyGetKnownField(const IdentifierType &id) cons
          { grouping(), KnownField::Grouping },
          { label(), KnownField::RecordLabel },
          { performer(), KnownField::Performers },
+         { language(), KnownField::Language },
          { lyricist(), KnownField::Lyricist },
          { lyrics(), KnownField::Lyrics },
          { albumArtist(), KnownField::AlbumArtist },
-- 
2.43.0


From 9cebaa6a4ddc6a7bb2816ef451cf4757c2211bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:28 +0000
Subject: [PATCH 13/51] fix: Write padding only once when saving FLAC files
 with ID3v2 tag

The padding was written as part of the ID3v2 tag and additionally as FLAC metadata block. When not rewriting the file, the audio data was overwritten.
---
 mediafileinfo.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index cb56aa9..e782102 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1837,11 +1837,12 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 i->make(outputStream, 0, diag);
             }
             // include padding into the last ID3v2 tag
-            makers.back().make(outputStream, (flacStream && padding && padding < 4) ? 0 : static_cast<std::uint32_t>(padding), diag);
+            makers.back().make(outputStream, static_cast<std::uint32_t>(padding), diag);
         }
 
         if (flacStream) {
-            if (padding && startOfLastMetaDataBlock) {
+            const auto flacPadding = makers.empty() ? padding : std::size_t();
+            if (flacPadding && startOfLastMetaDataBlock) {
                 // if appending padding, ensure the last flag of the last "METADATA_BLOCK_HEADER" is not set
                 flacMetaData.seekg(startOfLastMetaDataBlock);
                 flacMetaData.seekp(startOfLastMetaDataBlock);
@@ -1852,9 +1853,9 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             // write FLAC metadata
             outputStream << flacMetaData.rdbuf();
 
-            // write padding
-            if (padding) {
-                flacStream->makePadding(outputStream, static_cast<std::uint32_t>(padding), true, diag);
+            // write padding (unless it has already been included into the last ID3v2 tag)
+            if (flacPadding) {
+                flacStream->makePadding(outputStream, static_cast<std::uint32_t>(flacPadding), true, diag);
             }
         }
 
-- 
2.43.0


From b5aeb00a0790a5823024dc39810b071fe7c0fb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 14/51] fix: Avoid undefined duration if FLAC sampling
 frequency or IVF frame rate is zero

---
 flac/flacstream.cpp | 2 +-
 ivf/ivfstream.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index d3d9fd8..8435c92 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -102,7 +102,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
                 m_samplingFrequency = streamInfo.samplingFrequency();
                 m_sampleCount = streamInfo.totalSampleCount();
                 m_bitsPerSample = streamInfo.bitsPerSample();
-                m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+                m_duration = m_samplingFrequency ? TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency) : TimeSpan();
             } else {
                 diag.emplace_back(DiagLevel::Critical, "\"METADATA_BLOCK_STREAMINFO\" is truncated and will be ignored.", context);
             }
diff --git a/ivf/ivfstream.cpp b/ivf/ivfstream.cpp
index 05a272f..07ab55d 100644
--- a/ivf/ivfstream.cpp
+++ b/ivf/ivfstream.cpp
@@ -52,7 +52,7 @@ void IvfStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
 
     // compute further values
     m_format = FourccIds::fourccToMediaFormat(formatId);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_fps);
+    m_duration = m_fps ? TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_fps) : TimeSpan();
 
     // skip unused bytes
     m_istream->seekg(4, ios_base::cur);
-- 
2.43.0


From a6848410adfa4d2d46c72696b98c2b5ca6c30800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 15/51] fix: Avoid division by zero when parsing MP4 file with
 time scale of zero

---
 mp4/mp4container.cpp | 12 +++++++-----
 mp4/mp4track.cpp     |  4 +++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 1cf39d5..30c5e90 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -138,15 +138,15 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                             m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
                             m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
+                            m_duration = m_timeScale ? m_duration / static_cast<TimeSpan::TickType>(m_timeScale) : TimeSpan();
                             break;
                         case 1:
                             m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
                             m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
+                            m_duration = m_timeScale ? m_duration / static_cast<TimeSpan::TickType>(m_timeScale) : TimeSpan();
                             break;
                         default:;
                         }
@@ -165,7 +165,9 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                 if (mehdAtom->dataSize() > 0) {
                     stream().seekg(static_cast<iostream::off_type>(mehdAtom->dataOffset()));
                     unsigned int durationSize = reader().readByte() == 1u ? 8u : 4u; // duration size depends on atom version
-                    if (mehdAtom->dataSize() >= 4 + durationSize) {
+                    if (!m_timeScale) {
+                        diag.emplace_back(DiagLevel::Warning, "Unable to determine duration from mehd atom because the time scale is unknown.", context);
+                    } else if (mehdAtom->dataSize() >= 4 + durationSize) {
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (durationSize) {
                         case 4u:
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8a77edd..d35949e 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1682,7 +1682,9 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
     m_creationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdCreationTime));
     m_modificationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdModificationTime));
-    m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdDuration)) / static_cast<TimeSpan::TickType>(m_timeScale);
+    m_duration = m_timeScale
+        ? TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdDuration)) / static_cast<TimeSpan::TickType>(m_timeScale)
+        : TimeSpan();
 
     std::uint16_t tmp = reader.readUInt16BE();
     if (tmp) {
-- 
2.43.0


From 0bbfd683f7724e01a6b0c4c35681398d108803b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:52 +0000
Subject: [PATCH 16/51] fix: Avoid division by zero when parsing WAV file with
 block align of zero

---
 wav/waveaudiostream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 38c6950..7857b8b 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -172,8 +172,10 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
         case 0x64617461u: // data segment
             m_dataOffset = static_cast<std::uint64_t>(m_istream->tellg());
             m_size = restHeaderLen;
-            m_sampleCount = m_size / m_chunkSize;
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+            m_sampleCount = m_chunkSize ? m_size / m_chunkSize : 0;
+            m_duration = m_samplingFrequency
+                ? TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency))
+                : TimeSpan();
             break;
         default:;
         }
-- 
2.43.0


From 168ecddab4faab77cd485754922223c263642ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 17/51] fix: Read single-character values of ID3v1 tags

---
 id3/id3v1tag.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 66f40de..ad06a91 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -277,12 +277,10 @@ void Id3v1Tag::ensureTextValuesAreProperlyEncoded()
  */
 void Id3v1Tag::readValue(TagValue &value, size_t maxLength, const char *buffer)
 {
-    const char *end = buffer + maxLength - 1;
-    while ((*end == 0x0 || *end == ' ') && end >= buffer) {
-        --end;
+    while (maxLength && (buffer[maxLength - 1] == 0x0 || buffer[maxLength - 1] == ' ')) {
         --maxLength;
     }
-    if (buffer == end) {
+    if (!maxLength) {
         return;
     }
     if (maxLength >= 3 && BE::toUInt24(buffer) == 0x00EFBBBF) {
-- 
2.43.0


From cfea80285c700c37163dc6f79aca1ec27dc5a678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 18/51] fix: Consider record date when checking for presence of
 ID3v1 field

---
 id3/id3v1tag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index ad06a91..d5027f8 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -207,6 +207,7 @@ bool Id3v1Tag::hasField(KnownField field) const
         return !m_artist.isEmpty();
     case KnownField::Album:
         return !m_album.isEmpty();
+    case KnownField::RecordDate:
         return !m_year.isEmpty();
     case KnownField::Comment:
         return !m_comment.isEmpty();
-- 
2.43.0


From 8a6a7b8bcef9358c7192033eee6c6d7e8914aaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:58 +0000
Subject: [PATCH 19/51] fix: Read ID3v1 track number as unsigned value

---
 id3/id3v1tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index d5027f8..96ec7dd 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -78,7 +78,7 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
     }
     readValue(m_comment, is11 ? 28 : 30, buffer + 97);
     if (is11) {
-        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<char *>(buffer + 126), 0));
+        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<unsigned char *>(buffer + 126), 0));
     }
     m_genre.assignStandardGenreIndex(*reinterpret_cast<unsigned char *>(buffer + 127));
 }
-- 
2.43.0


From 5d280f6e9b8d3f042d76b663e5aca94edfb9d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:48 +0000
Subject: [PATCH 20/51] fix: Initialize all members when constructing TagValue
 from C-string

---
 tagvalue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index aaa0924..cfb825d 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -189,6 +189,8 @@ TagValue::TagValue(const char *text, std::size_t textSize, TagTextEncoding textE
  * \remarks Strips the BOM of the specified \a text.
  */
 TagValue::TagValue(const char *text, TagTextEncoding textEncoding, TagTextEncoding convertTo)
+    : m_descEncoding(TagTextEncoding::Latin1)
+    , m_flags(TagValueFlags::None)
 {
     assignText(text, std::strlen(text), textEncoding, convertTo);
 }
-- 
2.43.0


From 35ad1878e6815425c6eba0b2b59da421c1be6771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:48 +0000
Subject: [PATCH 21/51] fix: Preserve flags when copying TagValue

---
 tagvalue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index cfb825d..24306c6 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -140,7 +140,7 @@ TagValue::TagValue(const TagValue &other)
     , m_type(other.m_type)
     , m_encoding(other.m_encoding)
     , m_descEncoding(other.m_descEncoding)
-    , m_flags(TagValueFlags::None)
+    , m_flags(other.m_flags)
 {
     if (!other.isEmpty()) {
         m_ptr = make_unique<char[]>(m_size);
-- 
2.43.0


From b7c33ad4ca1c2a621bccd80e1d7de6ee25c8739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:48 +0000
Subject: [PATCH 22/51] fix: Convert whole string when converting non-text
 value to UTF-16 string

---
 tagvalue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 24306c6..cb8249a 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -1192,8 +1192,8 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
         throw ConversionException(argsToString("Can not convert ", tagDataTypeString(m_type), " to string."));
     }
     if (encoding == TagTextEncoding::Utf16LittleEndian || encoding == TagTextEncoding::Utf16BigEndian) {
-        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), result.size())
-                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), result.size());
+        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), regularStrRes.size())
+                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), regularStrRes.size());
         result.assign(reinterpret_cast<const char16_t *>(encodedData.first.get()), encodedData.second / sizeof(const char16_t));
     }
 }
-- 
2.43.0


From b895f1c5331f5116fc7abbf9332e2b8ce5116bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:48 +0000
Subject: [PATCH 23/51] fix: Allow assigning data to TagValue it has been moved
 from

---
 tagvalue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index cb8249a..10ebdab 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -1294,7 +1294,7 @@ void TagValue::assignData(const char *data, size_t length, TagDataType type, Tag
     if (type == TagDataType::Text) {
         stripBom(data, length, encoding);
     }
-    if (length > m_size) {
+    if (length > m_size || !m_ptr) {
         m_ptr = make_unique<char[]>(length);
     }
     if (length) {
-- 
2.43.0


From 5468058ebbfbbfdcef965db465c7c0b0c44e4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:03 +0000
Subject: [PATCH 24/51] fix: Do not lose text of unspecified encoding when
 converting encoding of TagValue

---
 tagvalue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 10ebdab..f9493d6 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -925,7 +925,7 @@ void TagValue::convertDataEncoding(TagTextEncoding encoding)
     if (m_encoding == encoding) {
         return;
     }
-    if (type() == TagDataType::Text) {
+    if (type() == TagDataType::Text && dataEncoding() != TagTextEncoding::Unspecified) {
         StringData encodedData;
         switch (encoding) {
         case TagTextEncoding::Utf8:
@@ -977,7 +977,7 @@ void TagValue::convertDescriptionEncoding(TagTextEncoding encoding)
     if (encoding == m_descEncoding) {
         return;
     }
-    if (m_desc.empty()) {
+    if (m_desc.empty() || m_descEncoding == TagTextEncoding::Unspecified) {
         m_descEncoding = encoding;
         return;
     }
-- 
2.43.0


From 464fd679074d4aaea02fc488f88bbeb07a059790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:31 +0000
Subject: [PATCH 25/51] fix: Do not read beyond the end of ID3v2 frames with
 unterminated strings

---
 id3/id3v2frame.cpp | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index df12b8e..8153fe0 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -932,16 +932,11 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
             get<0>(res) += 3;
         }
         const char *pos = get<0>(res);
-        for (; *pos != 0x00; ++pos) {
-            if (pos < get<2>(res)) {
-                ++get<1>(res);
-            } else {
-                if (addWarnings) {
-                    diag.emplace_back(
-                        DiagLevel::Warning, "String in frame is not terminated properly.", "parsing termination of frame " + idToString());
-                }
-                break;
-            }
+        for (; pos < get<2>(res) && *pos != 0x00; ++pos) {
+            ++get<1>(res);
+        }
+        if (pos >= get<2>(res) && addWarnings) {
+            diag.emplace_back(DiagLevel::Warning, "String in frame is not terminated properly.", "parsing termination of frame " + idToString());
         }
         get<2>(res) = pos + 1;
         break;
@@ -964,19 +959,15 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
                 get<0>(res) += 2;
             }
         }
-        const std::uint16_t *pos = reinterpret_cast<const std::uint16_t *>(get<0>(res));
-        for (; *pos != 0x0000; ++pos) {
-            if (pos < reinterpret_cast<const std::uint16_t *>(get<2>(res))) {
-                get<1>(res) += 2;
-            } else {
-                if (addWarnings) {
-                    diag.emplace_back(
-                        DiagLevel::Warning, "Wide string in frame is not terminated properly.", "parsing termination of frame " + idToString());
-                }
-                break;
-            }
+        const char *pos = get<0>(res);
+        for (; get<2>(res) - pos >= 2 && (pos[0] || pos[1]); pos += 2) {
+            get<1>(res) += 2;
+        }
+        if (get<2>(res) - pos < 2 && addWarnings) {
+            diag.emplace_back(
+                DiagLevel::Warning, "Wide string in frame is not terminated properly.", "parsing termination of frame " + idToString());
         }
-        get<2>(res) = reinterpret_cast<const char *>(pos + 1);
+        get<2>(res) = pos + 2;
         break;
     }
     }
-- 
2.43.0


From a661a97da9118fdd8bf4186c5023d86105f760b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:31 +0000
Subject: [PATCH 26/51] fix: Read last character of unterminated URL in ID3v2
 frame

---
 id3/id3v2frame.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 8153fe0..225c8bb 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -278,13 +278,14 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         auto dataEncoding = isTextFrame ? parseTextEncodingByte(static_cast<std::uint8_t>(*(currentOffset++)), diag) : TagTextEncoding::Latin1;
 
         // parse string values (since ID3v2.4 a text frame may contain multiple strings)
-        for (size_t currentIndex = 1; currentIndex < m_dataSize;) {
+        const auto startIndex = static_cast<size_t>(currentOffset - buffer.get());
+        for (size_t currentIndex = startIndex; currentIndex < m_dataSize;) {
             // determine the next substring
             const auto substr(parseSubstring(currentOffset, m_dataSize - currentIndex, dataEncoding, false, diag));
 
             // handle case when string is empty
             if (!get<1>(substr)) {
-                if (currentIndex == 1) {
+                if (currentIndex == startIndex) {
                     value().clearDataAndMetadata();
                 }
                 currentIndex = static_cast<size_t>(get<2>(substr) - buffer.get());
-- 
2.43.0


From 3781015ac6ee5159b8a72fdb40c07f6af6b0be75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:31 +0000
Subject: [PATCH 27/51] fix: Treat ID3v2 frames with size close to 32-bit limit
 as truncated

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 225c8bb..f76fcb5 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -199,7 +199,7 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         // -> read size, check whether frame is truncated
         m_dataSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
         m_totalSize = m_dataSize + 10;
-        if (m_totalSize > maximalSize) {
+        if (m_totalSize > maximalSize || m_totalSize < m_dataSize) {
             diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
             throw TruncatedDataException();
         }
-- 
2.43.0


From 16e80ebf572ee3a16d5ee864cffb77691b04e9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:31 +0000
Subject: [PATCH 28/51] fix: Compute size of ID3v2 comment frames correctly

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index f76fcb5..a7534e4 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1303,7 +1303,7 @@ void Id3v2Frame::makeComment(unique_ptr<char[]> &buffer, std::uint32_t &bufferSi
     // calculate needed buffer size and create buffer
     // note: encoding byte + language + description size + actual data size + BOMs and termination
     const auto data = comment.toString(encoding);
-    const auto requiredBufferSize = 1 + 3 + descriptionSize + data.size()
+    const auto requiredBufferSize = 1 + 3 + descriptionSize
         + (encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 6 : 1) + data.size();
     if (requiredBufferSize > numeric_limits<uint32_t>::max()) {
         diag.emplace_back(DiagLevel::Critical, "Required size exceeds maximum.", context);
-- 
2.43.0


From 7bfbef2c92bf96337c19e8608b6f569401c4dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:31 +0000
Subject: [PATCH 29/51] fix: Avoid undefined conversion of rating when making
 ID3v2 popularimeter frame

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index a7534e4..889a9f6 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -757,7 +757,7 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
             m_data = make_unique<char[]>(m_decompressedSize);
             auto pos = popularity.user.size() + 1;
             std::memcpy(m_data.get(), popularity.user.data(), pos);
-            m_data[pos] = static_cast<char>(popularity.rating);
+            m_data[pos] = static_cast<char>(static_cast<std::uint8_t>(popularity.rating));
             writePlayCounter(m_data.get() + pos + playCounterSize, playCounterSize, popularity.playCounter);
 
         } else {
-- 
2.43.0


From 1d2caa0ba5e6d6a151c541c6a50ee17f007aba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 30/51] fix: Avoid overflow when parsing excessive genre index
 in ID3v2 frame

---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 889a9f6..bcb81d2 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -92,7 +92,7 @@ template <class stringtype> static int parseGenreIndex(const stringtype &denotat
             case '\0':
                 return index;
             default:
-                if (c >= '0' && c <= '9') {
+                if (c >= '0' && c <= '9' && index <= 0xFFFF) {
                     index = index * 10 + c - '0';
                 } else {
                     return -1;
-- 
2.43.0


From 6796ff9e324c4903501d232e6a207dfa609b67ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 31/51] fix: Include group byte and decompressed size in ID3v2
 frame size

---
 id3/id3v2frame.cpp | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index bcb81d2..b4a067f 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -152,6 +152,7 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 {
     static const string defaultContext("parsing ID3v2 frame");
     string context;
+    uLongf decompressedSize = 0;
 
     // parse header
     if (version < 3) {
@@ -206,12 +207,26 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 
         // -> read flags and group
         m_flag = reader.readUInt16BE();
-        m_group = hasGroupInformation() ? reader.readByte() : 0;
         if (isEncrypted()) {
             // encryption is not implemented
             diag.emplace_back(DiagLevel::Critical, "Encrypted frames aren't supported.", context);
             throw VersionNotSupportedException();
         }
+        // note: The group byte and the decompressed size are included in the frame size. The decompressed size comes
+        //       first in ID3v2.3 and last in ID3v2.4.
+        const auto additionalHeaderSize = (hasGroupInformation() ? 1u : 0u) + (isCompressed() ? 4u : 0u);
+        if (m_dataSize < additionalHeaderSize) {
+            diag.emplace_back(DiagLevel::Critical, "The frame is too small to contain the denoted group/size information.", context);
+            throw InvalidDataException();
+        }
+        m_dataSize -= additionalHeaderSize;
+        if (isCompressed() && version < 4) {
+            decompressedSize = reader.readUInt32BE();
+        }
+        m_group = hasGroupInformation() ? reader.readByte() : 0;
+        if (isCompressed() && version >= 4) {
+            decompressedSize = reader.readSynchsafeUInt32BE();
+        }
     }
 
     // add a warning if a frame appears in an ID3v2 tag known not to support it
@@ -234,7 +249,6 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 
     // -> decompress data if compressed; otherwise just read it
     if (isCompressed()) {
-        uLongf decompressedSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
         if (decompressedSize < m_dataSize) {
             diag.emplace_back(DiagLevel::Critical, "The decompressed size is smaller than the compressed size.", context);
             throw InvalidDataException();
@@ -838,22 +852,23 @@ void Id3v2FrameMaker::make(BinaryWriter &writer)
         writer.writeUInt24BE(m_frameId);
         writer.writeUInt24BE(m_dataSize);
     } else {
+        // note: The group byte and the decompressed size are included in the frame size. The decompressed size comes
+        //       first in ID3v2.3 and last in ID3v2.4.
         writer.writeUInt32BE(m_frameId);
         if (m_version >= 4) {
-            writer.writeSynchsafeUInt32BE(m_dataSize);
+            writer.writeSynchsafeUInt32BE(m_requiredSize - 10);
         } else {
-            writer.writeUInt32BE(m_dataSize);
+            writer.writeUInt32BE(m_requiredSize - 10);
         }
         writer.writeUInt16BE(m_frame.flag());
+        if (m_version < 4 && m_frame.isCompressed()) {
+            writer.writeUInt32BE(m_decompressedSize);
+        }
         if (m_frame.hasGroupInformation()) {
             writer.writeByte(m_frame.group());
         }
-        if (m_version >= 3 && m_frame.isCompressed()) {
-            if (m_version >= 4) {
-                writer.writeSynchsafeUInt32BE(m_decompressedSize);
-            } else {
-                writer.writeUInt32BE(m_decompressedSize);
-            }
+        if (m_version >= 4 && m_frame.isCompressed()) {
+            writer.writeSynchsafeUInt32BE(m_decompressedSize);
         }
     }
     writer.write(m_data.get(), m_dataSize);
-- 
2.43.0


From c48fcaf93deddcf0fbd265361a5196717ae08d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 32/51] fix: Use meaning of ID3v2 frame flags according to
 version

---
 id3/id3v2frame.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index b4a067f..46e282a 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -206,6 +206,7 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         }
 
         // -> read flags and group
+        m_parsedVersion = version;
         m_flag = reader.readUInt16BE();
         if (isEncrypted()) {
             // encryption is not implemented
@@ -839,6 +840,23 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
     }
 }
 
+/*!
+ * \brief Returns the flags of the specified \a frame as they are supposed to be stored in the specified \a version.
+ * \remarks The bits of the flags have a different meaning in ID3v2.3 and ID3v2.4.
+ */
+static std::uint16_t convertFlags(const Id3v2Frame &frame, std::uint8_t version)
+{
+    if ((frame.parsedVersion() >= 4) == (version >= 4)) {
+        return frame.flag();
+    }
+    if (version >= 4) {
+        return static_cast<std::uint16_t>(
+            (frame.flag() & 0xE000) >> 1 | (frame.hasGroupInformation() ? 0x40 : 0x00) | (frame.isCompressed() ? 0x09 : 0x00));
+    }
+    return static_cast<std::uint16_t>(
+        (frame.flag() & 0x7000) << 1 | (frame.isCompressed() ? 0x80 : 0x00) | (frame.hasGroupInformation() ? 0x20 : 0x00));
+}
+
 /*!
  * \brief Saves the frame (specified when constructing the object) using
  *        the specified \a writer.
@@ -860,7 +878,7 @@ void Id3v2FrameMaker::make(BinaryWriter &writer)
         } else {
             writer.writeUInt32BE(m_requiredSize - 10);
         }
-        writer.writeUInt16BE(m_frame.flag());
+        writer.writeUInt16BE(convertFlags(m_frame, m_version));
         if (m_version < 4 && m_frame.isCompressed()) {
             writer.writeUInt32BE(m_decompressedSize);
         }
-- 
2.43.0


From a750edd3b77bb221a2ce3c900672bf61d662e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 33/51] fix: Reject data which is too big for ID3v2 frames/tags
 instead of writing a wrong size

---
 id3/id3v2frame.cpp | 13 +++++++++++++
 id3/id3v2tag.cpp   |  8 +++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 46e282a..f4e6c86 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -712,6 +712,11 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
             }();
             const auto concatenatedSubstrings = joinStrings(substrings, std::string(), false, byteOrderMark, std::string(terminationLength, '\0'));
 
+            if (concatenatedSubstrings.size() >= maxId3v2FrameDataSize) {
+                diag.emplace_back(DiagLevel::Critical, "Assigned values exceed maximum size.", context);
+                throw InvalidDataException();
+            }
+
             // write text encoding byte and concatenated strings to data buffer
             if (isTextFrame) {
                 m_data = make_unique<char[]>(m_decompressedSize = static_cast<std::uint32_t>(1 + concatenatedSubstrings.size()));
@@ -820,6 +825,14 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
         m_dataSize = m_decompressedSize;
     }
 
+    // check whether the size can be denoted
+    const auto additionalHeaderSize = version < 3 ? 0u : ((m_frame.hasGroupInformation() ? 1u : 0u) + (m_frame.isCompressed() ? 4u : 0u));
+    const auto maxDataSize = version < 3 ? 0x00FFFFFFu : (version < 4 ? maxId3v2FrameDataSize : 0x0FFFFFFFu);
+    if (m_dataSize > maxDataSize - additionalHeaderSize || (version >= 3 && m_frame.isCompressed() && m_decompressedSize > maxDataSize)) {
+        diag.emplace_back(DiagLevel::Critical, "Frame size exceeds maximum of the version of ID3v2.", context);
+        throw InvalidDataException();
+    }
+
     // calculate required size
     // -> data size
     m_requiredSize = m_dataSize;
diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index f90071f..e6c09bb 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -868,13 +868,19 @@ Id3v2TagMaker::Id3v2TagMaker(Id3v2Tag &tag, Diagnostics &diag)
 
     // prepare frames
     m_maker.reserve(tag.fields().size());
+    auto framesSize = std::uint64_t();
     for (auto &pair : tag.fields()) {
         try {
             m_maker.emplace_back(pair.second.prepareMaking(tag.majorVersion(), diag));
-            m_framesSize += m_maker.back().requiredSize();
+            framesSize += m_maker.back().requiredSize();
         } catch (const Failure &) {
         }
     }
+    if (framesSize > 0x0FFFFFFFu) {
+        diag.emplace_back(DiagLevel::Critical, "The size of all frames exceeds the maximum size of an ID3v2 tag.", context);
+        throw InvalidDataException();
+    }
+    m_framesSize = static_cast<std::uint32_t>(framesSize);
 
     // calculate required size
     // -> header + size of frames
-- 
2.43.0


From 469f2e49dc87b10660d7f70ca344c1b5a1293152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 34/51] fix: Ensure FrameComparer is a strict weak ordering

---
 id3/id3v2tag.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index e6c09bb..ec70ab4 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -713,20 +713,17 @@ bool FrameComparer::operator()(std::uint32_t lhs, std::uint32_t rhs) const
         return false;
     }
 
-    const bool lhsLong = Id3v2FrameIds::isLongId(lhs);
-    const bool rhsLong = Id3v2FrameIds::isLongId(rhs);
-    if (lhsLong != rhsLong) {
-        if (!lhsLong) {
-            lhs = Id3v2FrameIds::convertToLongId(lhs);
-            if (!lhs) {
-                return true;
-            }
-        } else if (!rhsLong) {
-            rhs = Id3v2FrameIds::convertToLongId(rhs);
-            if (!rhs) {
-                return true;
-            }
-        }
+    const auto lhsConverted = Id3v2FrameIds::isLongId(lhs) ? lhs : Id3v2FrameIds::convertToLongId(lhs);
+    const auto rhsConverted = Id3v2FrameIds::isLongId(rhs) ? rhs : Id3v2FrameIds::convertToLongId(rhs);
+    if (!lhsConverted != !rhsConverted) {
+        return !lhsConverted;
+    }
+    if (lhsConverted) {
+        lhs = lhsConverted;
+        rhs = rhsConverted;
+    }
+    if (lhs == rhs) {
+        return false;
     }
 
     if (lhs == Id3v2FrameIds::lUniqueFileId || lhs == Id3v2FrameIds::sUniqueFileId) {
-- 
2.43.0


From be23dd97d284944aa33c3323318c809bbfc9e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 35/51] fix: Do not denote a footer when making ID3v2 tag
 without footer

---
 id3/id3v2tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index ec70ab4..c6a2c1f 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -903,8 +903,8 @@ void Id3v2TagMaker::make(std::ostream &stream, std::uint32_t padding, Diagnostic
     // -> version
     writer.writeByte(m_tag.majorVersion());
     writer.writeByte(m_tag.revisionVersion());
-    // -> flags, but without extended header or compression bit set
-    writer.writeByte(m_tag.flags() & 0xBF);
+    // -> flags, but without extended header, compression or footer bit set
+    writer.writeByte(m_tag.flags() & 0xAF);
     // -> size (excluding header)
     writer.writeSynchsafeUInt32BE(m_framesSize + padding);
 
-- 
2.43.0


From fdfab139a38bb92d5cfc0ff3e7a15452c703b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 36/51] fix: Check footer of ID3v2 tag at its actual offset

---
 id3/id3v2tag.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index c6a2c1f..2d9b398 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -643,9 +643,10 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     if (!hasFooter()) {
         return;
     }
-    if (maximalSize && m_size + 10 < maximalSize) {
+    if (!maximalSize || static_cast<std::uint64_t>(m_size) + 10 <= maximalSize) {
         // the footer does not provide additional information, just check the signature
-        stream.seekg(static_cast<streamoff>(startOffset + (m_size += 10)));
+        stream.seekg(static_cast<streamoff>(startOffset + m_size));
+        m_size += 10;
         if (reader.readUInt24LE() != 0x494433u) {
             diag.emplace_back(DiagLevel::Critical, "Footer signature is invalid.", context);
         }
-- 
2.43.0


From 4fa41f27bb170556325af9e6e9c72167b7e27cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:41 +0000
Subject: [PATCH 37/51] fix: Consider header when limiting size of truncated
 ID3v2 tag

---
 id3/id3v2tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 2d9b398..d6d6790 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -599,8 +599,8 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
 
     // how many bytes remain for frames and padding?
     std::uint32_t bytesRemaining = m_sizeExcludingHeader - m_extendedHeaderSize;
-    if (maximalSize && bytesRemaining > maximalSize) {
-        bytesRemaining = static_cast<std::uint32_t>(maximalSize);
+    if (const auto headerSize = 10u + m_extendedHeaderSize; maximalSize && bytesRemaining > maximalSize - headerSize) {
+        bytesRemaining = static_cast<std::uint32_t>(maximalSize - headerSize);
         diag.emplace_back(DiagLevel::Critical, "Frames are truncated.", context);
     }
 
-- 
2.43.0


From b34a9220c10bb5788e4636cc33babb3251e43833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:59 +0000
Subject: [PATCH 38/51] fix: Do not split characters when looking for
 termination of UTF-16 description in ID3v2 frames

---
 id3/id3v2frame.cpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index f4e6c86..696dc46 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1176,6 +1176,23 @@ size_t Id3v2Frame::makeBom(char *buffer, TagTextEncoding encoding)
     }
 }
 
+/*!
+ * \brief Returns the size of the specified \a str until the first termination character (considering the specified \a encoding).
+ */
+static string::size_type findTermination(const std::string &str, TagTextEncoding encoding)
+{
+    if (encoding != TagTextEncoding::Utf16BigEndian && encoding != TagTextEncoding::Utf16LittleEndian) {
+        const auto pos = str.find('\0');
+        return pos != string::npos ? pos : str.size();
+    }
+    for (string::size_type pos = 0; pos + 1 < str.size(); pos += 2) {
+        if (!str[pos] && !str[pos + 1]) {
+            return pos;
+        }
+    }
+    return str.size();
+}
+
 /*!
  * \brief Writes the specified picture to the specified buffer (ID3v2.2 compatible).
  */
@@ -1185,11 +1202,7 @@ void Id3v2Frame::makeLegacyPicture(
     // determine description
     TagTextEncoding descriptionEncoding = picture.descriptionEncoding();
     StringData convertedDescription;
-    string::size_type descriptionSize = picture.description().find(
-        "\0\0", 0, descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = picture.description().size();
-    }
+    string::size_type descriptionSize = findTermination(picture.description(), descriptionEncoding);
     if (descriptionEncoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         descriptionEncoding = TagTextEncoding::Utf16LittleEndian;
@@ -1260,11 +1273,7 @@ void Id3v2Frame::makePicture(std::unique_ptr<char[]> &buffer, std::uint32_t &buf
     // determine description
     TagTextEncoding descriptionEncoding = picture.descriptionEncoding();
     StringData convertedDescription;
-    string::size_type descriptionSize = picture.description().find(
-        "\0\0", 0, descriptionEncoding == TagTextEncoding::Utf16BigEndian || descriptionEncoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = picture.description().size();
-    }
+    string::size_type descriptionSize = findTermination(picture.description(), descriptionEncoding);
     if (version < 4 && descriptionEncoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         descriptionEncoding = TagTextEncoding::Utf16LittleEndian;
@@ -1334,11 +1343,7 @@ void Id3v2Frame::makeComment(unique_ptr<char[]> &buffer, std::uint32_t &bufferSi
         throw InvalidDataException();
     }
     StringData convertedDescription;
-    string::size_type descriptionSize = comment.description().find(
-        "\0\0", 0, encoding == TagTextEncoding::Utf16BigEndian || encoding == TagTextEncoding::Utf16LittleEndian ? 2 : 1);
-    if (descriptionSize == string::npos) {
-        descriptionSize = comment.description().size();
-    }
+    string::size_type descriptionSize = findTermination(comment.description(), encoding);
     if (version < 4 && encoding == TagTextEncoding::Utf8) {
         // UTF-8 is only supported by ID3v2.4, so convert back to UTF-16
         encoding = TagTextEncoding::Utf16LittleEndian;
-- 
2.43.0


From 5b910ac9353a520ad4f5441ca753381f0a8eb8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:38 +0000
Subject: [PATCH 39/51] fix: Do not read beyond the end of Vorbis comment cover
 field without value

---
 vorbis/vorbiscommentfield.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vorbis/vorbiscommentfield.cpp b/vorbis/vorbiscommentfield.cpp
index aebc010..6a19909 100644
--- a/vorbis/vorbiscommentfield.cpp
+++ b/vorbis/vorbiscommentfield.cpp
@@ -72,7 +72,7 @@ template <class StreamType> void VorbisCommentField::internalParse(StreamType &s
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("The field ID at ", static_cast<std::streamoff>(stream.tellg()), " is empty."), context);
                 throw InvalidDataException();
-            } else if (id() == VorbisCommentIds::cover()) {
+            } else if (idSize < size && id() == VorbisCommentIds::cover()) {
                 // extract cover value
                 try {
                     auto decoded = decodeBase64(data.get() + idSize + 1, size - idSize - 1);
-- 
2.43.0


From 6bc45eb40e6b03a3135742cc4e33928e0111296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:38 +0000
Subject: [PATCH 40/51] fix: Compare short signatures at the right position

---
 signature.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signature.cpp b/signature.cpp
index b4675ef..6aeb44d 100644
--- a/signature.cpp
+++ b/signature.cpp
@@ -118,10 +118,10 @@ ContainerFormat parseSignature(std::string_view buffer)
         sig = BE::toInt<std::uint64_t>(buffer.data());
     } else if (buffer.size() >= 4) {
         sig = BE::toInt<std::uint32_t>(buffer.data());
-        sig <<= 4;
+        sig <<= 32;
     } else if (buffer.size() >= 2) {
         sig = BE::toInt<std::uint16_t>(buffer.data());
-        sig <<= 6;
+        sig <<= 48;
     } else {
         return ContainerFormat::Unknown;
     }
-- 
2.43.0


From f441002cbbe6b59d2efcae65ed4d0b2ac9a89aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:38 +0000
Subject: [PATCH 41/51] fix: Do not read beyond bitrate table if bitrate index
 of MPEG audio frame is invalid

---
 mpegaudio/mpegaudioframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 7f95a0d..8ed4b13 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -108,7 +108,7 @@ constexpr bool MpegAudioFrame::isProtectedByCrc() const
  */
 inline std::uint16_t MpegAudioFrame::bitrate() const
 {
-    if (mpegVersion() > 0.0 && layer() > 0) {
+    if (mpegVersion() > 0.0 && layer() > 0 && (m_header & 0xf000u) != 0xf000u) {
         return s_bitrateTable[mpegVersion() == 1.0 ? 0 : 1][layer() - 1][(m_header & 0xf000u) >> 12];
     } else {
         return 0;
-- 
2.43.0


From 787ffe960154f3043fc614884adb885b9d9e8c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:38 +0000
Subject: [PATCH 42/51] fix: Compare all bits when checking for Xing header of
 MPEG audio frame

---
 mpegaudio/mpegaudioframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 8ed4b13..570b3f9 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -158,7 +158,7 @@ constexpr XingHeaderFlags operator&(XingHeaderFlags lhs, XingHeaderFlags rhs)
  */
 constexpr bool MpegAudioFrame::isXingHeaderAvailable() const
 {
-    return ((m_xingHeader & 0x58696e6700000000uL) == 0x58696e6700000000uL) || ((m_xingHeader & 0x496e666f00000000uL) == 0x496e666f00000000uL);
+    return ((m_xingHeader & 0xffffffff00000000uL) == 0x58696e6700000000uL) || ((m_xingHeader & 0xffffffff00000000uL) == 0x496e666f00000000uL);
 }
 
 /*!
-- 
2.43.0


From 9493be6098cfcad157d99e96fb99920c619cc604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:38 +0000
Subject: [PATCH 43/51] fix: Compute size of MPEG audio frames correctly

---
 mpegaudio/mpegaudioframe.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index df8a99d..c69f1bd 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -207,17 +207,16 @@ std::uint32_t MpegAudioFrame::sampleCount() const
  */
 std::uint32_t MpegAudioFrame::size() const
 {
+    const auto rate = static_cast<std::uint32_t>(bitrate()), frequency = samplingFrequency();
+    if (!rate || !frequency) {
+        return 0;
+    }
     switch (m_header & 0x60000u) {
-    case 0x60000u: // layer 1
-        return static_cast<std::uint32_t>(
-                   ((static_cast<double>(bitrate()) * 1024.0 / 8.0) / static_cast<double>(samplingFrequency())) * static_cast<double>(sampleCount())
-                   + static_cast<double>(paddingSize()))
-            * 4;
+    case 0x60000u: // layer 1 (consists of slots of 4 byte)
+        return sampleCount() / 32u * rate * 1000u / frequency * 4u + paddingSize();
     case 0x40000u: // layer 2
     case 0x20000u: // layer 3
-        return static_cast<std::uint32_t>(
-            ((static_cast<double>(bitrate()) * 1024.0 / 8.0) / static_cast<double>(samplingFrequency())) * static_cast<double>(sampleCount())
-            + static_cast<double>(paddingSize()));
+        return sampleCount() / 8u * rate * 1000u / frequency + paddingSize();
     default:
         return 0;
     }
-- 
2.43.0


From ff0531c4cfa5037ddc2637ce5150744e353e3ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:38 +0000
Subject: [PATCH 44/51] fix: Avoid division by zero when computing duration of
 MPEG audio stream

---
 mpegaudio/mpegaudioframestream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpegaudio/mpegaudioframestream.cpp b/mpegaudio/mpegaudioframestream.cpp
index 32d05ba..57caeaa 100644
--- a/mpegaudio/mpegaudioframestream.cpp
+++ b/mpegaudio/mpegaudioframestream.cpp
@@ -78,11 +78,12 @@ void MpegAudioFrameStream::internalParseHeader(Diagnostics &diag, AbortableProgr
                 context);
         }
     }
-    if (frame.isXingFramefieldPresent()) {
-        const auto duration = static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
+    if (frame.isXingFramefieldPresent() && frame.xingFrameCount() && frame.sampleCount() && frame.samplingFrequency()) {
+        const auto duration
+            = static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
         m_bitrate = static_cast<double>(m_size) / duration / 125.0;
         m_duration = TimeSpan::fromSeconds(duration);
-    } else {
+    } else if (frame.bitrate()) {
         m_bitrate = frame.bitrate();
         m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125)));
     }
-- 
2.43.0


From 94a068746e8bdf8504219dd73781ddf1fa6686f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:38 +0000
Subject: [PATCH 45/51] fix: Compute duration of MPEG audio in WAVE files
 correctly

---
 wav/waveaudiostream.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 7857b8b..3510953 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -188,12 +188,14 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     MpegAudioFrame frame;
     frame.parseHeader(m_reader, diag);
     MpegAudioFrameStream::addInfo(frame, *this);
-    m_bitrate = frame.isXingFramefieldPresent()
+    m_bitrate = frame.isXingFramefieldPresent() && frame.xingFrameCount() && frame.sampleCount() && frame.samplingFrequency()
         ? ((static_cast<double>(m_size) * 8.0)
-              / (static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency())) / 1024.0)
+              / (static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount())
+                  / static_cast<double>(frame.samplingFrequency()))
+              / 1000.0)
         : frame.bitrate();
     m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 128.0));
+    m_duration = m_bitrate > 0.0 ? TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0)) : TimeSpan();
 }
 
 } // namespace TagParser
-- 
2.43.0


From 8a2eeef8440eb157c78ac8097e341c0eb76aa150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:38 +0000
Subject: [PATCH 46/51] fix: Do not truncate size of ADTS frame

---
 adts/adtsframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adts/adtsframe.h b/adts/adtsframe.h
index 53ad236..88fce67 100644
--- a/adts/adtsframe.h
+++ b/adts/adtsframe.h
@@ -102,7 +102,7 @@ constexpr std::uint8_t AdtsFrame::mpeg4ChannelConfig() const
  */
 constexpr std::uint16_t AdtsFrame::totalSize() const
 {
-    return static_cast<std::uint8_t>((m_header2 >> 0x1D) & 0x1FFFu);
+    return static_cast<std::uint16_t>((m_header2 >> 0x1D) & 0x1FFFu);
 }
 
 /*!
-- 
2.43.0


From a6d0b11d21e992b2dbf27ac9885474cdc892c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:38 +0000
Subject: [PATCH 47/51] fix: Do not read beyond sampling frequency table when
 parsing ADTS frame

---
 adts/adtsstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adts/adtsstream.cpp b/adts/adtsstream.cpp
index 405fbda..c9c6466 100644
--- a/adts/adtsstream.cpp
+++ b/adts/adtsstream.cpp
@@ -30,7 +30,7 @@ void AdtsStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
     m_format = Mpeg4AudioObjectIds::idToMediaFormat(m_firstFrame.mpeg4AudioObjectId());
     m_channelCount = Mpeg4ChannelConfigs::channelCount(m_channelConfig = m_firstFrame.mpeg4ChannelConfig());
     std::uint8_t sampleRateIndex = m_firstFrame.mpeg4SamplingFrequencyIndex();
-    m_samplingFrequency = sampleRateIndex < sizeof(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
+    m_samplingFrequency = sampleRateIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
 }
 
 } // namespace TagParser
-- 
2.43.0


From b4c2f7257af7e21b8e4e934a19ce7a191a5aedd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:46 +0000
Subject: [PATCH 48/51] fix: Do not read beyond sampling frequency table when
 parsing MPEG-4 audio configuration

---
 matroska/matroskatrack.cpp | 4 ++--
 mp4/mp4track.cpp           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 74beeb4..30571df 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -491,14 +491,14 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                 audioSpecificConfig->audioObjectType, audioSpecificConfig->sbrPresent, audioSpecificConfig->psPresent);
             if (audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                 //m_samplingFrequency = audioSpecificConfig->sampleFrequency;
-            } else if (audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                 //m_samplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->sampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
             }
             if (audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                 //m_extensionSamplingFrequency = audioSpecificConfig->extensionSampleFrequency;
-            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                 //m_extensionSamplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->extensionSampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid extension sample frequency index.", context);
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index d35949e..e6f4071 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1894,14 +1894,14 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     m_esInfo->audioSpecificConfig->sbrPresent, m_esInfo->audioSpecificConfig->psPresent);
                                 if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                                     m_samplingFrequency = m_esInfo->audioSpecificConfig->sampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                                     m_samplingFrequency = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->sampleFrequencyIndex];
                                 } else {
                                     diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
                                 }
                                 if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                                     m_extensionSamplingFrequency = m_esInfo->audioSpecificConfig->extensionSampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                                     m_extensionSamplingFrequency
                                         = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex];
                                 } else {
-- 
2.43.0


From bc58bd6525c38f5a171eedf56bd0f1dc3715fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:37 +0000
Subject: [PATCH 49/51] fix: Do not read extended WAVE format header beyond the
 end of its segment

---
 wav/waveaudiostream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 3510953..d298015 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -53,6 +53,11 @@ std::uint64_t WaveFormatHeader::parse(CppUtilities::BinaryReader &reader, std::u
         return bytesRead;
     }
 
+    if (extensionSize > maxSize) {
+        diag.emplace_back(DiagLevel::Warning, "\"fmt \" segment is truncated (extended header truncated).", "parsing WAVE format header");
+        return bytesRead;
+    }
+
     // skip extended header unless format is "WAVE_FORMAT_EXTENSIBLE"
     if (formatTag != 65534) {
         reader.stream()->seekg(extensionSize, ios_base::cur);
-- 
2.43.0


From d600cd4f42361702d0fc7e9d9c429d473907aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:37 +0000
Subject: [PATCH 50/51] fix: Consider alignment of segments when parsing
 RIFF/WAVE

---
 wav/waveaudiostream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index d298015..2307bd8 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -167,6 +167,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     while (!m_dataOffset) {
         const auto segmentId = m_reader.readUInt32BE();
         auto restHeaderLen = static_cast<std::uint64_t>(m_reader.readUInt32LE());
+        const auto padding = restHeaderLen & 1u; // segments are aligned to 16 bits
         switch (segmentId) {
         case 0x666D7420u: { // format segment
             WaveFormatHeader waveHeader;
@@ -184,7 +185,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
             break;
         default:;
         }
-        m_istream->seekg(static_cast<std::streamoff>(restHeaderLen), ios_base::cur);
+        m_istream->seekg(static_cast<std::streamoff>(restHeaderLen + padding), ios_base::cur);
     }
     if (m_format.general != GeneralMediaFormat::Mpeg1Audio || !m_dataOffset) {
         return;
-- 
2.43.0


From dde1e472e432d45488834b290fa8eadb05f953f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:00 +0000
Subject: [PATCH 51/51] fix: Provide bitrate of WAVE audio in kbit/s as
 documented

---
 wav/waveaudiostream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 2307bd8..dc4f2bf 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -146,7 +146,7 @@ void WaveAudioStream::addInfo(const WaveFormatHeader &waveHeader, AbstractTrack
     track.m_bytesPerSecond = waveHeader.bytesPerSecond;
     track.m_chunkSize = waveHeader.chunkSize;
     track.m_bitsPerSample = waveHeader.bitsPerSample;
-    track.m_bitrate = waveHeader.bitrate();
+    track.m_bitrate = static_cast<double>(waveHeader.bitrate()) / 1000.0;
 }
 
 void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress)
-- 
2.43.0

