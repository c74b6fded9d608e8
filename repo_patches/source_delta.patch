From 3a61d97ed8021c4d7a37cf24d35929ce7185d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 001/112] fix: keep the order of the remaining items in
 Tag::take/take_filter

The documentation promises that the remaining items keep their order, but
the matching items were swapped to the front, which moved the others.
---
 lofty/src/tag/mod.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/lofty/src/tag/mod.rs b/lofty/src/tag/mod.rs
index 7133a95..7eb052f 100644
--- a/lofty/src/tag/mod.rs
+++ b/lofty/src/tag/mod.rs
@@ -465,18 +465,10 @@ impl Tag {
 	where
 		F: FnMut(&TagItem) -> bool,
 	{
-		// TODO: drain_filter
-		let mut split_idx = 0;
-
-		for read_idx in 0..self.items.len() {
-			let item = &self.items[read_idx];
-			if item.key() == key && filter(item) {
-				self.items.swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
-
-		self.items.drain(..split_idx)
+		self.items
+			.extract_if(.., |item| item.key() == key && filter(item))
+			.collect::<Vec<_>>()
+			.into_iter()
 	}
 
 	/// Removes all items with the specified [`ItemKey`], and filters them through [`ItemValue::into_string()`]
-- 
2.43.0


From a53646fe7eb30c0805ca4ead928a851933c6e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 002/112] fix: recognise Lyrics3v2 tags by their full end
 marker

---
 lofty/src/id3/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 9bf003d..353280e 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -83,22 +83,29 @@ where
 	let mut header = None;
 	let mut size = 0_u32;
 
+	// Reader is too small to contain a Lyrics3v2 tag
+	if data.stream_position()? < 15 {
+		return Ok(ID3FindResults(header, size));
+	}
+
 	data.seek(SeekFrom::Current(-15))?;
 
 	let mut lyrics3v2 = [0; 15];
 	data.read_exact(&mut lyrics3v2)?;
 
-	if &lyrics3v2[7..] == b"LYRICS200" {
+	// The tag ends with its size (6 digits), followed by the end marker (9 bytes)
+	if &lyrics3v2[6..] == b"LYRICS200" {
 		log::warn!("Encountered a Lyrics3v2 tag. This is an outdated format, and will be skipped.");
 
 		header = Some(());
 
-		let lyrics_size = utf8_decode_str(&lyrics3v2[..7])?;
+		let lyrics_size = utf8_decode_str(&lyrics3v2[..6])?;
 		let lyrics_size = lyrics_size.parse::<u32>()?;
 
-		size += lyrics_size;
+		// The size field doesn't count itself or the end marker
+		size += lyrics_size + 15;
 
-		data.seek(SeekFrom::Current(i64::from(lyrics_size + 15).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size).neg()))?;
 	}
 
 	Ok(ID3FindResults(header, size))
-- 
2.43.0


From cb0c1774681c5050970da02d2ec4c698b3241db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 003/112] fix: restore the position in find_id3v2 when there is
 no valid header

---
 lofty/src/id3/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 353280e..3dcc83f 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -227,7 +227,7 @@ where
 
 		header = Some(id3v2_header);
 	} else {
-		reader.seek(SeekFrom::Current(-10))?;
+		reader.seek(SeekFrom::Start(start))?;
 	}
 
 	Ok(ID3FindResults(header, id3v2))
-- 
2.43.0


From 54fbf9cdc2f9750e1d8e9d308165f684c3ac1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 004/112] fix: parse ID3v2.3 and ID3v2.4 extended headers by
 their own structure

The extended header is counted in the tag size, so the content following it
must not be taken to be as long as the whole tag.
---
 lofty/src/id3/mod.rs       |   4 +-
 lofty/src/id3/v2/header.rs | 157 +++++++++++++++++++++++++++----------
 lofty/src/id3/v2/read.rs   |   2 +-
 lofty/src/mpeg/read.rs     |   2 +-
 4 files changed, 120 insertions(+), 45 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 3dcc83f..c66d5cc 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -213,12 +213,12 @@ where
 		log::debug!("Found an ID3v2 tag, parsing");
 
 		if config.read {
-			let mut tag = try_vec![0; id3v2_header.size as usize]?;
+			let mut tag = try_vec![0; id3v2_header.content_size() as usize]?;
 			reader.read_exact(&mut tag)?;
 
 			id3v2 = Some(tag)
 		} else {
-			reader.seek(SeekFrom::Current(i64::from(id3v2_header.size)))?;
+			reader.seek(SeekFrom::Current(i64::from(id3v2_header.content_size())))?;
 		}
 
 		if id3v2_header.flags.footer {
diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 5412c5f..8befdd6 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -1,7 +1,7 @@
 use crate::error::FakeTagError;
 use crate::id3::v2::error::{Id3v2HeaderError, Id3v2ParseError};
 use crate::id3::v2::restrictions::TagRestrictions;
-use crate::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
+use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 
 use std::fmt::Display;
 use std::io::Read;
@@ -97,6 +97,7 @@ pub(crate) struct Id3v2Header {
 	pub flags: Id3v2TagFlags,
 	/// The size of the tag contents (**DOES NOT INCLUDE THE HEADER/FOOTER**)
 	pub size: u32,
+	/// The number of bytes in the tag that the extended header takes up
 	pub extended_size: u32,
 }
 
@@ -150,26 +151,14 @@ impl Id3v2Header {
 			(version == Id3v2Version::V4 || version == Id3v2Version::V3) && flags & 0x40 == 0x40;
 
 		if extended_header {
-			match version {
-				// In ID3v2.3, the extended header is considered separate from the frame header, and
-				// thus subject to unsynchronization
-				Id3v2Version::V3 => {
-					if flags_parsed.unsynchronisation {
-						let mut reader = UnsynchronizedStream::new(bytes);
-						extended_size = reader.read_u32::<BigEndian>()?;
-						read_extended_header(&mut reader, &mut flags_parsed, extended_size)?;
-					} else {
-						extended_size = bytes.read_u32::<BigEndian>()?;
-						read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-					}
-				},
-				// In ID3v2.4, they seem to be considered one big header (?) so no flags apply to it
-				Id3v2Version::V4 => {
-					extended_size = bytes.read_u32::<BigEndian>()?.unsynch();
-					read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-				},
-				_ => unreachable!(),
-			}
+			// In ID3v2.3, the extended header is considered separate from the tag header, and
+			// thus subject to unsynchronization. In ID3v2.4, they seem to be considered one big
+			// header (?) so no flags apply to it.
+			let unsynchronised = version == Id3v2Version::V3 && flags_parsed.unsynchronisation;
+
+			let mut reader = ExtendedHeaderReader::new(bytes, unsynchronised);
+			read_extended_header(&mut reader, version, size, &mut flags_parsed)?;
+			extended_size = reader.consumed;
 		}
 
 		if extended_size > 0 && extended_size >= size {
@@ -184,42 +173,128 @@ impl Id3v2Header {
 		})
 	}
 
+	/// The size of the tag contents that follow the extended header
+	pub(crate) fn content_size(&self) -> u32 {
+		self.size - self.extended_size
+	}
+
 	/// The total size of the tag, including the header, footer, and extended header
 	pub(crate) fn full_tag_size(&self) -> u32 {
-		self.size + 10 + self.extended_size + if self.flags.footer { 10 } else { 0 }
+		self.size + 10 + if self.flags.footer { 10 } else { 0 }
+	}
+}
+
+/// Reads the extended header a byte at a time, so nothing past the end of it is consumed
+struct ExtendedHeaderReader<'a, R> {
+	reader: &'a mut R,
+	unsynchronised: bool,
+	encountered_ff: bool,
+	/// The number of bytes taken from the inner reader
+	consumed: u32,
+}
+
+impl<'a, R: Read> ExtendedHeaderReader<'a, R> {
+	fn new(reader: &'a mut R, unsynchronised: bool) -> Self {
+		Self {
+			reader,
+			unsynchronised,
+			encountered_ff: false,
+			consumed: 0,
+		}
+	}
+
+	fn next(&mut self) -> std::io::Result<u8> {
+		self.consumed += 1;
+		let mut byte = self.reader.read_u8()?;
+
+		if self.unsynchronised && self.encountered_ff && byte == 0 {
+			self.consumed += 1;
+			byte = self.reader.read_u8()?;
+		}
+
+		self.encountered_ff = byte == 0xFF;
+		Ok(byte)
+	}
+}
+
+impl<R: Read> Read for ExtendedHeaderReader<'_, R> {
+	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+		let Some(first) = buf.first_mut() else {
+			return Ok(0);
+		};
+
+		*first = self.next()?;
+		Ok(1)
 	}
 }
 
 fn read_extended_header<R: Read>(
 	reader: &mut R,
+	version: Id3v2Version,
+	tag_size: u32,
 	flags: &mut Id3v2TagFlags,
-	header_size: u32,
 ) -> Result<(), Id3v2ParseError> {
-	if header_size < 6 {
-		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
-	}
+	let mut remaining;
+	if version == Id3v2Version::V3 {
+		// Structure of an ID3v2.3 extended header:
+		//
+		// Size, excluding itself (4)
+		// Flags (2)
+		// Size of padding (4)
+		// CRC, if its flag is set (4)
+		remaining = reader.read_u32::<BigEndian>()?;
+		if remaining < 6 || remaining > tag_size {
+			return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+		}
 
-	// Useless byte since there's only 1 byte for flags
-	let _num_flag_bytes = reader.read_u8()?;
+		flags.crc = reader.read_u16::<BigEndian>()? & 0x8000 == 0x8000;
+		remaining -= 2;
+	} else {
+		// Structure of an ID3v2.4 extended header:
+		//
+		// Synchsafe size, including itself (4)
+		// Number of flag bytes, always 1 (1)
+		// Flags (1)
+		// The length and data of each set flag
+		remaining = reader.read_u32::<BigEndian>()?.unsynch();
+		if remaining < 6 || remaining > tag_size {
+			return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+		}
 
-	let extended_flags = reader.read_u8()?;
+		// Useless byte since there's only 1 byte for flags
+		let _num_flag_bytes = reader.read_u8()?;
 
-	// The only flags we care about here are the CRC and restrictions
+		let extended_flags = reader.read_u8()?;
+		remaining -= 6;
 
-	if extended_flags & 0x20 == 0x20 {
-		flags.crc = true;
+		for flag in [0x40_u8, 0x20, 0x10] {
+			if extended_flags & flag == 0 {
+				continue;
+			}
 
-		// We don't care about the existing CRC (5) or its length byte (1)
-		let mut crc = [0; 6];
-		reader.read_exact(&mut crc)?;
+			let data_length = u32::from(reader.read_u8()?);
+			let Some(new_remaining) = remaining.checked_sub(1 + data_length) else {
+				return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+			};
+			remaining = new_remaining;
+
+			let mut data = [0; u8::MAX as usize];
+			reader.read_exact(&mut data[..data_length as usize])?;
+
+			// The only flags we care about here are the CRC and restrictions
+			match flag {
+				// We don't care about the existing CRC
+				0x20 => flags.crc = true,
+				0x10 if data_length > 0 => {
+					flags.restrictions = Some(TagRestrictions::from_byte(data[0]));
+				},
+				_ => {},
+			}
+		}
 	}
 
-	if extended_flags & 0x10 == 0x10 {
-		// We don't care about the length byte, it is always 1
-		let _data_length = reader.read_u8()?;
-
-		flags.restrictions = Some(TagRestrictions::from_byte(reader.read_u8()?));
-	}
+	// Skip anything we don't know of
+	std::io::copy(&mut reader.take(u64::from(remaining)), &mut std::io::sink())?;
 
 	Ok(())
 }
diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index a1facba..b892464 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -24,7 +24,7 @@ where
 		header.version
 	);
 
-	let mut tag_bytes = bytes.take(u64::from(header.size - header.extended_size));
+	let mut tag_bytes = bytes.take(u64::from(header.content_size()));
 
 	// Prior to Id3v2.4, the tag-wide `unsynchronization` flag implied that unsynchronization was applied
 	// to the *entire* content of the tag following the header, since there was no frame-level flag.
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index db5bf1c..456fd29 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -59,7 +59,7 @@ where
 					}
 					file.id3v2_tag = Some(id3v2);
 				} else {
-					reader.seek(SeekFrom::Current(i64::from(header.size)))?;
+					reader.seek(SeekFrom::Current(i64::from(header.content_size())))?;
 				}
 
 				// Skip over the footer
-- 
2.43.0


From 9fe00af3956a53260f6461a4aac9c1f7fd93d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 005/112] fix: skip an ID3v2 tag in AAC files when tags are not
 read

With tags disabled the content of the tag was searched for ADTS frames, and the
footer of a repeated tag was not skipped.
---
 lofty/src/aac/read.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index cc79ee7..6a5ddc3 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -66,9 +66,11 @@ where
 						for frame in id3v2.frames {
 							existing_tag.insert(frame);
 						}
-						continue;
+					} else {
+						file.id3v2_tag = Some(id3v2);
 					}
-					file.id3v2_tag = Some(id3v2);
+				} else {
+					reader.seek(SeekFrom::Current(i64::from(header.content_size())))?;
 				}
 
 				// Skip over the footer
-- 
2.43.0


From db3a6d4db7f7daec9b5123328ee661aebe5fa133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 006/112] fix: keep the end of the audio independent of which
 MPEG tags are parsed

The end of the audio was derived from the position after reading the APE tag,
which differs when tags are not read, footers of repeated ID3v2 tags were not
skipped, and an unread leading APE tag was skipped by its header size too far.
---
 lofty/src/mpeg/read.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 456fd29..0efdcf5 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -55,9 +55,9 @@ where
 						for frame in id3v2.frames {
 							existing_tag.insert(frame);
 						}
-						continue;
+					} else {
+						file.id3v2_tag = Some(id3v2);
 					}
-					file.id3v2_tag = Some(id3v2);
 				} else {
 					reader.seek(SeekFrom::Current(i64::from(header.content_size())))?;
 				}
@@ -90,7 +90,8 @@ where
 							.map_err(TagParseError::from)?,
 						);
 					} else {
-						reader.seek(SeekFrom::Current(i64::from(ape_header.size)))?;
+						// The header was already read
+						reader.seek(SeekFrom::Current(i64::from(ape_header.size) - 32))?;
 					}
 
 					continue;
@@ -163,6 +164,8 @@ where
 
 	let _ = find_lyrics3v2(reader)?;
 
+	// If there is an APE tag, it ends here
+	let ape_end = reader.stream_position()?;
 	reader.seek(SeekFrom::Current(-32))?;
 
 	match crate::ape::tag::read::read_ape_tag(reader, true, parse_options)
@@ -172,8 +175,7 @@ where
 			file.ape_tag = tag;
 
 			// Seek back to the start of the tag
-			let pos = reader.stream_position()?;
-			let Some(start_of_tag) = pos.checked_sub(u64::from(header.size)) else {
+			let Some(start_of_tag) = ape_end.checked_sub(u64::from(header.size)) else {
 				return Err(SizeMismatchError.into());
 			};
 
@@ -181,7 +183,7 @@ where
 		},
 		_ => {
 			// Correct the position (APE header - Preamble)
-			reader.seek(SeekFrom::Current(24))?;
+			reader.seek(SeekFrom::Start(ape_end))?;
 		},
 	}
 
-- 
2.43.0


From 7b5ca3a56cb5b89462ae5514f5b36f445e67332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 007/112] fix: do not count a header that an APEv2 tag does not
 have

---
 lofty/src/ape/tag/header.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index 7ecd9cf..b510888 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -7,6 +7,9 @@ use std::ops::Neg;
 
 use byteorder::{LittleEndian, ReadBytesExt};
 
+// Bit 31 set: tag contains a header
+const HAS_HEADER_FLAG: u32 = 1 << 31;
+
 #[derive(Copy, Clone)]
 pub(crate) struct ApeHeader {
 	pub(crate) size: u32,
@@ -29,18 +32,19 @@ where
 
 	let item_count = data.read_u32::<LittleEndian>()?;
 
+	let flags = data.read_u32::<LittleEndian>()?;
+
 	if footer {
 		// No point in reading the rest of the footer, just seek back to the end of the header
-		data.seek(SeekFrom::Current(i64::from(size - 12).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size - 8).neg()))?;
 	} else {
-		// There are 12 bytes remaining in the header
-		// Flags (4)
+		// There are 8 bytes remaining in the header
 		// Reserved (8)
-		data.seek(SeekFrom::Current(12))?;
+		data.seek(SeekFrom::Current(8))?;
 	}
 
-	// Version 1 doesn't include a header
-	if version == 2000 {
+	// Version 1 doesn't include a header, and version 2 only does if the flag is set
+	if version == 2000 && (!footer || flags & HAS_HEADER_FLAG != 0) {
 		size = size.saturating_add(32);
 	}
 
-- 
2.43.0


From 6b03ef3b4e5fc5ebd6cc7109baf3981dd7455530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 008/112] fix: find an APE tag at the beginning of a file, and
 replace APE tags that are not read

The preamble of a leading tag was consumed twice, so it was never removed, and
in APE files it was never parsed. Existing tags were only located when their
content was parsed.
---
 lofty/src/ape/read.rs      |  9 ++++++---
 lofty/src/ape/tag/write.rs | 34 +++++++++++++++-------------------
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index dfb861e..491de6a 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -60,10 +60,10 @@ where
 	let mut found_mac = false;
 	let mut mac_start = 0;
 
-	let mut header = [0; 4];
-	data.read_exact(&mut header)?;
-
 	while !found_mac {
+		let mut header = [0; 4];
+		data.read_exact(&mut header)?;
+
 		match &header {
 			b"MAC " => {
 				mac_start = data.stream_position()?;
@@ -96,6 +96,9 @@ where
 					let ape = read_ape_tag_with_header(data, ape_header, parse_options)
 						.map_err(TagParseError::from)?;
 					ape_tag = Some(ape);
+				} else {
+					// The header was already read
+					data.seek(SeekFrom::Current(i64::from(ape_header.size) - 32))?;
 				}
 			},
 			_ => {
diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index dbbb317..3a96425 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -67,9 +67,6 @@ where
 	// We don't actually need the ID3v2 tag, but reading it will seek to the end of it if it exists
 	find_id3v2(file, FindId3v2Config::NO_READ_TAG).map_err(TagParseError::from)?;
 
-	let mut ape_preamble = [0; 8];
-	file.read_exact(&mut ape_preamble)?;
-
 	// We have to check the APE tag for any read only items first
 	let mut read_only = None;
 
@@ -78,24 +75,21 @@ where
 	let mut header_tag_location = None;
 
 	let start = file.stream_position()? as usize;
-	match read::read_ape_tag(file, false, write_options.parse_options)
-		.map_err(TagParseError::from)?
+	if let (existing_tag, Some(header)) =
+		read::read_ape_tag(file, false, write_options.parse_options).map_err(TagParseError::from)?
 	{
-		(Some(mut existing_tag), Some(header)) => {
-			if write_options.respect_read_only {
-				// Only keep metadata around that's marked read only
-				existing_tag.items.retain(|i| i.read_only);
+		if let Some(mut existing_tag) = existing_tag
+			&& write_options.respect_read_only
+		{
+			// Only keep metadata around that's marked read only
+			existing_tag.items.retain(|i| i.read_only);
 
-				if !existing_tag.items.is_empty() {
-					read_only = Some(existing_tag)
-				}
+			if !existing_tag.items.is_empty() {
+				read_only = Some(existing_tag)
 			}
+		}
 
-			header_tag_location = Some(start..start + header.size as usize);
-		},
-		_ => {
-			file.seek(SeekFrom::Current(-8))?;
-		},
+		header_tag_location = Some(start..start + header.size as usize);
 	}
 
 	// Skip over ID3v1 and Lyrics3v2 tags
@@ -113,10 +107,12 @@ where
 
 	// Also check this tag for any read only items
 	let start = file.stream_position()? as usize + 32;
-	if let (Some(mut existing_tag), Some(header)) =
+	if let (existing_tag, Some(header)) =
 		read::read_ape_tag(file, true, write_options.parse_options).map_err(TagParseError::from)?
 	{
-		if write_options.respect_read_only {
+		if let Some(mut existing_tag) = existing_tag
+			&& write_options.respect_read_only
+		{
 			existing_tag.items.retain(|i| i.read_only);
 
 			if !existing_tag.items.is_empty() {
-- 
2.43.0


From c8f569ac97c312f54a31a02f8c80dcc125585882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 009/112] fix: do not write an empty ID3v1 tag when there is
 none to remove

---
 lofty/src/id3/v1/write.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lofty/src/id3/v1/write.rs b/lofty/src/id3/v1/write.rs
index 21bdd3c..adfd70a 100644
--- a/lofty/src/id3/v1/write.rs
+++ b/lofty/src/id3/v1/write.rs
@@ -28,11 +28,13 @@ where
 		find_id3v1(&mut file, false, write_options.parse_options.parsing_mode)
 			.map_err(TagParseError::from)?;
 
-	if tag.is_empty() && header.is_some() {
+	if tag.is_empty() {
 		// An ID3v1 tag occupies the last 128 bytes of the file, so we can just
 		// shrink it down.
-		let new_length = file.len()?.saturating_sub(128);
-		file.truncate(new_length)?;
+		if header.is_some() {
+			let new_length = file.len()?.saturating_sub(128);
+			file.truncate(new_length)?;
+		}
 
 		return Ok(());
 	}
-- 
2.43.0


From 2c0adb5fc6e4ef18a478f104b4e99b9368ccefa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 010/112] fix: compute APE and WavPack lengths independently of
 which tags are parsed

A tag larger than the remaining stream also underflowed the length.
---
 lofty/src/ape/read.rs     | 9 ++++++---
 lofty/src/wavpack/read.rs | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index 491de6a..dc20274 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -141,17 +141,20 @@ where
 	// Starts with ['A', 'P', 'E', 'T', 'A', 'G', 'E', 'X']
 	// Exactly 32 bytes long
 	// Strongly recommended to be at the end of the file
+	let file_length = data.stream_position()?;
 	data.seek(SeekFrom::Current(-32))?;
 
 	if let (tag, Some(header)) =
 		read_ape_tag(data, true, parse_options).map_err(TagParseError::from)?
 	{
-		stream_len -= u64::from(header.size);
+		let Some(new_stream_length) = stream_len.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+
+		stream_len = new_stream_length;
 		ape_tag = tag;
 	}
 
-	let file_length = data.stream_position()?;
-
 	// Go back to the MAC header to read properties
 	data.seek(SeekFrom::Start(mac_start))?;
 
diff --git a/lofty/src/wavpack/read.rs b/lofty/src/wavpack/read.rs
index 72aa464..fae6234 100644
--- a/lofty/src/wavpack/read.rs
+++ b/lofty/src/wavpack/read.rs
@@ -52,7 +52,11 @@ where
 	if let (tag, Some(header)) = crate::ape::tag::read::read_ape_tag(reader, true, parse_options)
 		.map_err(TagParseError::from)?
 	{
-		stream_length -= u64::from(header.size);
+		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+
+		stream_length = new_stream_length;
 		ape_tag = tag;
 	}
 
-- 
2.43.0


From 7abaa9c5a1a0dc3106ea59ef44b2e88d42f4c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 011/112] fix: only replace ID3v2 tags that come before the
 audio

Any "ID3" in the first bytes of the stream, including the encoded audio, was
taken for a tag preceded by junk and everything before it dropped. Tags that
directly follow the first one were left in the file.
---
 lofty/src/id3/v2/write/mod.rs | 63 ++++++++++++++++++++++++++++++++---
 lofty/src/mpeg/mod.rs         |  2 +-
 lofty/src/mpeg/read.rs        |  2 +-
 3 files changed, 60 insertions(+), 7 deletions(-)

diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index ceaa876..0b72ac5 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -8,9 +8,10 @@ use crate::file::FileType;
 use crate::id3::v2::error::Id3v2EncodingError;
 use crate::id3::v2::tag::conversion::Id3v2TagRef;
 use crate::id3::v2::util::synchsafe::SynchsafeInteger;
-use crate::id3::{FindId3v2Config, find_id3v2};
+use crate::id3::{FindId3v2Config, ID3FindResults, find_id3v2};
 use crate::io::{Truncate, VerifiedFile};
 use crate::macros::try_vec;
+use crate::mpeg;
 use crate::util::io::FileLike;
 
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
@@ -73,12 +74,11 @@ where
 		}
 	}
 
+	let format = file.format();
 	let mut file = file.into_inner();
 
-	// `find_id3v2` will seek us to the end of the tag
-	let mut id3v2_config = FindId3v2Config::NO_READ_TAG;
-	id3v2_config.allowed_junk_window = Some(write_options.parse_options.max_junk_bytes as u64);
-	find_id3v2(&mut file, id3v2_config).map_err(TagParseError::from)?;
+	// This will seek us to the end of the existing tags
+	skip_existing_tags(&mut file, format, write_options)?;
 
 	let mut file_bytes = Vec::new();
 	file.read_to_end(&mut file_bytes)?;
@@ -92,6 +92,59 @@ where
 	Ok(())
 }
 
+// Seeks past the tags that a reader of this format would find before the audio
+fn skip_existing_tags<F>(
+	file: &mut F,
+	format: FileType,
+	write_options: WriteOptions,
+) -> Result<(), FileEncodingError>
+where
+	F: FileLike,
+{
+	let mut config = FindId3v2Config::NO_READ_TAG;
+
+	let ID3FindResults(mut header, _) = find_id3v2(file, config).map_err(TagParseError::from)?;
+	if header.is_none() {
+		// MPEG and ADTS streams may have data before the tag. The search has to end at the first
+		// frame though, since anything from there on is audio.
+		let junk_length = match format {
+			FileType::Mpeg => match mpeg::read::find_next_frame(file) {
+				Ok(Some((_, first_frame_offset))) => first_frame_offset,
+				_ => 0,
+			},
+			FileType::Aac => {
+				// Room for the tag identifier
+				let mut padding_length = 3;
+				for byte in Read::by_ref(file).bytes() {
+					if byte? != 0 {
+						break;
+					}
+
+					padding_length += 1;
+				}
+
+				padding_length
+			},
+			_ => 0,
+		};
+
+		file.rewind()?;
+
+		let max_junk_bytes = write_options.parse_options.max_junk_bytes as u64;
+		config.allowed_junk_window = Some(std::cmp::min(junk_length, max_junk_bytes));
+		ID3FindResults(header, _) = find_id3v2(file, config).map_err(TagParseError::from)?;
+
+		config.allowed_junk_window = None;
+	}
+
+	// The frames of any tags that immediately follow are read as a part of the first one
+	while header.is_some() {
+		ID3FindResults(header, _) = find_id3v2(file, config).map_err(TagParseError::from)?;
+	}
+
+	Ok(())
+}
+
 pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 	tag: &mut Id3v2TagRef<'a, I>,
 	write_options: WriteOptions,
diff --git a/lofty/src/mpeg/mod.rs b/lofty/src/mpeg/mod.rs
index 69ceaf3..76af640 100644
--- a/lofty/src/mpeg/mod.rs
+++ b/lofty/src/mpeg/mod.rs
@@ -3,7 +3,7 @@ mod constants;
 pub mod error;
 pub(crate) mod header;
 mod properties;
-mod read;
+pub(crate) mod read;
 
 pub use header::{ChannelMode, Emphasis, Layer, MpegVersion};
 pub use properties::MpegProperties;
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 0efdcf5..adb38fd 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -227,7 +227,7 @@ where
 }
 
 // Searches for the next frame, comparing it to the following one
-fn find_next_frame<R>(reader: &mut R) -> Result<Option<(Header, u64)>, MpegParseError>
+pub(crate) fn find_next_frame<R>(reader: &mut R) -> Result<Option<(Header, u64)>, MpegParseError>
 where
 	R: Read + Seek,
 {
-- 
2.43.0


From 8b132c03c02a0db90bdc8de8f62f192d8ffe844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 012/112] fix: update the chunk size when an ID3v2 chunk at the
 end of the file grows

---
 lofty/src/id3/v2/write/chunk_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 3a813d5..ec10dfd 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -102,7 +102,7 @@ where
 					updated_stream_len -= remainder;
 					file.truncate(existing_id3_tag.end - remainder)?;
 				} else {
-					updated_stream_len -= tag_chunk_size - existing_tag_len;
+					updated_stream_len += tag_chunk_size - existing_tag_len;
 				}
 			}
 
-- 
2.43.0


From d56af6d4080ddaa92466ca9ea783772e0a4e39f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 013/112] fix: do not count the header of a JUNK chunk in its
 size

---
 lofty/src/id3/v2/write/chunk_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index ec10dfd..143822b 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -140,7 +140,7 @@ where
 				write_id3v2_chunk::<_, B>(tag, write_options, &mut file)?;
 
 				file.write_all(&JUNK_CHUNK_NAME)?;
-				file.write_u32::<B>(remainder as u32)?;
+				file.write_u32::<B>(remainder as u32 - IFF_CHUNK_HEADER_SIZE)?;
 				return Ok(());
 			}
 		}
-- 
2.43.0


From ba86cc450c1c6619c7d35fdfd4c759b007ca2d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 014/112] fix: replace every ID3v2 chunk of a file, not only
 the first

Readers merge the frames of all ID3v2 chunks. The search for them also ended
4 bytes past the end of the stream.
---
 lofty/src/id3/v2/write/chunk_file.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 143822b..a0678e8 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -81,8 +81,10 @@ where
 	let file_len = file.len()?;
 
 	let mut file_context =
-		find_existing_id3v2_tag::<_, B>(&mut file, file_len, format, write_options.parse_options)?;
-	if let Some(existing_id3_tag) = file_context.existing_id3_tag.clone() {
+		find_existing_id3v2_tags::<_, B>(&mut file, file_len, format, write_options.parse_options)?;
+	if file_context.existing_id3_tags.len() > 1 {
+		log::debug!("Multiple ID3v2 tags found, rewriting whole file");
+	} else if let Some(existing_id3_tag) = file_context.existing_id3_tags.first().cloned() {
 		let existing_tag_len = existing_id3_tag.end - existing_id3_tag.start;
 
 		// We can just overwrite tags at the end of the file
@@ -165,7 +167,8 @@ where
 		tag_bytes.iter().copied(),
 	);
 
-	if let Some(existing_id3_tag) = file_context.existing_id3_tag {
+	// All existing tags get read as a single tag, so they are all replaced
+	for existing_id3_tag in file_context.existing_id3_tags.into_iter().rev() {
 		file_context.stream_length -= existing_id3_tag.end - existing_id3_tag.start;
 		file_bytes
 			.get_mut()
@@ -187,10 +190,11 @@ where
 
 struct IffFileContext {
 	stream_length: u64,
-	existing_id3_tag: Option<Range<u64>>,
+	/// All ID3v2 chunks, in order of appearance
+	existing_id3_tags: Vec<Range<u64>>,
 }
 
-fn find_existing_id3v2_tag<F, B: ByteOrder>(
+fn find_existing_id3v2_tags<F, B: ByteOrder>(
 	file: &mut F,
 	file_len: u64,
 	format: FileType,
@@ -226,16 +230,14 @@ where
 
 	let mut context = IffFileContext {
 		stream_length: actual_stream_size,
-		existing_id3_tag: None,
+		existing_id3_tags: Vec::new(),
 	};
 
 	let file = chunks.into_inner();
 	file.seek(SeekFrom::Start(FIRST_CHUNK_LEN))?;
 
-	let mut chunks = Chunks::<_, B>::new(
-		file,
-		context.stream_length - u64::from(IFF_CHUNK_HEADER_SIZE),
-	);
+	let mut chunks =
+		Chunks::<_, B>::new(file, context.stream_length.saturating_sub(FIRST_CHUNK_LEN));
 	while let Some(chunk) = chunks
 		.next(parse_options.parsing_mode)
 		.map_err(|e| handle_chunk_error(format, e))?
@@ -255,8 +257,7 @@ where
 				"Found existing ID3v2 chunk, size: {} bytes",
 				chunk_end - chunk_start
 			);
-			context.existing_id3_tag = Some(chunk_start..chunk_end);
-			break;
+			context.existing_id3_tags.push(chunk_start..chunk_end);
 		}
 	}
 
-- 
2.43.0


From 5d9e1b1465300fba2852cf001dd7dee5c0020d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 015/112] fix: skip the padding of odd-sized comments in an
 AIFF COMT chunk

---
 lofty/src/iff/aiff/read.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/iff/aiff/read.rs b/lofty/src/iff/aiff/read.rs
index f83013a..c6b1f56 100644
--- a/lofty/src/iff/aiff/read.rs
+++ b/lofty/src/iff/aiff/read.rs
@@ -129,6 +129,11 @@ where
 
 						let text = chunk.read_string(Some(u32::from(size)))?;
 
+						// The text is padded to an even length, which isn't included in its size
+						if !size.is_multiple_of(2) {
+							std::io::copy(&mut chunk.take(1), &mut std::io::sink())?;
+						}
+
 						comments.push(Comment {
 							timestamp,
 							marker_id,
-- 
2.43.0


From fdb578641721ffbd28a4bed2a2953ef701f43777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 016/112] fix: replace all RIFF INFO lists of a file, together
 with their padding

Only the first list was replaced, the padding of an odd-sized list was left in
place, and a list without any values was written. Stream sizes that don't cover
the header overflowed.
---
 lofty/src/iff/wav/tag/write.rs | 62 +++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/lofty/src/iff/wav/tag/write.rs b/lofty/src/iff/wav/tag/write.rs
index 6bbdb00..c6573ae 100644
--- a/lofty/src/iff/wav/tag/write.rs
+++ b/lofty/src/iff/wav/tag/write.rs
@@ -13,6 +13,7 @@ use crate::util::io::FileLike;
 
 use std::borrow::Cow;
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
+use std::ops::Range;
 
 use byteorder::{LittleEndian, WriteBytesExt};
 
@@ -27,7 +28,7 @@ where
 	I: Iterator<Item = (&'a str, Cow<'a, str>)>,
 {
 	// The first chunk format is RIFF....WAVE
-	const FIRST_CHUNK_LEN: u32 = IFF_CHUNK_HEADER_SIZE + 4;
+	const FIRST_CHUNK_LEN: u64 = IFF_CHUNK_HEADER_SIZE as u64 + 4;
 
 	let mut file = file.into_inner();
 	let original_stream_length = verify_wav(&mut file).map_err(FileParseError::from)?;
@@ -41,19 +42,23 @@ where
 	file.read_to_end(file_bytes.get_mut())?;
 
 	// File is lying about its length
-	if file_bytes.get_ref().len() < (original_stream_length + IFF_CHUNK_HEADER_SIZE) as usize {
+	let stream_end = u64::from(original_stream_length) + u64::from(IFF_CHUNK_HEADER_SIZE);
+	if stream_end < FIRST_CHUNK_LEN || (file_bytes.get_ref().len() as u64) < stream_end {
 		return Err(SizeMismatchError.into());
 	}
 
-	file_bytes.seek(SeekFrom::Start(u64::from(FIRST_CHUNK_LEN)))?;
+	file_bytes.seek(SeekFrom::Start(FIRST_CHUNK_LEN))?;
 
-	let Some(original_info_list_size) = find_info_list(
+	let mut original_info_lists = find_info_lists(
 		&mut file_bytes,
-		u64::from(original_stream_length - 4),
+		stream_end - FIRST_CHUNK_LEN,
 		write_options.parse_options.parsing_mode,
 	)
 	.map_err(FileParseError::from)?
-	else {
+	.into_iter()
+	.map(|list| (list.start + FIRST_CHUNK_LEN) as usize..(list.end + FIRST_CHUNK_LEN) as usize);
+
+	let Some(original_info_list) = original_info_lists.next() else {
 		// Simply append the info list to the end of the file and update the file size
 
 		let new_stream_length = riff_info_bytes.len() as u64 + u64::from(original_stream_length);
@@ -63,7 +68,7 @@ where
 
 		file_bytes.rewind()?;
 
-		let tag_position = (original_stream_length + IFF_CHUNK_HEADER_SIZE) as usize;
+		let tag_position = stream_end as usize;
 		file_bytes.seek(SeekFrom::Start(tag_position as u64))?;
 
 		file_bytes
@@ -80,17 +85,16 @@ where
 		return Ok(());
 	};
 
-	// Replace the existing tag
-
-	let info_list_start = file_bytes.seek(SeekFrom::Current(-12))? as usize;
-
-	// `original_info_list_size` doesn't include the b"LIST\0\0\0\0" chunk header
-	let info_list_end =
-		info_list_start + (IFF_CHUNK_HEADER_SIZE + original_info_list_size) as usize;
-	let original_info_list = info_list_start..info_list_end;
+	// Replace the existing tag. The items of any further lists get read as a part of it, so they
+	// are removed.
+	let mut new_stream_length = u64::from(original_stream_length);
+	for duplicate_list in original_info_lists.rev() {
+		new_stream_length -= duplicate_list.len() as u64;
+		file_bytes.get_mut().drain(duplicate_list);
+	}
 
-	let new_stream_length = riff_info_bytes.len() as u64
-		+ (u64::from(original_stream_length) - original_info_list.len() as u64);
+	new_stream_length -= original_info_list.len() as u64;
+	new_stream_length += riff_info_bytes.len() as u64;
 	if new_stream_length > u64::from(u32::MAX) {
 		return Err(TooMuchDataError.into());
 	}
@@ -110,15 +114,16 @@ where
 	Ok(())
 }
 
-fn find_info_list<R>(
+// Finds all RIFF INFO lists, including their headers and padding
+fn find_info_lists<R>(
 	data: &mut R,
 	file_size: u64,
 	parse_mode: ParsingMode,
-) -> Result<Option<u32>, WavParseError>
+) -> Result<Vec<Range<u64>>, WavParseError>
 where
 	R: Read + Seek,
 {
-	let mut info = None;
+	let mut lists = Vec::new();
 
 	let mut chunks = Chunks::<_, LittleEndian>::new(data, file_size);
 	while let Some(mut chunk) = chunks.next(parse_mode)? {
@@ -137,12 +142,17 @@ where
 				chunk.size()
 			);
 
-			info = Some(chunk.size());
-			break;
+			let start = chunk.start();
+
+			// Can't trust the written chunk size, since some encoders don't handle padding
+			// correctly, see Chunks::skip()
+			chunks.skip()?;
+
+			lists.push(start..chunks.stream_position());
 		}
 	}
 
-	Ok(info)
+	Ok(lists)
 }
 
 pub(super) fn create_riff_info(
@@ -175,6 +185,12 @@ pub(super) fn create_riff_info(
 		bytes.extend(terminator);
 	}
 
+	// Every item was empty
+	if bytes.len() == IFF_CHUNK_HEADER_SIZE as usize + 4 {
+		bytes.clear();
+		return Ok(());
+	}
+
 	let list_size = Vec::len(bytes) - IFF_CHUNK_HEADER_SIZE as usize;
 	if list_size > u32::MAX as usize {
 		return Err(TooMuchDataError.into());
-- 
2.43.0


From c89582c5720f15c48bc02aa0beacabad5a23e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 017/112] fix: keep zero-length packets and the granule
 position rule when paginating

---
 ogg_pager/src/paginate.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ogg_pager/src/paginate.rs b/ogg_pager/src/paginate.rs
index 4a6f355..ee4b2e8 100644
--- a/ogg_pager/src/paginate.rs
+++ b/ogg_pager/src/paginate.rs
@@ -158,6 +158,15 @@ where
 fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 	let mut page_content = Vec::with_capacity(MAX_WRITTEN_CONTENT_SIZE);
 	let mut packet = packet;
+
+	// A zero-length packet is still a packet, it just consists of a single zero-sized segment
+	if packet.is_empty() {
+		ctx.flags.packet_finished_on_page = true;
+		ctx.flush_page(&mut page_content);
+		ctx.flags.first_page = false;
+		return Ok(());
+	}
+
 	loop {
 		if packet.is_empty() {
 			break;
@@ -170,7 +179,8 @@ fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 
 		packet = &packet[bytes_read..];
 
-		if bytes_read <= MAX_WRITTEN_CONTENT_SIZE && packet.is_empty() {
+		// If the page is full, the packet will only be finished by the nil page below
+		if packet.is_empty() && ctx.remaining_page_size != 0 {
 			ctx.flags.packet_finished_on_page = true;
 		}
 
-- 
2.43.0


From ac648c0227e790bfabbb0b5c7342671a6d48f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:21 +0000
Subject: [PATCH 018/112] fix: keep other logical streams and trailing data
 when writing Ogg comments

---
 lofty/src/ogg/tag/write.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index c9ef0fa..d9cd138 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -71,6 +71,12 @@ where
 	let mut remaining_file_content = Vec::new();
 	file.read_to_end(&mut remaining_file_content)?;
 
+	// The header packets must be the last on their page, the rest of the file is kept page by page
+	if !remaining_file_content.is_empty() {
+		PageHeader::read(&mut Cursor::new(&remaining_file_content[..]))
+			.map_err(FileParseError::from)?;
+	}
+
 	let comment_packet = packets
 		.get(1)
 		.ok_or_else(|| FileParseError::message(None, "missing comment packet"))?;
@@ -122,15 +128,24 @@ where
 	// Correct all remaining page sequence numbers
 	let mut pages_reader = Cursor::new(&remaining_file_content[..]);
 	let mut idx = 0;
+	let mut pages_end = 0;
 	while let Ok(mut page) = Page::read(&mut pages_reader) {
+		pages_end = page.end as usize;
+
 		let header = page.header_mut();
-		header.sequence_number = pages_written + idx;
-		page.gen_crc();
-		file.write_all(&page.as_bytes())?;
+		// Pages of other logical streams have their own sequence
+		if header.stream_serial == stream_serial {
+			header.sequence_number = pages_written + idx;
+			page.gen_crc();
+			idx += 1;
+		}
 
-		idx += 1;
+		file.write_all(&page.as_bytes())?;
 	}
 
+	// Retain anything following the last valid page
+	file.write_all(&remaining_file_content[pages_end..])?;
+
 	Ok(())
 }
 
-- 
2.43.0


From ab6604865881e1c135125b6b679ae6cde3b650d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 019/112] fix: handle short Opus and Speex streams and unmapped
 channel layouts

---
 lofty/src/ogg/opus/properties.rs  | 25 ++++++++++++-------------
 lofty/src/ogg/speex/properties.rs | 12 ++++++++----
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index ba23d83..ff0fd89 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -121,8 +121,12 @@ where
 		));
 	}
 
+	// Channel mapping family 255 has no defined channel meaning
 	properties.channel_mask =
-		ChannelMask::from_opus_channels(properties.channels).expect("Channel count is valid");
+		ChannelMask::from_opus_channels(properties.channels).unwrap_or_default();
+
+	// The header packets have been read, anything that follows is the audio stream
+	let header_size = data.stream_position()?;
 
 	let last_page = find_last_page(data);
 	let file_length = data.seek(SeekFrom::End(0))?;
@@ -138,21 +142,16 @@ where
 			// A 'pre-skip' field in the ID header (see Section 5.1) signals the
 			// number of samples which should be skipped (decoded but discarded)
 			.saturating_sub(u64::from(pre_skip));
-		if total_samples > 0 {
-			// Best case scenario
-			let length = (total_samples * 1000).div_round(48000);
-
-			// Get the stream length by subtracting the length of the header packets
-
-			// Safe to unwrap, metadata is checked prior
-			let metadata_packet = packets.get(1).unwrap();
-			let header_size = identification_packet.len() + metadata_packet.len();
 
-			let stream_len = file_length - header_size as u64;
+		// Best case scenario
+		let length = (u128::from(total_samples) * 1000).div_round(48000) as u64;
+		if length > 0 {
+			// Get the stream length by subtracting the length of the header pages
+			let stream_len = file_length.saturating_sub(header_size);
 
 			properties.duration = Duration::from_millis(length);
-			properties.overall_bitrate = ((file_length * 8) / length) as u32;
-			properties.audio_bitrate = ((stream_len * 8) / length) as u32;
+			properties.overall_bitrate = (file_length.saturating_mul(8) / length) as u32;
+			properties.audio_bitrate = (stream_len.saturating_mul(8) / length) as u32;
 		} else {
 			log::warn!("Opus: The file contains invalid PCM values, unable to calculate length");
 		}
diff --git a/lofty/src/ogg/speex/properties.rs b/lofty/src/ogg/speex/properties.rs
index 2cf3fb0..8893876 100644
--- a/lofty/src/ogg/speex/properties.rs
+++ b/lofty/src/ogg/speex/properties.rs
@@ -165,11 +165,12 @@ where
 		let last_page_abgp = last_page.header().abgp;
 
 		if properties.sample_rate > 0 {
-			let total_samples = last_page_abgp.saturating_sub(first_page_abgp);
+			let total_samples = u128::from(last_page_abgp.saturating_sub(first_page_abgp));
 
 			// Best case scenario
 			if total_samples > 0 {
-				length = (total_samples * 1000).div_round(u64::from(properties.sample_rate));
+				length =
+					(total_samples * 1000).div_round(u128::from(properties.sample_rate)) as u64;
 				properties.duration = Duration::from_millis(length);
 			} else {
 				log::warn!(
@@ -182,9 +183,12 @@ where
 	}
 
 	if properties.nominal_bitrate > 0 {
-		properties.overall_bitrate = (file_length.saturating_mul(8) / length) as u32;
+		if let Some(overall_bitrate) = file_length.saturating_mul(8).checked_div(length) {
+			properties.overall_bitrate = overall_bitrate as u32;
+		}
+
 		properties.audio_bitrate = (properties.nominal_bitrate as u64 / 1000) as u32;
-	} else {
+	} else if length > 0 {
 		log::warn!("Nominal bitrate = 0, estimating bitrate from file length");
 
 		properties.overall_bitrate = file_length.saturating_mul(8).div_round(length) as u32;
-- 
2.43.0


From 9a53137a786beba3be3e872dee6ed9c878b6711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 020/112] fix: skip MP4 atoms with extended or open-ended sizes
 to their actual end

---
 lofty/src/mp4/atom_info.rs | 10 ++++++++--
 lofty/src/mp4/read/mod.rs  | 25 ++++++++++++++-----------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index 31099a6..64170e1 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -190,14 +190,20 @@ impl AtomInfo {
 
 				reader.seek(SeekFrom::Start(pos))?;
 
-				(end - pos, false)
+				(end - start, false)
 			},
 			// There's an extended length
 			1 => (reader.read_u64::<BigEndian>()?, true),
 			_ => (len_raw, false),
 		};
 
-		if len < ATOM_HEADER_LEN {
+		let header_len = if extended {
+			ATOM_HEADER_LEN + 8
+		} else {
+			ATOM_HEADER_LEN
+		};
+
+		if len < header_len {
 			// Seek to the end, since we can't recover from this
 			reader.seek(SeekFrom::End(0))?;
 
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 5954072..e11c0a3 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -1,7 +1,7 @@
 mod atom_reader;
 
 use super::Mp4File;
-use super::atom_info::{AtomIdent, AtomInfo};
+use super::atom_info::{ATOM_HEADER_LEN, AtomIdent, AtomInfo};
 use super::moov::Moov;
 use super::properties::Mp4Properties;
 use crate::config::{ParseOptions, ParsingMode};
@@ -61,7 +61,10 @@ where
 
 	// Find the `moov` atom and restrict the reader to its length
 	let moov_info = Moov::find(&mut reader)?;
-	reader.reset_bounds(moov_info.start + 8, moov_info.len - 8);
+	reader.reset_bounds(
+		moov_info.start + moov_info.header_size(),
+		moov_info.len - moov_info.header_size(),
+	);
 
 	let moov = Moov::parse(&mut reader, parse_options)?;
 
@@ -97,20 +100,20 @@ pub(super) fn skip_atom<R>(reader: &mut R, extended: bool, len: u64) -> Result<(
 where
 	R: Read + Seek,
 {
-	log::trace!("Attempting to skip {} bytes", len - 8);
-
-	if !extended {
-		reader.seek(SeekFrom::Current(i64::from(len as u32) - 8))?;
-		return Ok(());
-	}
+	let header_len = if extended {
+		ATOM_HEADER_LEN + 8
+	} else {
+		ATOM_HEADER_LEN
+	};
 
-	let pos = reader.stream_position()?;
+	let content_len = len.saturating_sub(header_len);
+	log::trace!("Attempting to skip {content_len} bytes");
 
-	let Some(pos) = pos.checked_add(len - 8) else {
+	let Ok(content_len) = i64::try_from(content_len) else {
 		return Err(TooMuchDataError.into());
 	};
 
-	reader.seek(SeekFrom::Start(pos))?;
+	reader.seek(SeekFrom::Current(content_len))?;
 
 	Ok(())
 }
-- 
2.43.0


From d8e399e565f2c5cf1093ed60157be104978dfdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 021/112] fix: do not take the metadata of an MP4 track for
 that of the file

---
 lofty/src/mp4/moov.rs | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index c85b2d7..7bcefd4 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -7,7 +7,7 @@ use crate::error::TagParseError;
 use crate::mp4::error::Mp4ParseError;
 use crate::mp4::ilst::error::IlstParseError;
 
-use std::io::{Read, Seek};
+use std::io::{Read, Seek, SeekFrom};
 
 pub(crate) struct Moov {
 	// Represents the trak.mdia atom
@@ -53,13 +53,18 @@ impl Moov {
 						if let Some(mdia) =
 							find_child_atom(reader, atom.len, *b"mdia", parse_options.parsing_mode)?
 						{
-							skip_atom(reader, mdia.extended, mdia.len)?;
 							traks.push(mdia);
 						}
+
+						// The other children of `trak` are not children of `moov`
+						seek_to_end_of(reader, &atom)?;
 					},
 					b"udta" if parse_options.read_tags => {
-						let ilst_parsed = ilst_from_udta(reader, parse_options, atom.len - 8)
+						let udta_len = atom.len - atom.header_size();
+						let ilst_parsed = ilst_from_udta(reader, parse_options, udta_len)
 							.map_err(TagParseError::from)?;
+						seek_to_end_of(reader, &atom)?;
+
 						if let Some(ilst_parsed) = ilst_parsed {
 							let Some(mut existing_ilst) = ilst else {
 								ilst = Some(ilst_parsed);
@@ -87,6 +92,18 @@ impl Moov {
 	}
 }
 
+// Seek to the end of an atom, regardless of how much of its content has been read
+fn seek_to_end_of<R>(reader: &mut AtomReader<R>, atom: &AtomInfo) -> Result<(), Mp4ParseError>
+where
+	R: Read + Seek,
+{
+	let pos = reader.stream_position()?;
+	let end = atom.start.saturating_add(atom.len);
+	reader.seek(SeekFrom::Current(end.wrapping_sub(pos) as i64))?;
+
+	Ok(())
+}
+
 fn ilst_from_udta<R>(
 	reader: &mut AtomReader<R>,
 	parse_options: ParseOptions,
@@ -95,9 +112,9 @@ fn ilst_from_udta<R>(
 where
 	R: Read + Seek,
 {
-	let mut read = 8;
+	let mut read = 0;
 	let mut found_meta = false;
-	let mut meta_atom_size = 0;
+	let mut meta_content_size = 0;
 
 	while read < len {
 		let Some(atom) = reader.next()? else {
@@ -106,7 +123,7 @@ where
 
 		if atom.ident == AtomIdent::Fourcc(*b"meta") {
 			found_meta = true;
-			meta_atom_size = atom.len;
+			meta_content_size = atom.len - atom.header_size();
 			break;
 		}
 
@@ -123,22 +140,22 @@ where
 	let full_meta_atom = meta_is_full(reader)?;
 
 	if full_meta_atom {
-		read = 12;
+		read = 4;
 	} else {
-		read = 8;
+		read = 0;
 	}
 
 	let mut found_ilst = false;
-	let mut ilst_atom_size = 0;
+	let mut ilst_content_size = 0;
 
-	while read < meta_atom_size {
+	while read < meta_content_size {
 		let Some(atom) = reader.next()? else {
 			break;
 		};
 
 		if atom.ident == AtomIdent::Fourcc(*b"ilst") {
 			found_ilst = true;
-			ilst_atom_size = atom.len;
+			ilst_content_size = atom.len - atom.header_size();
 			break;
 		}
 
@@ -147,7 +164,7 @@ where
 	}
 
 	if found_ilst {
-		return parse_ilst(reader, parse_options, ilst_atom_size - 8).map(Some);
+		return parse_ilst(reader, parse_options, ilst_content_size).map(Some);
 	}
 
 	Ok(None)
-- 
2.43.0


From 51825b71d8be5f4ea720edca701f4536af9567d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 022/112] fix: keep offsets, sizes and foreign atoms intact
 when writing MP4 tags

---
 lofty/src/mp4/ilst/write.rs | 85 ++++++++++++++++++++++---------------
 lofty/src/mp4/read/mod.rs   | 18 +++-----
 lofty/src/mp4/write.rs      | 16 +++++--
 3 files changed, 69 insertions(+), 50 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 1be152b..f68e006 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -66,10 +66,8 @@ where
 		moov_len
 	);
 
-	let mut moov_data_start = moov_start + ATOM_HEADER_LEN;
-	if moov_extended {
-		moov_data_start += 8;
-	}
+	let moov_header_len = moov.info.header_size();
+	let moov_data_start = moov_start + moov_header_len;
 
 	let mut write_handle = atom_writer.start_write();
 	write_handle.seek(SeekFrom::Start(moov_data_start))?;
@@ -79,7 +77,7 @@ where
 
 	let udta = find_child_atom(
 		&mut write_handle,
-		moov_len,
+		moov_len - moov_header_len + ATOM_HEADER_LEN,
 		*b"udta",
 		write_options.parse_options.parsing_mode,
 	)
@@ -108,7 +106,7 @@ where
 
 		let meta = find_child_atom(
 			&mut write_handle,
-			udta.len,
+			udta.len - udta.header_size() + ATOM_HEADER_LEN,
 			*b"meta",
 			write_options.parse_options.parsing_mode,
 		)
@@ -163,15 +161,22 @@ where
 					bytes = meta_writer.into_contents();
 				}
 
-				write_handle = atom_writer.start_write();
-
 				new_udta_size = udta.len + bytes.len() as u64;
 
+				// We'll put the new `meta` atom right at the start of `udta`
+				let meta_start_pos = (udta.start + udta.header_size()) as usize;
+				update_offsets(
+					&atom_writer,
+					moov,
+					bytes.len() as i64,
+					meta_start_pos as u64,
+				)?;
+
+				write_handle = atom_writer.start_write();
+
 				write_handle.seek(SeekFrom::Start(udta.start))?;
 				write_handle.write_atom_size(udta.start, new_udta_size, udta.extended)?;
 
-				// We'll put the new `meta` atom right at the start of `udta`
-				let meta_start_pos = (udta.start + ATOM_HEADER_LEN) as usize;
 				write_handle.splice(meta_start_pos..meta_start_pos, bytes);
 
 				// TODO: We need to drop the handle at the end of each branch, which is annoying
@@ -187,7 +192,12 @@ where
 		new_udta_size = bytes.len() as u64;
 
 		// We'll put the new `udta` atom right at the start of `moov`
-		let udta_pos = (moov_start + ATOM_HEADER_LEN) as usize;
+		let udta_pos = moov_data_start as usize;
+
+		drop(write_handle);
+		update_offsets(&atom_writer, moov, bytes.len() as i64, udta_pos as u64)?;
+
+		write_handle = atom_writer.start_write();
 		write_handle.splice(udta_pos..udta_pos, bytes);
 
 		drop(write_handle);
@@ -228,25 +238,18 @@ fn save_to_existing(
 
 	let mut write_handle = writer.start_write();
 
+	// The writer is left at the start of the `meta` content
+	let meta_content_start = write_handle.stream_position()?;
+
 	let (ilst_idx, tree) = atom_tree(
 		&mut write_handle,
-		meta.len - ATOM_HEADER_LEN,
+		(meta.start + meta.len).saturating_sub(meta_content_start),
 		b"ilst",
 		write_options.parse_options.parsing_mode,
 	)
 	.map_err(Into::<FileParseError>::into)?;
 
-	if tree.is_empty() {
-		// Nothing to do
-		if remove_tag {
-			return Ok(());
-		}
-
-		let meta_end = (meta.start + meta.len) as usize;
-
-		replacement = ilst;
-		range = meta_end..meta_end;
-	} else {
+	if let Some(ilst_idx) = ilst_idx {
 		let existing_ilst = &tree[ilst_idx];
 		let existing_ilst_size = existing_ilst.len;
 
@@ -321,6 +324,16 @@ fn save_to_existing(
 			replacement = ilst;
 			range = range_start as usize..range_end as usize;
 		}
+	} else {
+		// Nothing to do
+		if remove_tag {
+			return Ok(());
+		}
+
+		let meta_end = (meta.start + meta.len) as usize;
+
+		replacement = ilst;
+		range = meta_end..meta_end;
 	}
 
 	drop(write_handle);
@@ -416,9 +429,12 @@ where
 
 	// Otherwise, we'll have to just pad the default amount,
 	// and update the offsets.
-	write_free_atom(writer, preferred_padding.get())?;
-	atom_size_difference += i64::from(preferred_padding.get());
-	padding_size = u64::from(preferred_padding.get());
+	//
+	// NOTE: The padding atom needs to fit its own header
+	let preferred_padding = preferred_padding.get().max(ATOM_HEADER_LEN as u32);
+	write_free_atom(writer, preferred_padding)?;
+	atom_size_difference += i64::from(preferred_padding);
+	padding_size = u64::from(preferred_padding);
 
 	Ok((atom_size_difference, padding_size))
 }
@@ -478,7 +494,8 @@ fn update_offsets(
 	for co64 in moov.find_all_children(*b"co64", true) {
 		log::trace!("Found `co64` atom");
 
-		write_handle.seek(SeekFrom::Start(co64.start + ATOM_HEADER_LEN + 8 + 4))?;
+		// Skip atom header + version (1) + flags (3)
+		write_handle.seek(SeekFrom::Start(co64.start + co64.header_size() + 4))?;
 
 		let count = write_handle.read_u32::<BigEndian>()?;
 		for _ in 0..count {
@@ -497,14 +514,11 @@ fn update_offsets(
 		}
 	}
 
-	let Some(moof) = writer.find_contextual_atom(*b"moof") else {
-		return Ok(());
-	};
-
-	log::trace!("Found `moof` atom, checking for `tfhd` atoms to update");
-
 	// 64-bit offsets
-	for tfhd in moof.find_all_children(*b"tfhd", true) {
+	for tfhd in writer
+		.find_contextual_atoms(*b"moof")
+		.flat_map(|moof| moof.find_all_children(*b"tfhd", true))
+	{
 		log::trace!("Found `tfhd` atom");
 
 		let tfhd_start = tfhd.start;
@@ -523,6 +537,9 @@ fn update_offsets(
 		let base_data_offset = (flags & 0b1) != 0;
 
 		if base_data_offset {
+			// Skip track ID (4)
+			write_handle.seek(SeekFrom::Current(4))?;
+
 			let read_offset = write_handle.read_u64::<BigEndian>()?;
 			if read_offset < ilst_offset {
 				continue;
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index e11c0a3..1ea9ab7 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -153,22 +153,20 @@ where
 	Ok(ret)
 }
 
-// Creates a tree of nested atoms
+// Creates a tree of nested atoms, with the index of the first `up_to` atom
 pub(super) fn atom_tree<R>(
 	reader: &mut R,
 	mut len: u64,
 	up_to: &[u8],
 	parse_mode: ParsingMode,
-) -> Result<(usize, Vec<AtomInfo>), Mp4ParseError>
+) -> Result<(Option<usize>, Vec<AtomInfo>), Mp4ParseError>
 where
 	R: Read + Seek,
 {
-	let mut found_idx: usize = 0;
+	let mut found_idx = None;
 	let mut buf = Vec::new();
 
-	let mut i = 0;
-
-	while len > 8 {
+	while len >= ATOM_HEADER_LEN {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
@@ -177,18 +175,14 @@ where
 		len = len.saturating_sub(atom.len);
 
 		if let AtomIdent::Fourcc(ref fourcc) = atom.ident {
-			i += 1;
-
-			if fourcc == up_to {
-				found_idx = i;
+			if fourcc == up_to && found_idx.is_none() {
+				found_idx = Some(buf.len());
 			}
 
 			buf.push(atom);
 		}
 	}
 
-	found_idx = found_idx.saturating_sub(1);
-
 	Ok((found_idx, buf))
 }
 
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 276c5cf..1584e34 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -25,6 +25,7 @@ const IMPORTANT_CONTAINERS: &[[u8; 4]] = &[
 	*b"moov",
 		*b"udta",
 		*b"moof",
+		*b"traf",
 		*b"trak",
 			*b"mdia",
 				*b"minf",
@@ -152,9 +153,16 @@ impl AtomWriter {
 	}
 
 	pub(super) fn find_contextual_atom(&self, fourcc: [u8; 4]) -> Option<&ContextualAtom> {
-		self.atoms
-			.iter()
-			.find(|atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc))
+		self.find_contextual_atoms(fourcc).next()
+	}
+
+	pub(super) fn find_contextual_atoms(
+		&self,
+		fourcc: [u8; 4],
+	) -> impl Iterator<Item = &ContextualAtom> {
+		self.atoms.iter().filter(
+			move |atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc),
+		)
 	}
 
 	pub(super) fn into_contents(self) -> Vec<u8> {
@@ -212,7 +220,7 @@ impl AtomWriterCompanion<'_> {
 		size: u64,
 		extended: bool,
 	) -> std::io::Result<()> {
-		if u32::try_from(size).is_ok() {
+		if !extended && u32::try_from(size).is_ok() {
 			// ???? (identifier)
 			self.write_u32::<BigEndian>(size as u32)?;
 			self.seek(SeekFrom::Current(IDENTIFIER_LEN as i64))?;
-- 
2.43.0


From 0959c7386a75279f9f9732b7c6c45ad1d944066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 023/112] fix: skip the footer of an ID3v2 tag when detecting
 the file type

---
 lofty/src/file/file_type.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index 029564d..a1b6fd7 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -292,9 +292,14 @@ impl FileType {
 				// This is infallible, but preferable to an unwrap
 				if let Ok(arr) = buf[6..10].try_into() {
 					// Set the ID3v2 size
-					ret = Some(FileTypeGuessResult::MaybePrecededById3(
-						u32::from_be_bytes(arr).unsynch(),
-					));
+					let mut id3v2_size = u32::from_be_bytes(arr).unsynch();
+
+					// An ID3v2.4 footer is a copy of the header, and not included in the size
+					if buf[3] == 4 && buf[5] & 0x10 == 0x10 {
+						id3v2_size += 10;
+					}
+
+					ret = Some(FileTypeGuessResult::MaybePrecededById3(id3v2_size));
 				}
 			},
 			None => ret = Some(FileTypeGuessResult::MaybePrecededByJunk),
-- 
2.43.0


From 031f78a990316ab1e8da3052e985656baf6c73b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 024/112] fix: open the file for writing in remove_from_path

---
 lofty/src/util/io.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index 0be5517..a85d2a6 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -6,8 +6,8 @@ use crate::util::math::F80;
 use crate::file::FileType;
 use crate::probe::Probe;
 use std::collections::VecDeque;
-use std::fs::File;
-use std::io::{BufReader, Cursor, Read, Seek, SeekFrom, Write};
+use std::fs::{File, OpenOptions};
+use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 use std::ops::{Deref, DerefMut};
 use std::path::Path;
 
@@ -184,14 +184,14 @@ pub(crate) enum FileSource<'a, F> {
 	/// Sourced from an already open file handle
 	Ref(&'a mut F),
 	/// Sourced from a path
-	Path(BufReader<File>),
+	Path(File),
 }
 
 impl<F: FileLike> Length for FileSource<'_, F> {
 	fn len(&self) -> std::io::Result<u64> {
 		match self {
 			Self::Ref(file) => Length::len(file),
-			Self::Path(file) => Length::len(file.get_ref()),
+			Self::Path(file) => Length::len(file),
 		}
 	}
 }
@@ -200,7 +200,7 @@ impl<F: FileLike> Truncate for FileSource<'_, F> {
 	fn truncate(&mut self, size: u64) -> std::io::Result<()> {
 		match self {
 			Self::Ref(file) => Truncate::truncate(file, size),
-			Self::Path(file) => Truncate::truncate(file.get_mut(), size),
+			Self::Path(file) => Truncate::truncate(file, size),
 		}
 	}
 }
@@ -218,14 +218,14 @@ impl<F: FileLike> Write for FileSource<'_, F> {
 	fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
 		match self {
 			Self::Ref(file) => Write::write(file, buf),
-			Self::Path(file) => Write::write(file.get_mut(), buf),
+			Self::Path(file) => Write::write(file, buf),
 		}
 	}
 
 	fn flush(&mut self) -> std::io::Result<()> {
 		match self {
 			Self::Ref(file) => Write::flush(file),
-			Self::Path(file) => Write::flush(file.get_mut()),
+			Self::Path(file) => Write::flush(file),
 		}
 	}
 }
@@ -270,7 +270,8 @@ impl<'a, F: FileLike> VerifiedFile<'a, F> {
 
 impl VerifiedFile<'_, File> {
 	pub(crate) fn new_from_path(path: &Path) -> Result<Self, FileParseError> {
-		let probe = Probe::open(path)?;
+		let file = OpenOptions::new().read(true).write(true).open(path)?;
+		let probe = Probe::new(file).guess_file_type()?;
 		match probe.file_type() {
 			Some(format) => Ok(Self {
 				format,
-- 
2.43.0


From c3d0826874eb6541744c80e6748a2c90c66795e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 025/112] fix: always encode the URL of a WXXX frame as Latin-1

---
 lofty/src/id3/v2/items/extended_url_frame.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/extended_url_frame.rs b/lofty/src/id3/v2/items/extended_url_frame.rs
index 7c30778..717c8f4 100644
--- a/lofty/src/id3/v2/items/extended_url_frame.rs
+++ b/lofty/src/id3/v2/items/extended_url_frame.rs
@@ -150,7 +150,12 @@ impl<'a> ExtendedUrlFrame<'a> {
 				.encode(&self.description, true, write_options.lossy_text_encoding)?
 				.iter(),
 		);
-		bytes.extend(encoding.encode(&self.content, false, write_options.lossy_text_encoding)?);
+		// The encoding only applies to the description, URLs are always Latin-1
+		bytes.extend(TextEncoding::Latin1.encode(
+			&self.content,
+			false,
+			write_options.lossy_text_encoding,
+		)?);
 
 		Ok(bytes)
 	}
-- 
2.43.0


From 63fc4a0146729336f1f6707e330f4a65e62ec6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 026/112] fix: save generic tags to Vorbis comments as the
 conversion stores them

---
 lofty/src/flac/write.rs    | 14 +++-----------
 lofty/src/ogg/tag.rs       | 29 ++---------------------------
 lofty/src/ogg/tag/write.rs | 14 +++-----------
 lofty/src/tag/utils.rs     | 15 +++------------
 4 files changed, 11 insertions(+), 61 deletions(-)

diff --git a/lofty/src/flac/write.rs b/lofty/src/flac/write.rs
index 92af60f..1cecb1c 100644
--- a/lofty/src/flac/write.rs
+++ b/lofty/src/flac/write.rs
@@ -5,9 +5,9 @@ use crate::error::{FileEncodingError, FileParseError, SizeMismatchError, TagPars
 use crate::id3::{FindId3v2Config, find_id3v2};
 use crate::io::{Length, VerifiedFile};
 use crate::macros::try_vec;
-use crate::ogg::tag::VorbisCommentsRef;
+use crate::ogg::tag::{VorbisComments, VorbisCommentsRef};
 use crate::picture::{Picture, PictureInformation};
-use crate::tag::{Tag, TagType};
+use crate::tag::{Tag, TagType, TagWriteExt};
 use crate::util::io::FileLike;
 
 use std::borrow::Cow;
@@ -27,15 +27,7 @@ where
 {
 	match tag.tag_type() {
 		TagType::VorbisComments => {
-			let (vendor, items, pictures) = crate::ogg::tag::create_vorbis_comments_ref(tag);
-
-			let mut comments_ref = VorbisCommentsRef {
-				vendor: Cow::from(vendor),
-				items,
-				pictures,
-			};
-
-			write_to_inner(file, &mut comments_ref, write_options)
+			TagWriteExt::save_to(&VorbisComments::from(tag.clone()), file, write_options)
 		},
 		// This tag can *only* be removed in this format
 		TagType::Id3v2 => {
diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index b20e1c7..dc738cb 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -667,9 +667,8 @@ impl MergeTag for SplitTagRemainder {
 		}
 
 		for picture in tag.pictures {
-			if let Ok(information) = PictureInformation::from_picture(&picture) {
-				merged.pictures.push((picture, information))
-			}
+			let information = PictureInformation::from_picture(&picture).unwrap_or_default();
+			merged.pictures.push((picture, information))
 		}
 
 		merged
@@ -730,30 +729,6 @@ where
 	}
 }
 
-pub(crate) fn create_vorbis_comments_ref(
-	tag: &Tag,
-) -> (
-	&str,
-	impl Iterator<Item = (&str, &str)>,
-	impl Iterator<Item = (&Picture, PictureInformation)>,
-) {
-	let vendor = tag.get_string(ItemKey::EncoderSoftware).unwrap_or("");
-
-	let items = tag.items.iter().filter_map(|i| match i.value() {
-		ItemValue::Text(val) | ItemValue::Locator(val) => i
-			.key()
-			.map_key(TagType::VorbisComments)
-			.map(|key| (key, val.as_str())),
-		_ => None,
-	});
-
-	let pictures = tag
-		.pictures
-		.iter()
-		.map(|p| (p, PictureInformation::from_picture(p).unwrap_or_default()));
-	(vendor, items, pictures)
-}
-
 #[cfg(test)]
 mod tests {
 	use crate::config::{ParseOptions, ParsingMode, WriteOptions};
diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index d9cd138..45601fe 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -5,10 +5,10 @@ use crate::io::{Truncate, VerifiedFile};
 use crate::macros::try_vec;
 use crate::ogg::constants::{OPUSTAGS, VORBIS_COMMENT_HEAD};
 use crate::ogg::tag::error::VorbisCommentsEncodingError;
-use crate::ogg::tag::{VorbisCommentsRef, create_vorbis_comments_ref};
+use crate::ogg::tag::{VorbisComments, VorbisCommentsRef};
 use crate::ogg::verify_signature;
 use crate::picture::{Picture, PictureInformation};
-use crate::tag::Tag;
+use crate::tag::{Tag, TagWriteExt};
 use crate::util::io::FileLike;
 
 use std::borrow::Cow;
@@ -25,15 +25,7 @@ pub(crate) fn write_to<F>(
 where
 	F: FileLike,
 {
-	let (vendor, items, pictures) = create_vorbis_comments_ref(tag);
-
-	let mut comments_ref = VorbisCommentsRef {
-		vendor: Cow::from(vendor),
-		items,
-		pictures,
-	};
-
-	write(file, &mut comments_ref, write_options)
+	TagWriteExt::save_to(&VorbisComments::from(tag.clone()), file, write_options)
 }
 
 pub(in crate::ogg) fn write<'a, F, II, IP>(
diff --git a/lofty/src/tag/utils.rs b/lofty/src/tag/utils.rs
index 1085919..be3fa96 100644
--- a/lofty/src/tag/utils.rs
+++ b/lofty/src/tag/utils.rs
@@ -6,15 +6,14 @@ use crate::id3::v2::tag::conversion::Id3v2TagRef;
 use crate::id3::v2::{self, Id3v2TagFlags};
 use crate::io::VerifiedFile;
 use crate::mp4::Ilst;
-use crate::ogg::tag::{VorbisCommentsRef, create_vorbis_comments_ref};
-use crate::tag::{Tag, TagType};
+use crate::ogg::tag::VorbisComments;
+use crate::tag::{Tag, TagExt, TagType};
 use crate::util::io::FileLike;
 use crate::{aac, ape, flac, iff, mpeg, musepack, wavpack};
 use ape::tag::ApeTagRef;
 use iff::aiff::tag::AiffTextChunksRef;
 use iff::wav::tag::RIFFInfoListRef;
 
-use std::borrow::Cow;
 use std::io::Write;
 
 #[allow(unreachable_patterns)]
@@ -74,15 +73,7 @@ pub(crate) fn dump_tag<W: Write>(
 			.dump_to(writer, write_options)
 			.map_err(Into::into),
 		TagType::VorbisComments => {
-			let (vendor, items, pictures) = create_vorbis_comments_ref(tag);
-
-			VorbisCommentsRef {
-				vendor: Cow::from(vendor),
-				items,
-				pictures,
-			}
-			.dump_to(writer, write_options)
-			.map_err(Into::into)
+			TagExt::dump_to(&VorbisComments::from(tag.clone()), writer, write_options)
 		},
 		TagType::RiffInfo => RIFFInfoListRef {
 			items: iff::wav::tag::tagitems_into_riff(tag.items()),
-- 
2.43.0


From 7080cbe60d1ce80d89182c4c83c218f31f44324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 027/112] fix: keep the PADDING block of a FLAC file last

---
 lofty/src/flac/write.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/flac/write.rs b/lofty/src/flac/write.rs
index 1cecb1c..22cb559 100644
--- a/lofty/src/flac/write.rs
+++ b/lofty/src/flac/write.rs
@@ -132,7 +132,13 @@ where
 
 	let metadata_blocks = encode_tag(&tag.vendor, comments_peek, pictures_peek)?;
 
+	// `PADDING` always goes last
+	let (padding_blocks, mut blocks): (Vec<_>, Vec<_>) = blocks
+		.into_iter()
+		.partition(|block| block.ty == BLOCK_ID_PADDING);
+
 	blocks.extend(metadata_blocks);
+	blocks.extend(padding_blocks);
 
 	if will_write_padding && let Some(preferred_padding) = write_options.preferred_padding {
 		log::warn!("File is missing a PADDING block. Adding one");
@@ -150,7 +156,6 @@ where
 			.min(u64::from(Block::MAX_CONTENT_SIZE));
 		let padding_len = usize::try_from(padding_len).map_err(|_| SizeMismatchError)?;
 
-		// `PADDING` always goes last
 		blocks.push(Block::new_padding(padding_len)?);
 	}
 
-- 
2.43.0


From 26973ea7e7ba399c953266b7196ac1aa1a473a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 028/112] fix: replace the padding after an ilst atom together
 with it

---
 lofty/src/mp4/ilst/write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index f68e006..bfdd7b7 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -254,7 +254,7 @@ fn save_to_existing(
 		let existing_ilst_size = existing_ilst.len;
 
 		let mut range_start = existing_ilst.start;
-		let range_end = existing_ilst.start + existing_ilst_size;
+		let mut range_end = existing_ilst.start + existing_ilst_size;
 
 		if remove_tag {
 			// We just need to strip out the `ilst` atom
@@ -292,6 +292,7 @@ fn save_to_existing(
 					}
 
 					available_space += atom.len;
+					range_end = atom.start + atom.len;
 					i += 1;
 				}
 
-- 
2.43.0


From 716221b59a7753c9b343200759d194ac474c94dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 029/112] fix: do not look for AAC frames in an ID3v1 tag

---
 lofty/src/aac/read.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index 6a5ddc3..67e1f3f 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -97,7 +97,7 @@ where
 				reader.seek(SeekFrom::Current(-1 * header.len() as i64))?;
 
 				if let Some((first_frame_header_, first_frame_end_)) =
-					find_next_frame(reader, parse_mode)?
+					find_next_frame(reader, u64::MAX, parse_mode)?
 				{
 					log::debug!("Found first ADTS frame");
 
@@ -109,7 +109,9 @@ where
 		}
 	}
 
-	#[allow(unused_variables)]
+	// An ID3v1 tag may well contain something that looks like a frame
+	let mut audio_end = u64::MAX;
+
 	let ID3FindResults(header, id3v1) =
 		find_id3v1(reader, parse_options.read_tags, parse_options.parsing_mode)
 			.map_err(TagParseError::from)?;
@@ -120,6 +122,7 @@ where
 		};
 
 		stream_len = new_stream_len;
+		audio_end = reader.stream_position()?;
 		file.id3v1_tag = id3v1;
 	}
 
@@ -142,7 +145,7 @@ where
 
 		let mut frame_count = 1;
 
-		while let Some((header, frame_end)) = find_next_frame(reader, parse_mode)? {
+		while let Some((header, frame_end)) = find_next_frame(reader, audio_end, parse_mode)? {
 			first_frame_header.bitrate += header.bitrate;
 			frame_count += 1u32;
 
@@ -158,9 +161,10 @@ where
 }
 
 // TODO: Does a lot of unnecessary seeking
-// Searches for the next frame, comparing it to the following one
+// Searches for the next frame starting before `audio_end`, comparing it to the following one
 fn find_next_frame<R>(
 	reader: &mut R,
+	audio_end: u64,
 	parsing_mode: ParsingMode,
 ) -> Result<Option<(ADTSHeader, u64)>, AacParseError>
 where
@@ -171,6 +175,10 @@ where
 	while let Ok(Some(first_adts_frame_start_relative)) = search_for_frame_sync(reader) {
 		let first_adts_frame_start_absolute = pos + first_adts_frame_start_relative;
 
+		if first_adts_frame_start_absolute >= audio_end {
+			break;
+		}
+
 		// Seek back to the start of the frame and read the header
 		reader.seek(SeekFrom::Start(first_adts_frame_start_absolute))?;
 
-- 
2.43.0


From d3870160e1376b55f07aa8db563de983d80a0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 030/112] fix: write the ID3v2 extended header and flags each
 version defines

---
 lofty/src/id3/v2/header.rs    | 10 ++---
 lofty/src/id3/v2/write/mod.rs | 85 ++++++++++++++++++++++++-----------
 2 files changed, 61 insertions(+), 34 deletions(-)

diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 8befdd6..8c5824b 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -80,11 +80,7 @@ impl Id3v2TagFlags {
 		let mut byte = 0;
 
 		if self.experimental {
-			byte |= 0x40;
-		}
-
-		if self.footer {
-			byte |= 0x10;
+			byte |= 0x20;
 		}
 
 		byte
@@ -138,8 +134,8 @@ impl Id3v2Header {
 			unsynchronisation: flags & 0x80 == 0x80,
 			experimental: (version == Id3v2Version::V4 || version == Id3v2Version::V3)
 				&& flags & 0x20 == 0x20,
-			footer: (version == Id3v2Version::V4 || version == Id3v2Version::V3)
-				&& flags & 0x10 == 0x10,
+			// Footers were introduced in ID3v2.4
+			footer: version == Id3v2Version::V4 && flags & 0x10 == 0x10,
 			crc: false,         // Retrieved later if applicable
 			restrictions: None, // Retrieved later if applicable
 		};
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 0b72ac5..d6ce882 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -162,11 +162,21 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		log::debug!("Using ID3v2.3");
 	}
 
-	let has_footer = tag.flags.footer;
-	let needs_crc = tag.flags.crc;
-	let has_restrictions = tag.flags.restrictions.is_some();
+	let mut flags = tag.flags;
 
-	let (mut id3v2, extended_header_len) = create_tag_header(tag.flags, is_id3v23)?;
+	// Nothing is unsynchronised when writing, see `FrameFlags::unsynchronisation`
+	flags.unsynchronisation = false;
+
+	if is_id3v23 {
+		// Neither of these exist in ID3v2.3
+		flags.footer = false;
+		flags.restrictions = None;
+	}
+
+	let has_footer = flags.footer;
+	let needs_crc = flags.crc;
+
+	let (mut id3v2, extended_header_len) = create_tag_header(flags, is_id3v23)?;
 	let header_len = id3v2.get_ref().len();
 
 	// Write the items
@@ -192,27 +202,30 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 	id3v2.seek(SeekFrom::Start(6))?;
 	id3v2.write_u32::<BigEndian>((extended_header_len + len as u32).synch()?)?;
 
+	if is_id3v23 && extended_header_len > 0 {
+		// Past the tag header (10), and the size (4) and flags (2) of the extended header
+		id3v2.seek(SeekFrom::Start(16))?;
+		id3v2.write_u32::<BigEndian>(preferred_padding.map_or(0, |padding| padding.get()))?;
+	}
+
 	if needs_crc {
 		// The CRC is calculated on all the data between the header and footer
-		#[allow(unused_mut)]
-		// Past the CRC
-		let mut content_start_idx = 22;
-
-		if has_restrictions {
-			content_start_idx += 3;
+		let crc = calculate_crc(&id3v2.get_ref()[header_len..]);
+
+		if is_id3v23 {
+			// Past the padding size
+			id3v2.seek(SeekFrom::Start(20))?;
+			id3v2.write_u32::<BigEndian>(crc)?;
+		} else {
+			// Skip 16 bytes
+			//
+			// Normal ID3v2 header (10)
+			// Extended header (6)
+			id3v2.seek(SeekFrom::Start(16))?;
+
+			id3v2.write_u8(5)?;
+			id3v2.write_all(&synchsafe_crc(crc))?;
 		}
-
-		// Skip 16 bytes
-		//
-		// Normal ID3v2 header (10)
-		// Extended header (6)
-		id3v2.seek(SeekFrom::Start(16))?;
-
-		let tag_contents = &id3v2.get_ref()[content_start_idx..];
-		let encoded_crc = calculate_crc(tag_contents);
-
-		id3v2.write_u8(5)?;
-		id3v2.write_all(&encoded_crc)?;
 	}
 
 	if has_footer {
@@ -262,17 +275,33 @@ fn create_tag_header(
 
 	let extended_header = flags.crc || flags.restrictions.is_some();
 
-	let tag_flags = if is_id3v23 {
+	let mut tag_flags = if is_id3v23 {
 		flags.as_id3v23_byte()
 	} else {
 		flags.as_id3v24_byte()
 	};
 
+	if extended_header {
+		tag_flags |= 0x40;
+	}
+
 	header.write_u8(tag_flags)?;
 	header.write_u32::<BigEndian>(0)?;
 
 	let mut extended_header_size = 0;
-	if extended_header {
+	if extended_header && is_id3v23 {
+		// Structure of extended header:
+		//
+		// Size, excluding itself (4)
+		// Flags (2)
+		// Size of padding (4)
+		// CRC (4), the only thing that can be here in ID3v2.3
+		extended_header_size = 14;
+
+		header.write_u32::<BigEndian>(extended_header_size - 4)?;
+		header.write_u16::<BigEndian>(0x8000)?;
+		header.write_all(&[0; 8])?;
+	} else if extended_header {
 		// Structure of extended header:
 		//
 		// Size (4)
@@ -315,14 +344,16 @@ fn create_tag_header(
 }
 
 // https://github.com/rstemmer/id3edit/blob/0246f3dc1a7a80a64461eeeb7b9ee88379003eb1/encoding/crc.c#L6:6
-fn calculate_crc(content: &[u8]) -> [u8; 5] {
-	let crc: u32 = content
+fn calculate_crc(content: &[u8]) -> u32 {
+	content
 		.iter()
 		.fold(!0, |crc, octet| {
 			(crc >> 8) ^ CRC32_TABLE[(((crc & 0xFF) ^ u32::from(*octet)) & 0xFF) as usize]
 		})
-		.not();
+		.not()
+}
 
+fn synchsafe_crc(crc: u32) -> [u8; 5] {
 	// The CRC-32 is stored as an 35 bit synchsafe integer, leaving the upper
 	// four bits always zeroed.
 	let mut encoded_crc = [0; 5];
-- 
2.43.0


From d68113a94c1029bab0445a23be6a5b2200e3a5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 031/112] fix: handle the additional information of ID3v2 frame
 flags per version

---
 lofty/src/id3/v2/frame/read.rs  | 227 +++++++++++++++-----------------
 lofty/src/id3/v2/write/frame.rs |  83 ++++++------
 2 files changed, 143 insertions(+), 167 deletions(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index 2fcef85..914ff03 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -79,60 +79,44 @@ impl ParsedFrame<'static> {
 			return Ok(Self::Skip);
 		}
 
-		// Get the encryption method symbol
-		if let Some(enc) = flags.encryption.as_mut() {
-			log::trace!("Reading encryption method symbol");
-
-			if size < 1 {
-				return Err(FrameParseError::undersized(id));
+		// The order of the additional information differs between the versions
+		if version == Id3v2Version::V3 {
+			if flags.compression {
+				log::trace!("Reading decompressed size");
+				flags.data_length_indicator = Some(read_u32(reader, &id, &mut size)?);
 			}
 
-			match reader.read_u8() {
-				Ok(sym) => *enc = sym,
-				Err(e) => {
-					return Err(FrameParseError::io(Some(id), e));
-				},
+			if let Some(enc) = flags.encryption.as_mut() {
+				log::trace!("Reading encryption method symbol");
+				*enc = read_u8(reader, &id, &mut size)?;
 			}
 
-			size -= 1;
-		}
-
-		// Get the group identifier
-		if let Some(group) = flags.grouping_identity.as_mut() {
-			log::trace!("Reading group identifier");
-
-			if size < 1 {
-				return Err(FrameParseError::undersized(id));
+			if let Some(group) = flags.grouping_identity.as_mut() {
+				log::trace!("Reading group identifier");
+				*group = read_u8(reader, &id, &mut size)?;
 			}
 
-			match reader.read_u8() {
-				Ok(sym) => *group = sym,
-				Err(e) => {
-					return Err(FrameParseError::io(Some(id), e));
-				},
+			// ID3v2.3 has no data length indicator, the size is only available for compressed frames
+			if flags.encryption.is_some() && flags.data_length_indicator.is_none() {
+				flags.data_length_indicator = Some(size);
+			}
+		} else {
+			if let Some(group) = flags.grouping_identity.as_mut() {
+				log::trace!("Reading group identifier");
+				*group = read_u8(reader, &id, &mut size)?;
 			}
 
-			size -= 1;
-		}
-
-		// Get the real data length
-		if flags.data_length_indicator.is_some() || flags.compression {
-			log::trace!("Reading data length indicator");
-
-			if size < 4 {
-				return Err(FrameParseError::undersized(id));
+			if let Some(enc) = flags.encryption.as_mut() {
+				log::trace!("Reading encryption method symbol");
+				*enc = read_u8(reader, &id, &mut size)?;
 			}
 
 			// For some reason, no one can follow the spec, so while a data length indicator is *written*
 			// the flag **isn't always set**
-			let len = match reader.read_u32::<BigEndian>() {
-				Ok(len) => len.unsynch(),
-				Err(e) => {
-					return Err(FrameParseError::io(Some(id), e));
-				},
-			};
-			flags.data_length_indicator = Some(len);
-			size -= 4;
+			if flags.data_length_indicator.is_some() || flags.compression {
+				log::trace!("Reading data length indicator");
+				flags.data_length_indicator = Some(read_u32(reader, &id, &mut size)?.unsynch());
+			}
 		}
 
 		// Frames must have at least 1 byte, *after* all of the additional data flags can provide
@@ -143,91 +127,83 @@ impl ParsedFrame<'static> {
 		// Restrict the reader to the frame content
 		let mut reader = reader.take(u64::from(size));
 
-		// It seems like the flags are applied in the order:
+		// When writing, the flags are applied in the order:
 		//
-		// unsynchronization -> compression -> encryption
+		// compression -> encryption -> unsynchronization
 		//
-		// Which all have their own needs, so this gets a little messy...
-		match flags {
-			// Possible combinations:
-			//
-			// * unsynchronized + compressed + encrypted
-			// * unsynchronized + compressed
-			// * unsynchronized + encrypted
-			// * unsynchronized
-			FrameFlags {
-				unsynchronisation: true,
-				..
-			} => {
-				let mut unsynchronized_reader = UnsynchronizedStream::new(reader);
-
-				if flags.compression {
-					let mut compression_reader = handle_compression(unsynchronized_reader)?;
-
-					if flags.encryption.is_some() {
-						return handle_encryption(&mut compression_reader, size, id, flags);
-					}
-
-					return parse_frame(
-						&mut compression_reader,
-						size,
-						id,
-						flags,
-						version,
-						parse_options,
-					);
+		// So the content of encrypted frames can't be decompressed, regardless of the flags.
+		let parsed_frame = match (flags.unsynchronisation, flags.compression) {
+			_ if flags.encryption.is_some() => {
+				if flags.unsynchronisation {
+					handle_encryption(&mut UnsynchronizedStream::new(&mut reader), size, id, flags)
+				} else {
+					handle_encryption(&mut reader, size, id, flags)
 				}
+			},
+			(true, true) => parse_frame(
+				&mut handle_compression(UnsynchronizedStream::new(&mut reader))?,
+				size,
+				id,
+				flags,
+				version,
+				parse_options,
+			),
+			(false, true) => parse_frame(
+				&mut handle_compression(&mut reader)?,
+				size,
+				id,
+				flags,
+				version,
+				parse_options,
+			),
+			(true, false) => parse_frame(
+				&mut UnsynchronizedStream::new(&mut reader),
+				size,
+				id,
+				flags,
+				version,
+				parse_options,
+			),
+			(false, false) => parse_frame(&mut reader, size, id, flags, version, parse_options),
+		}?;
+
+		// The content may end before the frame does
+		std::io::copy(&mut reader, &mut std::io::sink())?;
+
+		Ok(parsed_frame)
+	}
+}
 
-				if flags.encryption.is_some() {
-					return handle_encryption(&mut unsynchronized_reader, size, id, flags);
-				}
+fn read_u8<R>(reader: &mut R, id: &FrameId<'static>, size: &mut u32) -> Result<u8, FrameParseError>
+where
+	R: Read + ?Sized,
+{
+	if *size < 1 {
+		return Err(FrameParseError::undersized(id.clone()));
+	}
 
-				return parse_frame(
-					&mut unsynchronized_reader,
-					size,
-					id,
-					flags,
-					version,
-					parse_options,
-				);
-			},
-			// Possible combinations:
-			//
-			// * compressed + encrypted
-			// * compressed
-			FrameFlags {
-				compression: true, ..
-			} => {
-				let mut compression_reader = handle_compression(reader)?;
-
-				if flags.encryption.is_some() {
-					return handle_encryption(&mut compression_reader, size, id, flags);
-				}
+	*size -= 1;
+	reader
+		.read_u8()
+		.map_err(|e| FrameParseError::io(Some(id.clone()), e))
+}
 
-				return parse_frame(
-					&mut compression_reader,
-					size,
-					id,
-					flags,
-					version,
-					parse_options,
-				);
-			},
-			// Possible combinations:
-			//
-			// * encrypted
-			FrameFlags {
-				encryption: Some(_),
-				..
-			} => {
-				return handle_encryption(&mut reader, size, id, flags);
-			},
-			// Everything else that doesn't have special flags
-			_ => {
-				return parse_frame(&mut reader, size, id, flags, version, parse_options);
-			},
-		}
+fn read_u32<R>(
+	reader: &mut R,
+	id: &FrameId<'static>,
+	size: &mut u32,
+) -> Result<u32, FrameParseError>
+where
+	R: Read + ?Sized,
+{
+	if *size < 4 {
+		return Err(FrameParseError::undersized(id.clone()));
 	}
+
+	*size -= 4;
+	reader
+		.read_u32::<BigEndian>()
+		.map_err(|e| FrameParseError::io(Some(id.clone()), e))
 }
 
 #[cfg(feature = "id3v2_compression_support")]
@@ -252,11 +228,20 @@ fn handle_encryption<R: Read>(
 		return Err(FrameParseError::missing_data_length_indicator(id));
 	}
 
+	// The size is only an upper bound for unsynchronised content
 	let mut content = try_vec![0; size as usize]?;
-	if let Err(e) = reader.read_exact(&mut content) {
+	content.clear();
+	if let Err(e) = reader.take(u64::from(size)).read_to_end(&mut content) {
 		return Err(FrameParseError::io(Some(id), e));
 	}
 
+	if !flags.unsynchronisation && content.len() < size as usize {
+		return Err(FrameParseError::io(
+			Some(id),
+			std::io::ErrorKind::UnexpectedEof.into(),
+		));
+	}
+
 	let encrypted_frame = Frame::Binary(BinaryFrame {
 		header: FrameHeader::new(id, flags),
 		data: Cow::Owned(content),
diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 84bc870..8beaac2 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -295,77 +295,68 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 fn write_frame<W>(
 	writer: &mut W,
 	name: &str,
-	flags: FrameFlags,
+	mut flags: FrameFlags,
 	value: &[u8],
 	write_options: WriteOptions,
 ) -> Result<(), FrameEncodingError>
 where
 	W: Write,
 {
-	if flags.encryption.is_some() {
-		write_encrypted(writer, name, value, flags, write_options)?;
-		return Ok(());
+	// The content is never unsynchronised, and it is only still compressed if it's also encrypted
+	flags.unsynchronisation = false;
+	if flags.encryption.is_none() {
+		flags.compression = false;
 	}
 
-	let len = value.len() as u32;
-	let is_grouping_identity = flags.grouping_identity.is_some();
+	// The order of the additional information differs between the versions
+	let mut additional_info = Vec::new();
+	if write_options.use_id3v23 {
+		let data_length = encryption_info(name, flags)?;
+		if let Some(len) = data_length
+			&& flags.compression
+		{
+			additional_info.write_u32::<BigEndian>(len)?;
+		}
 
-	write_frame_header(
-		writer,
-		name,
-		if is_grouping_identity { len + 1 } else { len },
-		flags,
-		write_options,
-	)?;
+		additional_info.extend(flags.encryption);
+		additional_info.extend(flags.grouping_identity);
+	} else {
+		let data_length = encryption_info(name, flags)?
+			.or_else(|| flags.data_length_indicator.map(|_| value.len() as u32));
 
-	if is_grouping_identity {
-		// Guaranteed to be `Some` at this point.
-		writer.write_u8(flags.grouping_identity.unwrap())?;
+		additional_info.extend(flags.grouping_identity);
+		additional_info.extend(flags.encryption);
+		if let Some(len) = data_length {
+			additional_info.write_u32::<BigEndian>(len.synch()?)?;
+		}
 	}
 
+	let len = (additional_info.len() + value.len()) as u32;
+	write_frame_header(writer, name, len, flags, write_options)?;
+	writer.write_all(&additional_info)?;
 	writer.write_all(value)?;
 
 	Ok(())
 }
 
-fn write_encrypted<W>(
-	writer: &mut W,
-	name: &str,
-	value: &[u8],
-	flags: FrameFlags,
-	write_options: WriteOptions,
-) -> Result<(), FrameEncodingError>
-where
-	W: Write,
-{
-	// Guaranteed to be `Some` at this point.
-	let method_symbol = flags.encryption.unwrap();
+/// Verify the encryption method symbol, if there is one, and get the length of the decrypted data
+fn encryption_info(name: &str, flags: FrameFlags) -> Result<Option<u32>, FrameEncodingError> {
+	let Some(method_symbol) = flags.encryption else {
+		return Ok(None);
+	};
 
+	let id = FrameId::Valid(String::from(name).into());
 	if method_symbol <= 0x80 {
 		return Err(FrameEncodingError::message(
-			Some(FrameId::Valid(String::from(name).into())),
+			Some(id),
 			"attempted to write an encrypted frame with an invalid method symbol",
 		));
 	}
 
-	if let Some(mut len) = flags.data_length_indicator
-		&& len > 0
-	{
-		write_frame_header(writer, name, (value.len() + 1) as u32, flags, write_options)?;
-		if !write_options.use_id3v23 {
-			len = len.synch()?;
-		}
-
-		writer.write_u32::<BigEndian>(len)?;
-		writer.write_u8(method_symbol)?;
-		writer.write_all(value)?;
-
-		return Ok(());
+	match flags.data_length_indicator {
+		Some(len) if len > 0 => Ok(Some(len)),
+		_ => Err(FrameEncodingError::missing_data_length_indicator(id)),
 	}
-
-	Err(FrameEncodingError::missing_data_length_indicator(
-		FrameId::Valid(String::from(name).into()),
-	))
 }
 
 fn write_frame_header<W>(
-- 
2.43.0


From 1f177546b6f0d131ff9a532ace264b29a7b4fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 032/112] fix: allow OWNE and ETCO frames to be written

---
 lofty/src/id3/v2/write/frame.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 8beaac2..cce6622 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -278,6 +278,8 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 		| ("TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG", Frame::Timestamp(_))
 		| ("RVA2", Frame::RelativeVolumeAdjustment(_))
 		| ("PRIV", Frame::Private(_))
+		| ("OWNE", Frame::Ownership(_))
+		| ("ETCO", Frame::EventTimingCodes(_))
 		| ("CHAP", Frame::Chapter(_))
 		| ("CTOC", Frame::TableOfContents(_)) => Ok(()),
 		(id, Frame::Text { .. }) if id.starts_with('T') => Ok(()),
-- 
2.43.0


From ecf10717203591d87444ffd1f75b8ab3dd65e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 033/112] fix: refuse to save empty tags to formats that do not
 support them at all

---
 lofty/src/tag/tag_ext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/tag/tag_ext.rs b/lofty/src/tag/tag_ext.rs
index c77ecc6..f81c157 100644
--- a/lofty/src/tag/tag_ext.rs
+++ b/lofty/src/tag/tag_ext.rs
@@ -108,7 +108,8 @@ pub trait TagExt: Accessor + TagWriteExt + Into<Tag> + Sized + private::Sealed {
 		let file = VerifiedFile::new(file)?;
 
 		// Empty tag writes are allowed for read-only formats, since they'll be stripped
-		if !file.format().tag_support(self.tag_type()).is_writable() && !self.is_empty() {
+		let support = file.format().tag_support(self.tag_type());
+		if !support.is_writable() && !(support.is_readable() && self.is_empty()) {
 			return Err(FileEncodingError::from(UnsupportedTagError).with_format(file.format()));
 		}
 
-- 
2.43.0


From d64f34658778d1436d80344bd1e8907db159cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 034/112] fix: leave read-only tags alone when saving a file

---
 lofty/src/flac/mod.rs        |  7 +------
 lofty_attr/src/lofty_file.rs | 24 +++++++++++++++++-------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/lofty/src/flac/mod.rs b/lofty/src/flac/mod.rs
index aa01b3d..a31eb8e 100644
--- a/lofty/src/flac/mod.rs
+++ b/lofty/src/flac/mod.rs
@@ -18,7 +18,6 @@ use crate::io::VerifiedFile;
 use crate::ogg::OggPictureStorage;
 use crate::ogg::tag::{VorbisComments, VorbisCommentsRef};
 use crate::picture::{Picture, PictureInformation};
-use crate::tag::TagExt;
 use crate::util::io::FileLike;
 
 use std::borrow::Cow;
@@ -65,11 +64,7 @@ impl FlacFile {
 	where
 		F: FileLike,
 	{
-		// TODO: This is bad. `Id3v2Tag::save_to()` is probing the file, then we do a second probe with `VerifiedFile::new`
-		if let Some(ref id3v2) = self.id3v2_tag {
-			id3v2.save_to(file, write_options)?;
-			file.rewind()?;
-		}
+		// NOTE: ID3v2 tags are read-only in FLAC, so the existing one is left as it is
 
 		let file = VerifiedFile::new(file)?;
 
diff --git a/lofty_attr/src/lofty_file.rs b/lofty_attr/src/lofty_file.rs
index f72f127..2a56058 100644
--- a/lofty_attr/src/lofty_file.rs
+++ b/lofty_attr/src/lofty_file.rs
@@ -424,7 +424,7 @@ fn generate_audiofile_impl(file: &LoftyFile) -> syn::Result<proc_macro2::TokenSt
 
 	let tag_fields = &file.struct_info.fields.tags;
 
-	let save_to_body = get_save_to_body(file.audiofile_impl.write_fn.as_ref(), tag_fields);
+	let save_to_body = get_save_to_body(file, tag_fields);
 
 	let tag_exists = tag_exists_iter(tag_fields);
 	let tag_exists_2 = tag_exists_iter(tag_fields);
@@ -480,12 +480,9 @@ fn generate_audiofile_impl(file: &LoftyFile) -> syn::Result<proc_macro2::TokenSt
 	Ok(ret)
 }
 
-fn get_save_to_body(
-	write_fn: Option<&proc_macro2::TokenStream>,
-	tag_fields: &[FieldContents],
-) -> proc_macro2::TokenStream {
+fn get_save_to_body(file: &LoftyFile, tag_fields: &[FieldContents]) -> proc_macro2::TokenStream {
 	// Custom write fn
-	if let Some(write_fn) = write_fn {
+	if let Some(write_fn) = file.audiofile_impl.write_fn.as_ref() {
 		return quote! {
 			#write_fn(&self, file, write_options)
 		};
@@ -493,7 +490,7 @@ fn get_save_to_body(
 
 	let tag_field_save = tag_fields.iter().map(|f| {
 		let name = &f.name;
-		if f.needs_option {
+		let save = if f.needs_option {
 			quote! {
 				if let Some(ref tag) = self.#name {
 					file.rewind()?;
@@ -505,6 +502,19 @@ fn get_save_to_body(
 				file.rewind()?;
 				self.#name.save_to(file, write_options)?;
 			}
+		};
+
+		if !file.internal_details.has_internal_file_type {
+			return save;
+		}
+
+		// Any read-only tags that were read are skipped, like in `TaggedFile`
+		let file_type = &file.file_type;
+		let tag_type = &f.tag_type;
+		quote! {
+			if ::lofty::file::FileType::#file_type.tag_support(::lofty::tag::TagType::#tag_type).is_writable() {
+				#save
+			}
 		}
 	});
 	quote! {
-- 
2.43.0


From de5cb7a03d4422dd67f23b27ba2bbe464ffc8464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 035/112] fix: do not mistake the preamble of a 131 byte APE
 tag for an ID3v1 tag

---
 lofty/src/id3/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index c66d5cc..42f7bea 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -8,6 +8,7 @@
 pub mod v1;
 pub mod v2;
 
+use crate::ape::constants::APE_PREAMBLE;
 use crate::config::ParsingMode;
 use crate::error::TextDecodingError;
 use crate::id3::v1::error::Id3v1ParseError;
@@ -111,6 +112,26 @@ where
 	Ok(ID3FindResults(header, size))
 }
 
+/// Whether the "TAG" at the current position is the one in an APE tag preamble ("APETAGEX")
+///
+/// This is the case for any file ending with a 131 byte APE tag. The position is left unchanged.
+fn is_ape_preamble<R>(data: &mut R) -> Result<bool, std::io::Error>
+where
+	R: Read + Seek,
+{
+	let pos = data.stream_position()?;
+	if pos < 3 {
+		return Ok(false);
+	}
+
+	let mut preamble = [0; 8];
+	data.seek(SeekFrom::Current(-3))?;
+	data.read_exact(&mut preamble)?;
+	data.seek(SeekFrom::Start(pos))?;
+
+	Ok(&preamble == APE_PREAMBLE)
+}
+
 #[allow(unused_variables)]
 pub(crate) fn find_id3v1<R>(
 	data: &mut R,
@@ -137,7 +158,7 @@ where
 	data.seek(SeekFrom::Current(-3))?;
 
 	// No ID3v1 tag found
-	if id3v1_header != ID3V1_TAG_MARKER {
+	if id3v1_header != ID3V1_TAG_MARKER || is_ape_preamble(data)? {
 		data.seek(SeekFrom::End(0))?;
 		return Ok(ID3FindResults(header, id3v1));
 	}
-- 
2.43.0


From 7729395912a23aa6e54068cc1037edfc8505f4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 036/112] fix: keep the order of the remaining items when
 removing by key

VorbisComments::remove, Ilst::remove and FrameList::remove swapped the removed
entries to the front, which moved unrelated entries and so could change which
value of a multi-value field is the first one.
---
 lofty/src/id3/v2/frame/list.rs | 14 +++++---------
 lofty/src/mp4/ilst/mod.rs      | 14 +++++---------
 lofty/src/ogg/tag.rs           | 14 +++++---------
 3 files changed, 15 insertions(+), 27 deletions(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index cf16f10..c5f2284 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -327,16 +327,12 @@ impl<'a> FrameList<'a> {
 	/// ```
 	pub fn remove(&mut self, id: &FrameId<'_>) -> impl Iterator<Item = Frame<'a>> {
 		// TODO: drain_filter
-		let mut split_idx = 0_usize;
+		let (removed, kept): (Vec<_>, Vec<_>) = std::mem::take(self.0.to_mut())
+			.into_iter()
+			.partition(|frame| frame.id() == id);
+		self.0 = Cow::Owned(kept);
 
-		for read_idx in 0..self.0.len() {
-			if self.0[read_idx].id() == id {
-				self.0.to_mut().swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
-
-		self.0.to_mut().drain(..split_idx)
+		removed.into_iter()
 	}
 
 	/// Removes a certain [`PictureType`]
diff --git a/lofty/src/mp4/ilst/mod.rs b/lofty/src/mp4/ilst/mod.rs
index cd5b3db..c89ed43 100644
--- a/lofty/src/mp4/ilst/mod.rs
+++ b/lofty/src/mp4/ilst/mod.rs
@@ -273,16 +273,12 @@ impl Ilst {
 		ident: &AtomIdent<'_>,
 	) -> impl Iterator<Item = Atom<'static>> + use<'a> {
 		// TODO: drain_filter
-		let mut split_idx = 0_usize;
-
-		for read_idx in 0..self.atoms.len() {
-			if &self.atoms[read_idx].ident == ident {
-				self.atoms.swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
+		let (removed, kept): (Vec<_>, Vec<_>) = std::mem::take(&mut self.atoms)
+			.into_iter()
+			.partition(|atom| &atom.ident == ident);
+		self.atoms = kept;
 
-		self.atoms.drain(..split_idx)
+		removed.into_iter()
 	}
 
 	/// Retain atoms based on the predicate
diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index dc738cb..96d6074 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -304,16 +304,12 @@ impl VorbisComments {
 	/// ```
 	pub fn remove<'a>(&'a mut self, key: &str) -> impl Iterator<Item = String> + use<'a> {
 		// TODO: drain_filter
-		let mut split_idx = 0_usize;
+		let (removed, kept): (Vec<_>, Vec<_>) = std::mem::take(&mut self.items)
+			.into_iter()
+			.partition(|(k, _)| k.eq_ignore_ascii_case(key));
+		self.items = kept;
 
-		for read_idx in 0..self.items.len() {
-			if self.items[read_idx].0.eq_ignore_ascii_case(key) {
-				self.items.swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
-
-		self.items.drain(..split_idx).map(|(_, v)| v)
+		removed.into_iter().map(|(_, v)| v)
 	}
 }
 
-- 
2.43.0


From 40913e9053c92b4aa0919c399c25e5afd87b42e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 037/112] fix: make Id3v2Tag::set_date readable and replace
 timestamp frames by ID

set_date() inserted a plain text TDRC frame, which date() does not look at, and
frames with parsed text (timestamps, key/value lists) were only replaced when
their content was identical, although insert() replaces frames of the same ID.
---
 lofty/src/id3/v2/frame/list.rs | 5 ++++-
 lofty/src/id3/v2/tag.rs        | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index c5f2284..2e8c75b 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -242,7 +242,10 @@ impl<'a> FrameList<'a> {
 			"MCDI", "ETCO", "MLLT", "SYTC", "RVRB", "PCNT", "RBUF", "POSS", "OWNE", "SEEK", "ASPI",
 		];
 
-		if ONE_PER_TAG.contains(&frame.id_str()) {
+		// All text frames are identified by their ID alone, these just have parsed contents
+		let is_parsed_text = matches!(frame, Frame::Timestamp(_) | Frame::KeyValue(_));
+
+		if is_parsed_text || ONE_PER_TAG.contains(&frame.id_str()) {
 			let ret = self.remove(frame.id()).next();
 			self.push(frame);
 			return ret;
diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 06d0d69..30d7b44 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -491,7 +491,7 @@ impl Accessor for Id3v2Tag {
 	}
 
 	fn set_date(&mut self, value: Timestamp) {
-		self.insert(Frame::text(Cow::Borrowed("TDRC"), value.to_string()));
+		self.insert(new_timestamp_frame(RECORDING_TIME_ID, value));
 	}
 
 	fn remove_date(&mut self) {
-- 
2.43.0


From 865dd67448fd569c8f3b5915eef05aa7bf893d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 038/112] fix: look up RIFF INFO items case-insensitively

insert(), remove() and contains() already compare keys that way, so an inserted
item could be replaced or removed by a key it could not be retrieved with.
---
 lofty/src/iff/wav/tag/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 219cf9b..7b5f778 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -82,10 +82,12 @@ impl RiffInfoList {
 	}
 
 	/// Get an item by key
+	///
+	/// This will case-insensitively search for the key.
 	pub fn get(&self, key: &str) -> Option<&str> {
 		self.items
 			.iter()
-			.find(|(k, _)| k == key)
+			.find(|(k, _)| k.eq_ignore_ascii_case(key))
 			.map(|(_, v)| v.as_str())
 	}
 
-- 
2.43.0


From b867d36db793d78c03a056410c424804eb2cff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 039/112] fix: AiffTextChunks::remove_comment removes COMT
 comments as well

comment() also returns those, so it kept returning a comment after the removal.
---
 lofty/src/iff/aiff/tag/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lofty/src/iff/aiff/tag/mod.rs b/lofty/src/iff/aiff/tag/mod.rs
index 624d412..8646098 100644
--- a/lofty/src/iff/aiff/tag/mod.rs
+++ b/lofty/src/iff/aiff/tag/mod.rs
@@ -123,6 +123,7 @@ impl Accessor for AiffTextChunks {
 	}
 	fn remove_comment(&mut self) {
 		self.annotations = None;
+		self.comments = None;
 	}
 }
 
-- 
2.43.0


From 0d0e414039c0f83a88943bd91b1a62bde036efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:54 +0000
Subject: [PATCH 040/112] fix: keep the existing icon when a new one is refused

OggPictureStorage::insert_picture removed the icon it was going to replace
before it found out that the new picture cannot be stored.
---
 lofty/src/ogg/picture_storage.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lofty/src/ogg/picture_storage.rs b/lofty/src/ogg/picture_storage.rs
index 3e60a86..a3deae0 100644
--- a/lofty/src/ogg/picture_storage.rs
+++ b/lofty/src/ogg/picture_storage.rs
@@ -24,6 +24,11 @@ pub trait OggPictureStorage: private::Sealed {
 		picture: Picture,
 		information: Option<PictureInformation>,
 	) -> Result<Option<(Picture, PictureInformation)>, PictureParseError> {
+		let info = match information {
+			Some(pic_info) => pic_info,
+			None => PictureInformation::from_picture(&picture)?,
+		};
+
 		let ret = match picture.pic_type {
 			PictureType::Icon | PictureType::OtherIcon => self
 				.pictures()
@@ -33,11 +38,6 @@ pub trait OggPictureStorage: private::Sealed {
 			_ => None,
 		};
 
-		let info = match information {
-			Some(pic_info) => pic_info,
-			None => PictureInformation::from_picture(&picture)?,
-		};
-
 		self.pictures_mut().push((picture, info));
 
 		Ok(ret)
-- 
2.43.0


From 0f766a4ecd26a0080080f0889b4212724460b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 041/112] fix: keep icons unique in
 OggPictureStorage::set_picture

---
 lofty/src/ogg/picture_storage.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lofty/src/ogg/picture_storage.rs b/lofty/src/ogg/picture_storage.rs
index a3deae0..85c5b98 100644
--- a/lofty/src/ogg/picture_storage.rs
+++ b/lofty/src/ogg/picture_storage.rs
@@ -68,6 +68,9 @@ pub trait OggPictureStorage: private::Sealed {
 	/// NOTE: If `index` is out of bounds, the `picture` will be appended
 	/// to the list.
 	///
+	/// NOTE: As with [`OggPictureStorage::insert_picture`], any other [`PictureType::Icon`] or
+	/// [`PictureType::OtherIcon`] is removed when a picture of that type is set.
+	///
 	/// # Examples
 	///
 	/// ```rust
@@ -116,7 +119,17 @@ pub trait OggPictureStorage: private::Sealed {
 			// Safe to unwrap, since `info` is guaranteed to exist
 			self.insert_picture(picture, Some(info)).unwrap();
 		} else {
+			let pic_type = picture.pic_type;
 			self.pictures_mut()[index] = (picture, info);
+
+			// There can only be one of each icon
+			if matches!(pic_type, PictureType::Icon | PictureType::OtherIcon) {
+				let mut pos = 0;
+				self.pictures_mut().retain(|(p, _)| {
+					pos += 1;
+					pos - 1 == index || p.pic_type != pic_type
+				});
+			}
 		}
 	}
 
-- 
2.43.0


From 25e6e90f439655f9b337567d082e4c604e3003e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 042/112] fix: ID3v2: Keep the movement number and total in the
 conversion from Tag

---
 lofty/src/id3/v2/tag.rs            |  1 +
 lofty/src/id3/v2/tag/conversion.rs | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 30d7b44..2efdcdb 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -384,6 +384,7 @@ const ALBUM_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TALB"));
 const GENRE_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TCON"));
 const TRACK_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TRCK"));
 const DISC_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TPOS"));
+const MOVEMENT_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("MVIN"));
 const RECORDING_TIME_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("TDRC"));
 pub(super) const ATTACHED_PICTURE_ID: FrameId<'static> = FrameId::Valid(Cow::Borrowed("APIC"));
 
diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 093c693..a66960b 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -285,6 +285,15 @@ pub(crate) fn from_tag<'a>(
 				None
 			},
 
+			ItemKey::MovementNumber => {
+				ctx.movement_number = parse_number(&item);
+				None
+			},
+			ItemKey::MovementTotal => {
+				ctx.movement_total = parse_number(&item);
+				None
+			},
+
 			ItemKey::MusicBrainzRecordingId => {
 				let (recording_id, _) = take_item_text_and_description(item)?;
 
@@ -371,6 +380,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: Option<u32>,
 		disc_number: Option<u32>,
 		disc_total: Option<u32>,
+		movement_number: Option<u32>,
+		movement_total: Option<u32>,
 	}
 
 	#[derive(Hash, PartialEq, Eq)]
@@ -393,6 +404,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: None,
 		disc_number: None,
 		disc_total: None,
+		movement_number: None,
+		movement_total: None,
 	};
 
 	let mut frames = HashSet::with_capacity(items.len());
@@ -446,6 +459,14 @@ pub(crate) fn from_tag<'a>(
 		frames.insert(disc_frame);
 	}
 
+	if let Some(movement_frame) = new_number_pair_frame(
+		super::MOVEMENT_ID,
+		ctx.movement_number,
+		ctx.movement_total,
+	) {
+		frames.insert(movement_frame);
+	}
+
 	frames
 }
 
-- 
2.43.0


From 9206449ef82f5db9df252527dc5da2a0c25c575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 043/112] fix: ID3v2: Keep every item that maps to a TXXX
 description in the conversion from Tag

---
 lofty/src/id3/v2/tag/conversion.rs | 31 ++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index a66960b..4b15fd8 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -338,20 +338,23 @@ pub(crate) fn from_tag<'a>(
 
 			// Anything else
 			_ => {
-				if let Some(mapped) = item_key.map_key(TagType::Id3v2)
-					&& mapped.len() == 4
-				{
-					let id = FrameId::new(mapped).ok()?;
-
-					if id.as_str().starts_with('T') {
-						let (value, _) = take_item_text_and_description(item)?;
-						return Some(new_text_frame(id, value));
-					}
-
-					if id.as_str().starts_with('W') {
-						let (value, _) = take_item_text_and_description(item)?;
-						return Some(new_url_frame(id, value));
-					}
+				let mapped = item_key.map_key(TagType::Id3v2)?;
+				if mapped.len() != 4 {
+					// Not a frame ID, so it's the description of a TXXX frame
+					let (value, _) = take_item_text_and_description(item)?;
+					return Some(new_user_text_frame(Cow::Borrowed(mapped), value));
+				}
+
+				let id = FrameId::new(mapped).ok()?;
+
+				if id.as_str().starts_with('T') {
+					let (value, _) = take_item_text_and_description(item)?;
+					return Some(new_text_frame(id, value));
+				}
+
+				if id.as_str().starts_with('W') {
+					let (value, _) = take_item_text_and_description(item)?;
+					return Some(new_url_frame(id, value));
 				}
 
 				None
-- 
2.43.0


From aeec45a47b49a365ef34d4b374287f93b150ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:07 +0000
Subject: [PATCH 044/112] fix: APE: Don't read MOVEMENTTOTAL as the movement
 number

---
 lofty/src/ape/tag/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index e4fc6f8..19682f0 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -555,7 +555,7 @@ impl SplitTag for ApeTag {
 					*item = ApeItem::EMPTY;
 					false // Item consumed
 				},
-				(ItemKey::MovementNumber | ItemKey::MovementTotal, ItemValue::Text(val))
+				(ItemKey::MovementNumber, ItemValue::Text(val))
 					if split_pair(
 						val,
 						&mut tag,
-- 
2.43.0


From b60a00a903678f5f6cfa43e979597fcf3688338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:30 +0000
Subject: [PATCH 045/112] fix: ID3v1: Only convert genre numbers that are in
 GENRES

---
 lofty/src/id3/v1/tag.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v1/tag.rs b/lofty/src/id3/v1/tag.rs
index 4f773dc..40a20ca 100644
--- a/lofty/src/id3/v1/tag.rs
+++ b/lofty/src/id3/v1/tag.rs
@@ -369,7 +369,8 @@ impl From<Tag> for Id3v1Tag {
 						.position(|v| v == &g)
 						.map_or_else(|| g.parse::<u8>().ok(), |p| Some(p as u8))
 				})
-				.and_then(|g| g),
+				.and_then(|g| g)
+				.filter(|g| usize::from(*g) < GENRES.len()),
 		}
 	}
 }
@@ -421,7 +422,8 @@ impl<'a> Into<Id3v1TagRef<'a>> for &'a Tag {
 						.position(|v| v == &g)
 						.map_or_else(|| g.parse::<u8>().ok(), |p| Some(p as u8))
 				})
-				.and_then(|g| g),
+				.and_then(|g| g)
+				.filter(|g| usize::from(*g) < GENRES.len()),
 		}
 	}
 }
-- 
2.43.0


From d8abe7e88bbcf4cb2bc10d2859d8e6ac9ec81fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 046/112] fix: ID3v2: Store Work as TXXX:WORK, as WORK is not a
 frame ID

---
 lofty/src/id3/v2/tag/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 4b15fd8..4014270 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -135,7 +135,6 @@ pub(crate) fn from_tag<'a>(
 			| ItemKey::InternetRadioStationName
 			| ItemKey::InternetRadioStationOwner
 			| ItemKey::Remixer
-			| ItemKey::Work
 			| ItemKey::Movement
 			| ItemKey::FileOwner
 			| ItemKey::CopyrightMessage
@@ -165,6 +164,7 @@ pub(crate) fn from_tag<'a>(
 			| ItemKey::MusicBrainzWorkId
 			| ItemKey::MusicBrainzReleaseType
 			| ItemKey::ReleaseCountry
+			| ItemKey::Work
 			| ItemKey::Barcode => {
 				let (value, _) = take_item_text_and_description(item)?;
 
-- 
2.43.0


From 5f668ece9fbb08d60a38618e700589e9b71ca044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 047/112] fix: ID3v2: Keep the description of every value of a
 comment or lyrics frame when splitting

---
 lofty/src/id3/v2/tag.rs            | 2 +-
 lofty/src/id3/v2/tag/conversion.rs | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 2efdcdb..b59d9b5 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -821,7 +821,7 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 				item.set_lang(*language);
 
 				if *description != EMPTY_CONTENT_DESCRIPTOR {
-					item.set_description(std::mem::take(description).into_owned());
+					item.set_description(description.to_string());
 				}
 
 				tag.items.push(item);
diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 4014270..9e5afc7 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -462,11 +462,9 @@ pub(crate) fn from_tag<'a>(
 		frames.insert(disc_frame);
 	}
 
-	if let Some(movement_frame) = new_number_pair_frame(
-		super::MOVEMENT_ID,
-		ctx.movement_number,
-		ctx.movement_total,
-	) {
+	if let Some(movement_frame) =
+		new_number_pair_frame(super::MOVEMENT_ID, ctx.movement_number, ctx.movement_total)
+	{
 		frames.insert(movement_frame);
 	}
 
-- 
2.43.0


From 256f6f19dbb3fe3a9cb85bfa26fc982e4cef3f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:51 +0000
Subject: [PATCH 048/112] fix: ID3v2: Keep track and disc numbers that are no
 numbers when merging

---
 lofty/src/id3/v2/tag/conversion.rs | 32 +++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 9e5afc7..9f919af 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -106,9 +106,13 @@ pub(crate) fn from_tag<'a>(
 			}
 		}
 
-		fn parse_number(item: &TagItem) -> Option<u32> {
+		/// Normalizes a number, leaving anything else (e.g. the side of a record: `A1`) as it is
+		fn number_text(item: &TagItem) -> Option<String> {
 			let text = item.item_value.text()?;
-			text.parse().ok()
+			Some(
+				text.parse::<u32>()
+					.map_or_else(|_| text.to_string(), |number| number.to_string()),
+			)
 		}
 
 		let item_key = item.key();
@@ -269,28 +273,28 @@ pub(crate) fn from_tag<'a>(
 			},
 
 			ItemKey::TrackNumber => {
-				ctx.track_number = parse_number(&item);
+				ctx.track_number = number_text(&item);
 				None
 			},
 			ItemKey::TrackTotal => {
-				ctx.track_total = parse_number(&item);
+				ctx.track_total = number_text(&item);
 				None
 			},
 			ItemKey::DiscNumber => {
-				ctx.disc_number = parse_number(&item);
+				ctx.disc_number = number_text(&item);
 				None
 			},
 			ItemKey::DiscTotal => {
-				ctx.disc_total = parse_number(&item);
+				ctx.disc_total = number_text(&item);
 				None
 			},
 
 			ItemKey::MovementNumber => {
-				ctx.movement_number = parse_number(&item);
+				ctx.movement_number = number_text(&item);
 				None
 			},
 			ItemKey::MovementTotal => {
-				ctx.movement_total = parse_number(&item);
+				ctx.movement_total = number_text(&item);
 				None
 			},
 
@@ -379,12 +383,12 @@ pub(crate) fn from_tag<'a>(
 		unsync_text: HashMap<LanguageAndDescription<'a>, Cow<'a, str>>,
 
 		// Number frames need to be merged
-		track_number: Option<u32>,
-		track_total: Option<u32>,
-		disc_number: Option<u32>,
-		disc_total: Option<u32>,
-		movement_number: Option<u32>,
-		movement_total: Option<u32>,
+		track_number: Option<String>,
+		track_total: Option<String>,
+		disc_number: Option<String>,
+		disc_total: Option<String>,
+		movement_number: Option<String>,
+		movement_total: Option<String>,
 	}
 
 	#[derive(Hash, PartialEq, Eq)]
-- 
2.43.0


From 993330d533c18dccf173c021f6fe92e68377975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:52 +0000
Subject: [PATCH 049/112] fix: APE: Keep track and disc numbers that are no
 numbers when merging

---
 lofty/src/ape/tag/mod.rs | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index 19682f0..aa6a3cf 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -271,10 +271,10 @@ impl ApeTag {
 
 	fn insert_item(&mut self, item: TagItem) {
 		match item.key() {
-			ItemKey::TrackNumber => set_number(&item, |number| self.set_track(number)),
-			ItemKey::TrackTotal => set_number(&item, |number| self.set_track_total(number)),
-			ItemKey::DiscNumber => set_number(&item, |number| self.set_disk(number)),
-			ItemKey::DiscTotal => set_number(&item, |number| self.set_disk_total(number)),
+			ItemKey::TrackNumber => self.insert_pair_text("Track", &item, false),
+			ItemKey::TrackTotal => self.insert_pair_text("Track", &item, true),
+			ItemKey::DiscNumber => self.insert_pair_text("Disc", &item, false),
+			ItemKey::DiscTotal => self.insert_pair_text("Disc", &item, true),
 
 			// Normalize flag items
 			ItemKey::FlagCompilation => {
@@ -316,6 +316,35 @@ impl ApeTag {
 		(None, None)
 	}
 
+	/// Sets one half of a number pair, which doesn't necessarily have to be a number
+	fn insert_pair_text(&mut self, key: &'static str, item: &TagItem, is_total: bool) {
+		let text = item.value().text().unwrap_or_default().trim();
+		if text.is_empty() {
+			return;
+		}
+
+		// Numbers are normalized, anything else (e.g. the side of a record: `A1`) is left as it is
+		let mut text = text.to_string();
+		set_number(item, |number| text = number.to_string());
+
+		let existing = self.get(key).and_then(|item| item.value.text());
+		let (number, total) = match existing.map(|pair| pair.split_once('/').ok_or(pair)) {
+			Some(Ok((number, total))) => (Some(number), Some(total)),
+			Some(Err(number)) => (Some(number), None),
+			None => (None, None),
+		};
+
+		let pair = if is_total {
+			format_number_pair(number, Some(&*text))
+		} else {
+			format_number_pair(Some(&*text), total)
+		};
+
+		if let Some(pair) = pair {
+			self.insert(ApeItem::text(key, pair));
+		}
+	}
+
 	fn insert_number_pair(&mut self, key: &'static str, number: Option<u32>, total: Option<u32>) {
 		if let Some(value) = format_number_pair(number, total) {
 			self.insert(ApeItem::text(key, value));
-- 
2.43.0


From cad66b6cff378fe00d4832e32ef05d6a74f6a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:52 +0000
Subject: [PATCH 050/112] fix: ID3v2: Don't take a TXXX description for a frame
 ID when splitting

---
 lofty/src/id3/v2/tag.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index b59d9b5..8bc7db5 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -745,6 +745,11 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 				return FRAME_RETAINED;
 			};
 
+			// The description may happen to be the ID of an actual frame, it isn't one
+			if description.len() == 4 && item_key != ItemKey::Work {
+				return FRAME_RETAINED;
+			}
+
 			for c in content.split(V4_MULTI_VALUE_SEPARATOR) {
 				tag.items.push(TagItem::new(
 					item_key,
-- 
2.43.0


From 6f8e17a76097bb1ec06aac59a496abba97edd088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:52 +0000
Subject: [PATCH 051/112] fix: Vorbis Comments: Convert ratings without an
 email to popularimeters

---
 lofty/src/ogg/tag.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index 96d6074..995f33f 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -540,13 +540,10 @@ impl SplitTag for VorbisComments {
 		self.items.retain_mut(|(k, v)| {
 			let key;
 			match ItemKey::from_key(TagType::VorbisComments, k) {
-				Some(k) => key = k,
-				// Special case for ratings with associated emails (RATING:foo@example.com). Ratings
-				// without emails are handled by `ItemKey::from_key`.
-				None if k.starts_with("RATING:") => {
-					let Some((_, email)) = k.split_once(':') else {
-						return ITEM_RETAINED;
-					};
+				Some(k) if k != ItemKey::Popularimeter => key = k,
+				// Special case for ratings, with (RATING:foo@example.com) or without associated emails.
+				popm if popm.is_some() || k.starts_with("RATING:") => {
+					let email = k.split_once(':').map_or("", |(_, email)| email);
 
 					let Ok(value) = v.parse::<u8>() else {
 						log::warn!(
@@ -572,7 +569,7 @@ impl SplitTag for VorbisComments {
 					));
 					return ITEM_CONSUMED;
 				},
-				None => return ITEM_RETAINED,
+				_ => return ITEM_RETAINED,
 			}
 
 			let v = std::mem::take(v);
-- 
2.43.0


From c1fb570b5cfcdef89ff18696c29a4794178754ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 052/112] fix: RIFF INFO: Keep a rating that was read when
 saving the generic tag

---
 lofty/src/iff/wav/tag/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 7b5f778..2daf208 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -370,8 +370,8 @@ pub(crate) fn tagitems_into_riff<'a>(
 		// Special case for generic popularimeters
 		if i.key() == ItemKey::Popularimeter {
 			let Ok(popm) = Popularimeter::from_str(val) else {
-				log::warn!("Failed to parse popularimeter during tag merge, skipping");
-				return None;
+				// Already the rating itself, as it was read
+				return Some((key, Cow::Borrowed(val.as_str())));
 			};
 
 			return Some((
-- 
2.43.0


From 2f2b4471c40fcbc8e0223588e003bf628a36839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 053/112] fix: APE: Save generic tags the way the conversion
 stores them

Several values of a key and pictures were lost, numbers and flags were stored unnormalized
---
 lofty/src/ape/tag/mod.rs       | 37 +---------------------------------
 lofty/src/id3/v2/util/pairs.rs | 10 +--------
 lofty/src/tag/mod.rs           |  2 +-
 lofty/src/tag/utils.rs         |  9 ++-------
 lofty_attr/src/internal.rs     | 10 ++++-----
 5 files changed, 10 insertions(+), 58 deletions(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index aa6a3cf..30ceb53 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -8,8 +8,7 @@ use crate::ape::tag::error::ApeTagEncodingError;
 use crate::ape::tag::item::{ApeItem, ApeItemRef};
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
-use crate::id3::v2::util::pairs::{NUMBER_PAIR_KEYS, format_number_pair, set_number};
-use crate::tag::item::ItemValueRef;
+use crate::id3::v2::util::pairs::{format_number_pair, set_number};
 use crate::tag::items::Timestamp;
 use crate::tag::{
 	Accessor, ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem, TagType, TagWriteExt,
@@ -695,40 +694,6 @@ where
 	}
 }
 
-pub(crate) fn tagitems_into_ape(tag: &Tag) -> impl Iterator<Item = ApeItemRef<'_>> {
-	fn create_apeitemref_for_number_pair<'a>(
-		number: Option<&str>,
-		total: Option<&str>,
-		key: &'a str,
-	) -> Option<ApeItemRef<'a>> {
-		format_number_pair(number, total).map(|value| ApeItemRef {
-			read_only: false,
-			key,
-			value: ItemValueRef::Text(Cow::Owned(value)),
-		})
-	}
-
-	tag.items()
-		.filter(|item| !NUMBER_PAIR_KEYS.contains(&item.key()))
-		.filter_map(|i| {
-			i.key().map_key(TagType::Ape).map(|key| ApeItemRef {
-				read_only: false,
-				key,
-				value: (&i.item_value).into(),
-			})
-		})
-		.chain(create_apeitemref_for_number_pair(
-			tag.get_string(ItemKey::TrackNumber),
-			tag.get_string(ItemKey::TrackTotal),
-			"Track",
-		))
-		.chain(create_apeitemref_for_number_pair(
-			tag.get_string(ItemKey::DiscNumber),
-			tag.get_string(ItemKey::DiscTotal),
-			"Disc",
-		))
-}
-
 #[cfg(test)]
 mod tests {
 	use crate::ape::{ApeItem, ApeTag};
diff --git a/lofty/src/id3/v2/util/pairs.rs b/lofty/src/id3/v2/util/pairs.rs
index 2fb9e0b..e5cb7c9 100644
--- a/lofty/src/id3/v2/util/pairs.rs
+++ b/lofty/src/id3/v2/util/pairs.rs
@@ -1,7 +1,7 @@
 //! Contains utilities for ID3v2 style number pairs
 
 use crate::id3::v2::{Frame, FrameId};
-use crate::tag::{ItemKey, TagItem};
+use crate::tag::TagItem;
 
 use crate::id3::v2::tag::new_text_frame;
 use std::fmt::Display;
@@ -11,14 +11,6 @@ pub(crate) const NUMBER_PAIR_SEPARATOR: char = '/';
 // This is used as the default number of track and disk.
 pub(crate) const DEFAULT_NUMBER_IN_PAIR: u32 = 0;
 
-// These keys have the part of the number pair.
-pub(crate) const NUMBER_PAIR_KEYS: &[ItemKey] = &[
-	ItemKey::TrackNumber,
-	ItemKey::TrackTotal,
-	ItemKey::DiscNumber,
-	ItemKey::DiscTotal,
-];
-
 pub(crate) fn new_number_pair_frame<N, T>(
 	id: FrameId<'_>,
 	number: Option<N>,
diff --git a/lofty/src/tag/mod.rs b/lofty/src/tag/mod.rs
index 7eb052f..55b6e70 100644
--- a/lofty/src/tag/mod.rs
+++ b/lofty/src/tag/mod.rs
@@ -5,7 +5,7 @@ pub(crate) mod companion_tag;
 pub(crate) mod item;
 pub mod items;
 mod split_merge_tag;
-mod tag_ext;
+pub(crate) mod tag_ext;
 mod tag_type;
 pub(crate) mod utils;
 
diff --git a/lofty/src/tag/utils.rs b/lofty/src/tag/utils.rs
index be3fa96..e31b611 100644
--- a/lofty/src/tag/utils.rs
+++ b/lofty/src/tag/utils.rs
@@ -1,3 +1,4 @@
+use crate::ape::ApeTag;
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
 use crate::file::FileType;
@@ -10,7 +11,6 @@ use crate::ogg::tag::VorbisComments;
 use crate::tag::{Tag, TagExt, TagType};
 use crate::util::io::FileLike;
 use crate::{aac, ape, flac, iff, mpeg, musepack, wavpack};
-use ape::tag::ApeTagRef;
 use iff::aiff::tag::AiffTextChunksRef;
 use iff::wav::tag::RIFFInfoListRef;
 
@@ -53,12 +53,7 @@ pub(crate) fn dump_tag<W: Write>(
 	write_options: WriteOptions,
 ) -> Result<(), TagEncodingError> {
 	match tag.tag_type() {
-		TagType::Ape => ApeTagRef {
-			read_only: false,
-			items: ape::tag::tagitems_into_ape(tag),
-		}
-		.dump_to(writer, write_options)
-		.map_err(Into::into),
+		TagType::Ape => TagExt::dump_to(&ApeTag::from(tag.clone()), writer, write_options),
 		TagType::Id3v1 => Into::<Id3v1TagRef<'_>>::into(tag)
 			.dump_to(writer, write_options)
 			.map_err(Into::into),
diff --git a/lofty_attr/src/internal.rs b/lofty_attr/src/internal.rs
index 996aba7..3cab4b1 100644
--- a/lofty_attr/src/internal.rs
+++ b/lofty_attr/src/internal.rs
@@ -43,11 +43,11 @@ pub(crate) fn init_write_lookup(
 	}
 
 	insert!(map, Ape, {
-		lofty::ape::tag::ApeTagRef {
-			read_only: false,
-			items: lofty::ape::tag::tagitems_into_ape(tag),
-		}
-		.write_to(file, write_options)
+		lofty::tag::tag_ext::TagWriteExt::save_to(
+			&lofty::ape::ApeTag::from(tag.clone()),
+			file,
+			write_options,
+		)
 	});
 
 	insert!(map, Id3v1, {
-- 
2.43.0


From 78fc2c2ae9f51d7e26fed528f76571671fbadd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:24 +0000
Subject: [PATCH 054/112] fix: ID3v2: Save generic tags the way the conversion
 stores them

A TIPL frame in the companion tag and one from the items were both written, and locators were dropped
---
 lofty/src/id3/v2/tag/conversion.rs | 52 ++----------------------------
 lofty/src/tag/utils.rs             | 10 ++----
 lofty_attr/src/internal.rs         | 10 +++---
 3 files changed, 10 insertions(+), 62 deletions(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 9f919af..4600db0 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -4,13 +4,12 @@ use crate::error::FileEncodingError;
 use crate::id3::v2::frame::MUSICBRAINZ_UFID_OWNER;
 use crate::id3::v2::util::pairs::new_number_pair_frame;
 use crate::id3::v2::{
-	AttachedPictureFrame, CommentFrame, Frame, FrameId, Id3v2TagFlags, KeyValueFrame,
-	PopularimeterFrame, UniqueFileIdentifierFrame, UnsynchronizedTextFrame, write,
+	CommentFrame, Frame, FrameId, Id3v2TagFlags, KeyValueFrame, PopularimeterFrame,
+	UniqueFileIdentifierFrame, UnsynchronizedTextFrame, write,
 };
 use crate::io::{FileLike, VerifiedFile};
 use crate::prelude::ItemKey;
-use crate::tag::companion_tag::CompanionTag;
-use crate::tag::{Tag, TagItem, TagType};
+use crate::tag::{TagItem, TagType};
 
 use super::V4_MULTI_VALUE_SEPARATOR;
 use crate::id3::v2::error::Id3v2EncodingError;
@@ -475,51 +474,6 @@ pub(crate) fn from_tag<'a>(
 	frames
 }
 
-// Create an iterator of FrameRef from a Tag's items for Id3v2TagRef::new
-pub(crate) fn tag_frames(tag: &Tag) -> impl Iterator<Item = Frame<'_>> {
-	#[derive(Clone)]
-	enum CompanionTagIter<F, E> {
-		Filled(F),
-		Empty(E),
-	}
-
-	impl<'a, I> Iterator for CompanionTagIter<I, std::iter::Empty<Frame<'_>>>
-	where
-		I: Iterator<Item = Frame<'a>>,
-	{
-		type Item = Frame<'a>;
-
-		fn next(&mut self) -> Option<Self::Item> {
-			match self {
-				CompanionTagIter::Filled(iter) => iter.next(),
-				CompanionTagIter::Empty(_) => None,
-			}
-		}
-	}
-
-	fn create_framerefs_for_companion_tag(
-		companion: Option<&CompanionTag>,
-	) -> impl IntoIterator<Item = Frame<'_>> + Clone {
-		match companion {
-			Some(CompanionTag::Id3v2(companion)) => {
-				CompanionTagIter::Filled(companion.frames.iter().map(Frame::borrow))
-			},
-			_ => CompanionTagIter::Empty(std::iter::empty()),
-		}
-	}
-
-	let items = from_tag(tag.items().map(Cow::Borrowed)).into_iter().chain(
-		create_framerefs_for_companion_tag(tag.companion_tag.as_ref()),
-	);
-
-	let pictures = tag
-		.pictures()
-		.iter()
-		.map(|p| Frame::Picture(AttachedPictureFrame::new(TextEncoding::UTF8, p)));
-
-	items.chain(pictures)
-}
-
 impl<'a, I: Iterator<Item = Frame<'a>> + 'a> Id3v2TagRef<'a, I> {
 	pub(crate) fn write_to<F>(
 		&mut self,
diff --git a/lofty/src/tag/utils.rs b/lofty/src/tag/utils.rs
index e31b611..988a324 100644
--- a/lofty/src/tag/utils.rs
+++ b/lofty/src/tag/utils.rs
@@ -3,8 +3,7 @@ use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
 use crate::file::FileType;
 use crate::id3::v1::tag::Id3v1TagRef;
-use crate::id3::v2::tag::conversion::Id3v2TagRef;
-use crate::id3::v2::{self, Id3v2TagFlags};
+use crate::id3::v2::Id3v2Tag;
 use crate::io::VerifiedFile;
 use crate::mp4::Ilst;
 use crate::ogg::tag::VorbisComments;
@@ -57,12 +56,7 @@ pub(crate) fn dump_tag<W: Write>(
 		TagType::Id3v1 => Into::<Id3v1TagRef<'_>>::into(tag)
 			.dump_to(writer, write_options)
 			.map_err(Into::into),
-		TagType::Id3v2 => Id3v2TagRef {
-			flags: Id3v2TagFlags::default(),
-			frames: v2::tag::conversion::tag_frames(tag).peekable(),
-		}
-		.dump_to(writer, write_options)
-		.map_err(Into::into),
+		TagType::Id3v2 => TagExt::dump_to(&Id3v2Tag::from(tag.clone()), writer, write_options),
 		TagType::Mp4Ilst => Into::<Ilst>::into(tag.clone())
 			.as_ref()
 			.dump_to(writer, write_options)
diff --git a/lofty_attr/src/internal.rs b/lofty_attr/src/internal.rs
index 3cab4b1..056e234 100644
--- a/lofty_attr/src/internal.rs
+++ b/lofty_attr/src/internal.rs
@@ -60,11 +60,11 @@ pub(crate) fn init_write_lookup(
 		});
 	} else {
 		insert!(map, Id3v2, {
-			lofty::id3::v2::tag::conversion::Id3v2TagRef {
-				flags: lofty::id3::v2::Id3v2TagFlags::default(),
-				frames: lofty::id3::v2::tag::conversion::tag_frames(tag).peekable(),
-			}
-			.write_to(file, write_options)
+			lofty::tag::tag_ext::TagWriteExt::save_to(
+				&lofty::id3::v2::Id3v2Tag::from(tag.clone()),
+				file,
+				write_options,
+			)
 		});
 	}
 
-- 
2.43.0


From 64170d1cd07a4fdf59645742ef79a22553142c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:46 +0000
Subject: [PATCH 055/112] fix: Save generic ID3v1 and AIFF text tags the way
 the conversion stores them

Locators were dropped
---
 lofty/src/id3/v1/tag.rs    | 29 -----------------------------
 lofty/src/tag/utils.rs     | 22 +++++-----------------
 lofty_attr/src/internal.rs | 19 ++++++++++---------
 3 files changed, 15 insertions(+), 55 deletions(-)

diff --git a/lofty/src/id3/v1/tag.rs b/lofty/src/id3/v1/tag.rs
index 40a20ca..507b256 100644
--- a/lofty/src/id3/v1/tag.rs
+++ b/lofty/src/id3/v1/tag.rs
@@ -399,35 +399,6 @@ impl<'a> Into<Id3v1TagRef<'a>> for &'a Id3v1Tag {
 	}
 }
 
-impl<'a> Into<Id3v1TagRef<'a>> for &'a Tag {
-	fn into(self) -> Id3v1TagRef<'a> {
-		Id3v1TagRef {
-			title: self.get_string(ItemKey::TrackTitle),
-			artist: self.get_string(ItemKey::TrackArtist),
-			album: self.get_string(ItemKey::AlbumTitle),
-			year: self
-				.get_string(ItemKey::Year)
-				.and_then(|year| year.parse().ok())
-				.or_else(|| self.date().map(|date| date.year)),
-			comment: self.get_string(ItemKey::Comment),
-			track_number: self
-				.get_string(ItemKey::TrackNumber)
-				.map(|g| g.parse::<u8>().ok())
-				.and_then(|g| g),
-			genre: self
-				.get_string(ItemKey::Genre)
-				.map(|g| {
-					GENRES
-						.iter()
-						.position(|v| v == &g)
-						.map_or_else(|| g.parse::<u8>().ok(), |p| Some(p as u8))
-				})
-				.and_then(|g| g)
-				.filter(|g| usize::from(*g) < GENRES.len()),
-		}
-	}
-}
-
 impl Id3v1TagRef<'_> {
 	pub(super) fn is_empty(&self) -> bool {
 		self.title.is_none()
diff --git a/lofty/src/tag/utils.rs b/lofty/src/tag/utils.rs
index 988a324..48663bb 100644
--- a/lofty/src/tag/utils.rs
+++ b/lofty/src/tag/utils.rs
@@ -2,7 +2,7 @@ use crate::ape::ApeTag;
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
 use crate::file::FileType;
-use crate::id3::v1::tag::Id3v1TagRef;
+use crate::id3::v1::Id3v1Tag;
 use crate::id3::v2::Id3v2Tag;
 use crate::io::VerifiedFile;
 use crate::mp4::Ilst;
@@ -10,7 +10,7 @@ use crate::ogg::tag::VorbisComments;
 use crate::tag::{Tag, TagExt, TagType};
 use crate::util::io::FileLike;
 use crate::{aac, ape, flac, iff, mpeg, musepack, wavpack};
-use iff::aiff::tag::AiffTextChunksRef;
+use iff::aiff::AiffTextChunks;
 use iff::wav::tag::RIFFInfoListRef;
 
 use std::io::Write;
@@ -53,9 +53,7 @@ pub(crate) fn dump_tag<W: Write>(
 ) -> Result<(), TagEncodingError> {
 	match tag.tag_type() {
 		TagType::Ape => TagExt::dump_to(&ApeTag::from(tag.clone()), writer, write_options),
-		TagType::Id3v1 => Into::<Id3v1TagRef<'_>>::into(tag)
-			.dump_to(writer, write_options)
-			.map_err(Into::into),
+		TagType::Id3v1 => TagExt::dump_to(&Id3v1Tag::from(tag.clone()), writer, write_options),
 		TagType::Id3v2 => TagExt::dump_to(&Id3v2Tag::from(tag.clone()), writer, write_options),
 		TagType::Mp4Ilst => Into::<Ilst>::into(tag.clone())
 			.as_ref()
@@ -70,18 +68,8 @@ pub(crate) fn dump_tag<W: Write>(
 		.dump_to(writer, write_options)
 		.map_err(Into::into),
 		TagType::AiffText => {
-			use crate::tag::item::ItemKey;
-
-			AiffTextChunksRef {
-				name: tag.get_string(ItemKey::TrackTitle),
-				author: tag.get_string(ItemKey::TrackArtist),
-				copyright: tag.get_string(ItemKey::CopyrightMessage),
-				annotations: Some(tag.get_strings(ItemKey::Comment)),
-				comments: None,
-			}
-		}
-		.dump_to(writer, write_options)
-		.map_err(Into::into),
+			TagExt::dump_to(&AiffTextChunks::from(tag.clone()), writer, write_options)
+		},
 		_ => Ok(()),
 	}
 }
diff --git a/lofty_attr/src/internal.rs b/lofty_attr/src/internal.rs
index 056e234..1dbae29 100644
--- a/lofty_attr/src/internal.rs
+++ b/lofty_attr/src/internal.rs
@@ -51,7 +51,11 @@ pub(crate) fn init_write_lookup(
 	});
 
 	insert!(map, Id3v1, {
-		Into::<lofty::id3::v1::tag::Id3v1TagRef<'_>>::into(tag).write_to(file, write_options)
+		lofty::tag::tag_ext::TagWriteExt::save_to(
+			&lofty::id3::v1::Id3v1Tag::from(tag.clone()),
+			file,
+			write_options,
+		)
 	});
 
 	if id3v2_strippable {
@@ -76,14 +80,11 @@ pub(crate) fn init_write_lookup(
 	});
 
 	insert!(map, AiffText, {
-		lofty::iff::aiff::tag::AiffTextChunksRef {
-			name: tag.get_string(lofty::prelude::ItemKey::TrackTitle),
-			author: tag.get_string(lofty::prelude::ItemKey::TrackArtist),
-			copyright: tag.get_string(lofty::prelude::ItemKey::CopyrightMessage),
-			annotations: Some(tag.get_strings(lofty::prelude::ItemKey::Comment)),
-			comments: None,
-		}
-		.write_to(file, write_options)
+		lofty::tag::tag_ext::TagWriteExt::save_to(
+			&lofty::iff::aiff::AiffTextChunks::from(tag.clone()),
+			file,
+			write_options,
+		)
 	});
 
 	map
-- 
2.43.0


From 85f3394b87ab6f909cee33342f109cdc460a5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:14 +0000
Subject: [PATCH 056/112] fix: ID3v2: Allow the podcast flag to be saved

FlagPodcast is converted to a PCST text frame, which the writer refused
---
 lofty/src/id3/v2/frame/content.rs | 15 +++++++++++++++
 lofty/src/id3/v2/write/frame.rs   |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/content.rs b/lofty/src/id3/v2/frame/content.rs
index 9361854..04a063c 100644
--- a/lofty/src/id3/v2/frame/content.rs
+++ b/lofty/src/id3/v2/frame/content.rs
@@ -67,6 +67,21 @@ pub(super) fn parse_content<R: Read>(
 		"GRP1" | "MVNM" | "MVIN" => TextInformationFrame::parse(reader, id, flags, version)
 			.transpose()?
 			.map(Frame::Text),
+		// PCST (Podcast flag), iTunes stores a 32-bit integer rather than text
+		"PCST" => {
+			let mut content = Vec::new();
+			if let Err(e) = reader.read_to_end(&mut content) {
+				return Some(Err(e.into()));
+			}
+
+			if content.len() == 4 && content.starts_with(&[0, 0, 0]) {
+				BinaryFrame::parse(&mut &content[..], id, flags).map(Frame::Binary)
+			} else {
+				TextInformationFrame::parse(&mut &content[..], id, flags, version)
+					.transpose()?
+					.map(Frame::Text)
+			}
+		},
 		i if i.starts_with('W') => UrlLinkFrame::parse(reader, id, flags)
 			.transpose()?
 			.map(Frame::Url),
diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index cce6622..631cc2c 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -274,7 +274,7 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 		| ("UFID", Frame::UniqueFileIdentifier(_))
 		| ("POPM", Frame::Popularimeter(_))
 		| ("TIPL" | "TMCL", Frame::KeyValue { .. })
-		| ("WFED" | "GRP1" | "MVNM" | "MVIN", Frame::Text { .. })
+		| ("WFED" | "GRP1" | "MVNM" | "MVIN" | "PCST", Frame::Text { .. })
 		| ("TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG", Frame::Timestamp(_))
 		| ("RVA2", Frame::RelativeVolumeAdjustment(_))
 		| ("PRIV", Frame::Private(_))
-- 
2.43.0


From 01bef3540ec1d48c9b9c18986119ead761436185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:53 +0000
Subject: [PATCH 057/112] fix: ID3v2: Split a track or disc number that is no
 number into the number, not the total

---
 lofty/src/id3/v2/tag.rs | 60 +++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 8bc7db5..cbf65f5 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -613,12 +613,7 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 	/// A frame that must be held back
 	const FRAME_RETAINED: bool = true;
 
-	fn split_pair(
-		content: &str,
-		tag: &mut Tag,
-		number_key: ItemKey,
-		total_key: ItemKey,
-	) -> Option<()> {
+	fn split_pair(content: &str, tag: &mut Tag, number_key: ItemKey, total_key: ItemKey) {
 		fn parse_number(source: &str) -> Option<&str> {
 			let number = source.trim();
 
@@ -635,28 +630,30 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 			}
 		}
 
-		let mut split = content.splitn(2, &[V4_MULTI_VALUE_SEPARATOR, NUMBER_PAIR_SEPARATOR][..]);
+		fn parse_pair(content: &str) -> Option<(&str, Option<&str>)> {
+			let mut split =
+				content.splitn(2, &[V4_MULTI_VALUE_SEPARATOR, NUMBER_PAIR_SEPARATOR][..]);
 
-		let number = parse_number(split.next()?)?;
-		let total = if let Some(total_source) = split.next() {
-			Some(parse_number(total_source)?)
-		} else {
-			None
-		};
-		debug_assert!(split.next().is_none());
+			let number = parse_number(split.next()?)?;
+			let total = match split.next() {
+				Some(total_source) => Some(parse_number(total_source)?),
+				None => None,
+			};
+
+			Some((number, total))
+		}
+
+		// The content doesn't have to be numeric (e.g. "A1"), in which case it's kept as is
+		let (number, total) = parse_pair(content).unwrap_or((content, None));
 
-		debug_assert!(!number.is_empty());
 		tag.items.push(TagItem::new(
 			number_key,
 			ItemValue::Text(number.to_string()),
 		));
 		if let Some(total) = total {
-			debug_assert!(!total.is_empty());
 			tag.items
 				.push(TagItem::new(total_key, ItemValue::Text(total.to_string())))
 		}
-
-		Some(())
 	}
 
 	match frame {
@@ -665,34 +662,25 @@ fn handle_tag_split(tag: &mut Tag, frame: &mut Frame<'_>) -> bool {
 			header: FrameHeader { id, .. },
 			value: content,
 			..
-		}) if id.as_str() == "TRCK"
-			&& split_pair(content, tag, ItemKey::TrackNumber, ItemKey::TrackTotal).is_some() =>
-		{
-			return FRAME_CONSUMED
+		}) if id.as_str() == "TRCK" => {
+			split_pair(content, tag, ItemKey::TrackNumber, ItemKey::TrackTotal);
+			return FRAME_CONSUMED;
 		},
 		Frame::Text(TextInformationFrame {
 			header: FrameHeader { id, .. },
 			value: content,
 			..
-		}) if id.as_str() == "TPOS"
-			&& split_pair(content, tag, ItemKey::DiscNumber, ItemKey::DiscTotal).is_some() =>
-		{
-			return FRAME_CONSUMED
+		}) if id.as_str() == "TPOS" => {
+			split_pair(content, tag, ItemKey::DiscNumber, ItemKey::DiscTotal);
+			return FRAME_CONSUMED;
 		},
 		Frame::Text(TextInformationFrame {
 			header: FrameHeader { id, .. },
 			value: content,
 			..
-		}) if id.as_str() == "MVIN"
-			&& split_pair(
-				content,
-				tag,
-				ItemKey::MovementNumber,
-				ItemKey::MovementTotal,
-			)
-			.is_some() =>
-		{
-			return FRAME_CONSUMED
+		}) if id.as_str() == "MVIN" => {
+			split_pair(content, tag, ItemKey::MovementNumber, ItemKey::MovementTotal);
+			return FRAME_CONSUMED;
 		},
 
 		// TCON needs special treatment to translate genre IDs
-- 
2.43.0


From c65f68554f80ef1e56da2f9ecdbe96282bd7b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 058/112] fix: don't read FLAC pictures when tags are disabled

---
 lofty/src/flac/read.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lofty/src/flac/read.rs b/lofty/src/flac/read.rs
index 44dbc3d..642f5cb 100644
--- a/lofty/src/flac/read.rs
+++ b/lofty/src/flac/read.rs
@@ -80,8 +80,9 @@ where
 
 	while !last_block {
 		let block = Block::read(data, |block_type| {
-			(block_type == BLOCK_ID_VORBIS_COMMENTS && parse_options.read_tags)
-				|| (block_type == BLOCK_ID_PICTURE && parse_options.read_cover_art)
+			parse_options.read_tags
+				&& (block_type == BLOCK_ID_VORBIS_COMMENTS
+					|| (block_type == BLOCK_ID_PICTURE && parse_options.read_cover_art))
 		})?;
 
 		last_block = block.last;
@@ -121,7 +122,7 @@ where
 			continue;
 		}
 
-		if block.ty == BLOCK_ID_PICTURE && parse_options.read_cover_art {
+		if block.ty == BLOCK_ID_PICTURE && parse_options.read_tags && parse_options.read_cover_art {
 			log::debug!("Encountered a FLAC picture block, parsing");
 
 			match Picture::from_flac_bytes(&block.content, false, parse_options.parsing_mode) {
-- 
2.43.0


From 475cd83a34cbcde3e0a01fa46549b37bbe3e7334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 059/112] fix: account for ID3v2 and APE tags in MPC files when
 tags are disabled

---
 lofty/src/musepack/read.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lofty/src/musepack/read.rs b/lofty/src/musepack/read.rs
index 2faac94..a7dca7d 100644
--- a/lofty/src/musepack/read.rs
+++ b/lofty/src/musepack/read.rs
@@ -34,7 +34,7 @@ where
 
 	// ID3v2 tags are unsupported in MPC files, but still possible
 	#[allow(unused_variables)]
-	if let ID3FindResults(Some(header), Some(content)) =
+	if let ID3FindResults(Some(header), content) =
 		find_id3v2(reader, find_id3v2_config).map_err(TagParseError::from)?
 	{
 		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.full_tag_size()))
@@ -44,10 +44,12 @@ where
 
 		stream_length = new_stream_length;
 
-		let reader = &mut &*content;
+		if let Some(content) = content {
+			let reader = &mut &*content;
 
-		let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
-		file.id3v2_tag = Some(id3v2);
+			let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
+			file.id3v2_tag = Some(id3v2);
+		}
 	}
 
 	// Save the current position, so we can go back and read the properties after the tags
@@ -74,6 +76,8 @@ where
 
 	stream_length = new_stream_length;
 
+	// If there is an APE tag, it ends here
+	let ape_end = reader.stream_position()?;
 	reader.seek(SeekFrom::Current(-32))?;
 
 	if let (tag, Some(header)) = crate::ape::tag::read::read_ape_tag(reader, true, parse_options)
@@ -82,10 +86,8 @@ where
 		file.ape_tag = tag;
 
 		// Seek back to the start of the tag
-		let pos = reader.stream_position()?;
-
 		let tag_size = u64::from(header.size);
-		let Some(tag_start) = pos.checked_sub(tag_size) else {
+		let Some(tag_start) = ape_end.checked_sub(tag_size) else {
 			return Err(SizeMismatchError.into());
 		};
 
-- 
2.43.0


From 047562fd5e94e2c04e40b9638fd2f8d412971caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 060/112] fix: decode APE picture descriptions as UTF-8

---
 lofty/src/picture/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index ea9d467..8cb29d5 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -921,7 +921,7 @@ impl Picture {
 		let mut pos = 0;
 
 		let mut description = None;
-		let mut desc_text = String::new();
+		let mut desc_text = Vec::new();
 
 		while let Ok(ch) = reader.read_u8() {
 			pos += 1;
@@ -930,11 +930,11 @@ impl Picture {
 				break;
 			}
 
-			desc_text.push(char::from(ch));
+			desc_text.push(ch);
 		}
 
 		if !desc_text.is_empty() {
-			description = Some(Cow::from(desc_text));
+			description = Some(Cow::from(utf8_decode_str(&desc_text)?.to_owned()));
 		}
 
 		let mime_type = {
-- 
2.43.0


From 0376194f9ffe156c29b2042398bf7c5302d40c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 061/112] fix: ignore case of APE picture keys

---
 lofty/src/ape/tag/read.rs | 5 ++++-
 lofty/src/picture/mod.rs  | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ape/tag/read.rs b/lofty/src/ape/tag/read.rs
index 813ebab..75bc350 100644
--- a/lofty/src/ape/tag/read.rs
+++ b/lofty/src/ape/tag/read.rs
@@ -94,7 +94,10 @@ where
 
 		let key = utf8_decode(key).map_err(ApeTagItemParseError::from)?;
 
-		if APE_PICTURE_TYPES.contains(&&*key) && !parse_options.read_cover_art {
+		let is_picture = APE_PICTURE_TYPES
+			.iter()
+			.any(|k| k.eq_ignore_ascii_case(&key));
+		if is_picture && !parse_options.read_cover_art {
 			reader.seek(SeekFrom::Current(i64::from(value_size)))?;
 			continue;
 		}
diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 8cb29d5..c07c86a 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -273,6 +273,12 @@ impl PictureType {
 
 	/// Get a `PictureType` from an APE item key
 	pub fn from_ape_key(key: &str) -> Self {
+		// APE item keys are case-insensitive
+		let key = APE_PICTURE_TYPES
+			.into_iter()
+			.find(|k| k.eq_ignore_ascii_case(key))
+			.unwrap_or_default();
+
 		match key {
 			"Cover Art (Other)" => Self::Other,
 			"Cover Art (Png Icon)" => Self::Icon,
-- 
2.43.0


From c2a86ff803488dae647e1cd19319412772a181ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:10 +0000
Subject: [PATCH 062/112] fix: convert APE cover art to pictures of the generic
 tag

---
 lofty/src/ape/tag/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index 30ceb53..5930724 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -9,6 +9,7 @@ use crate::ape::tag::item::{ApeItem, ApeItemRef};
 use crate::config::WriteOptions;
 use crate::error::{FileEncodingError, TagEncodingError};
 use crate::id3::v2::util::pairs::{format_number_pair, set_number};
+use crate::picture::{Picture, PictureType};
 use crate::tag::items::Timestamp;
 use crate::tag::{
 	Accessor, ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagExt, TagItem, TagType, TagWriteExt,
@@ -71,6 +72,9 @@ macro_rules! impl_accessor {
 ///
 /// Any [`ApeItem`] with an [`ItemKey`] mapping will have a 1:1 conversion to [`TagItem`].
 ///
+/// Any binary [`ApeItem`] with one of the [`APE_PICTURE_TYPES`] as its key will be converted to a [`Picture`],
+/// if it can be parsed.
+///
 /// ### From `Tag`
 ///
 /// Converting [`Tag`]s into `ApeTag` is *mostly* seamless.
@@ -564,6 +568,14 @@ impl SplitTag for ApeTag {
 
 		self.items.retain_mut(|item| {
 			let Some(item_key) = ItemKey::from_key(TagType::Ape, item.key()) else {
+				if let ItemValue::Binary(data) = item.value()
+					&& PictureType::from_ape_key(item.key()).as_ape_key().is_some()
+					&& let Ok(picture) = Picture::from_ape_bytes(item.key(), data)
+				{
+					tag.push_picture(picture);
+					return false; // Item consumed
+				}
+
 				return true;
 			};
 
-- 
2.43.0


From 349408463dacdacf1daa1f66f14b518bbcda4257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:57 +0000
Subject: [PATCH 063/112] fix: keep bytes already delivered when a refill of
 UnsynchronizedStream fails or is interrupted

---
 lofty/src/id3/v2/util/synchsafe.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lofty/src/id3/v2/util/synchsafe.rs b/lofty/src/id3/v2/util/synchsafe.rs
index 27536ff..5bdbe1d 100644
--- a/lofty/src/id3/v2/util/synchsafe.rs
+++ b/lofty/src/id3/v2/util/synchsafe.rs
@@ -111,6 +111,12 @@ impl<R: Read> Read for UnsynchronizedStream<R> {
 			}
 
 			if self.pos >= self.bytes_available {
+				// Hand over what we have before refilling, if the reader fails now the
+				// bytes already in `buf` would be lost
+				if dest_pos > 0 {
+					break;
+				}
+
 				self.bytes_available = self.reader.read(&mut self.buf)?;
 				self.pos = 0;
 			}
-- 
2.43.0


From 6cd42b1a80269bfa431d3311b8aadb4746337ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:09 +0000
Subject: [PATCH 064/112] fix: list the wave extension that FileType::from_ext
 accepts

---
 lofty/src/file/file_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index a1b6fd7..486b175 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -39,8 +39,8 @@ use std::path::Path;
 /// ```
 pub const EXTENSIONS: &[&str] = &[
 	// Also update `FileType::from_ext()` below
-	"aac", "ape", "aiff", "aif", "afc", "aifc", "mp3", "mp2", "mp1", "wav", "wv", "opus", "flac",
-	"ogg", "mp4", "m4a", "m4b", "m4p", "m4r", "m4v", "3gp", "mpc", "mp+", "mpp", "spx",
+	"aac", "ape", "aiff", "aif", "afc", "aifc", "mp3", "mp2", "mp1", "wav", "wave", "wv", "opus",
+	"flac", "ogg", "mp4", "m4a", "m4b", "m4p", "m4r", "m4v", "3gp", "mpc", "mp+", "mpp", "spx",
 ];
 
 /// The type of file read
-- 
2.43.0


From 8226d0dc57fedb2b19bccb0dd78f078de4900b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 065/112] fix: report a failing reader in Packets::read_count
 instead of ending the stream

---
 ogg_pager/src/packets.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ogg_pager/src/packets.rs b/ogg_pager/src/packets.rs
index 182e0a2..f485747 100644
--- a/ogg_pager/src/packets.rs
+++ b/ogg_pager/src/packets.rs
@@ -4,7 +4,7 @@ use crate::header::PageHeader;
 use crate::paginate::paginate;
 
 use std::fmt::{Debug, Formatter};
-use std::io::{Read, Seek, Write};
+use std::io::{ErrorKind, Read, Seek, Write};
 use std::ops::Range;
 
 /// A container for packets in an OGG file
@@ -84,7 +84,16 @@ impl Packets {
 		let mut packet_size = 0_u64;
 		let mut packet_bytes_already_read = None;
 		let mut current_packet_content;
-		'outer: while let Ok(header) = PageHeader::read(data) {
+		'outer: loop {
+			let header = match PageHeader::read(data) {
+				Ok(header) => header,
+				// The reader failed, that doesn't mean there are no more pages
+				Err(PageError::Io(e)) if e.kind() != ErrorKind::UnexpectedEof => {
+					return Err(e.into());
+				},
+				Err(_) => break,
+			};
+
 			for i in header.segments {
 				packet_size += u64::from(i);
 
-- 
2.43.0


From 890662ba0283c9e7bf40cd3488bcc97fd7d87ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:51 +0000
Subject: [PATCH 066/112] fix: do not mistake a failing seek for a missing
 ID3v1 tag

---
 lofty/src/id3/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 42f7bea..0ba2bb1 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -147,11 +147,12 @@ where
 	let mut header = None;
 
 	// Reader is too small to contain an ID3v2 tag
-	if data.seek(SeekFrom::End(-128)).is_err() {
-		data.seek(SeekFrom::End(0))?;
+	if data.seek(SeekFrom::End(0))? < 128 {
 		return Ok(ID3FindResults(header, id3v1));
 	}
 
+	data.seek(SeekFrom::End(-128))?;
+
 	let mut id3v1_header = [0; 3];
 	data.read_exact(&mut id3v1_header)?;
 
-- 
2.43.0


From d0516f094755fc9cebc985a3a8dbe6e039f5d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:06 +0000
Subject: [PATCH 067/112] fix: report a failing reader instead of skipping
 ID3v2 frames or tags

---
 lofty/src/id3/mod.rs     |  8 +++++-
 lofty/src/id3/v2/read.rs |  9 +++++--
 lofty/src/util/io.rs     | 56 +++++++++++++++++++++++++++++++++++++++-
 3 files changed, 69 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 0ba2bb1..172fe76 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -14,6 +14,7 @@ use crate::error::TextDecodingError;
 use crate::id3::v1::error::Id3v1ParseError;
 use crate::id3::v2::error::Id3v2ParseError;
 use crate::macros::try_vec;
+use crate::util::io::is_io_failure;
 use crate::util::text::utf8_decode_str;
 use v1::constants::ID3V1_TAG_MARKER;
 use v2::header::Id3v2Header;
@@ -231,7 +232,12 @@ where
 		reader.seek(SeekFrom::Current(-3))?;
 	}
 
-	if let Ok(id3v2_header) = Id3v2Header::parse(reader) {
+	let parsed_header = match Id3v2Header::parse(reader) {
+		Err(e) if is_io_failure(&e) => return Err(e),
+		parsed_header => parsed_header,
+	};
+
+	if let Ok(id3v2_header) = parsed_header {
 		log::debug!("Found an ID3v2 tag, parsing");
 
 		if config.read {
diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index b892464..05f8e30 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -6,6 +6,7 @@ use crate::id3::v2::error::{FrameParseError, Id3v2ParseError};
 use crate::id3::v2::util::synchsafe::UnsynchronizedStream;
 use crate::id3::v2::{Frame, FrameId, FrameList, Id3v2TagFlags, Id3v2Version, TimestampFrame};
 use crate::tag::items::Timestamp;
+use crate::util::io::FailureTracker;
 
 use std::borrow::Cow;
 use std::io::Read;
@@ -24,7 +25,7 @@ where
 		header.version
 	);
 
-	let mut tag_bytes = bytes.take(u64::from(header.content_size()));
+	let mut tag_bytes = FailureTracker::new(bytes.take(u64::from(header.content_size())));
 
 	// Prior to Id3v2.4, the tag-wide `unsynchronization` flag implied that unsynchronization was applied
 	// to the *entire* content of the tag following the header, since there was no frame-level flag.
@@ -36,7 +37,7 @@ where
 		let mut unsynchronized_reader = UnsynchronizedStream::new(tag_bytes);
 		ret = read_all_frames_into_tag(&mut unsynchronized_reader, header, parse_options)?;
 
-		// Get the `Take` back from the `UnsynchronizedStream`
+		// Get the reader back from the `UnsynchronizedStream`
 		tag_bytes = unsynchronized_reader.into_inner();
 	} else {
 		ret = read_all_frames_into_tag(&mut tag_bytes, header, parse_options)?;
@@ -45,6 +46,10 @@ where
 	// Throw away the rest of the tag (padding, bad frames)
 	std::io::copy(&mut tag_bytes, &mut std::io::sink())?;
 
+	// Frames may be skipped or considered complete if the content ends early, but not because the
+	// reader failed
+	tag_bytes.finish()?;
+
 	// Construct TDRC frame from TYER, TDAT, and TIME frames
 	if parse_options.implicit_conversions && header.version == Id3v2Version::V3 {
 		construct_tdrc_from_v3(&mut ret);
diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index a85d2a6..2c9005a 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -7,7 +7,7 @@ use crate::file::FileType;
 use crate::probe::Probe;
 use std::collections::VecDeque;
 use std::fs::{File, OpenOptions};
-use std::io::{Cursor, Read, Seek, SeekFrom, Write};
+use std::io::{Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
 use std::ops::{Deref, DerefMut};
 use std::path::Path;
 
@@ -27,6 +27,60 @@ pub(crate) trait SeekStreamLen: Seek {
 
 impl<T> SeekStreamLen for T where T: Seek {}
 
+/// Whether an error comes from the reader itself failing, as opposed to malformed content
+pub(crate) fn is_io_failure(error: &(dyn core::error::Error + 'static)) -> bool {
+	let mut current = Some(error);
+	while let Some(error) = current {
+		if let Some(io) = error.downcast_ref::<std::io::Error>() {
+			// These are the result of running out of data, invalid compressed data, and bad seeks
+			return !matches!(
+				io.kind(),
+				ErrorKind::UnexpectedEof | ErrorKind::InvalidData | ErrorKind::InvalidInput
+			);
+		}
+
+		current = error.source();
+	}
+
+	false
+}
+
+/// A reader that remembers whether the reader it wraps has failed
+///
+/// Parsers can be lenient about content that ends early. With this, it's possible to distinguish that
+/// from the reader failing to provide the content.
+pub(crate) struct FailureTracker<R> {
+	reader: R,
+	failure: Option<std::io::Error>,
+}
+
+impl<R> FailureTracker<R> {
+	pub(crate) fn new(reader: R) -> Self {
+		Self {
+			reader,
+			failure: None,
+		}
+	}
+
+	/// Get the first failure of the reader, if there was one
+	pub(crate) fn finish(self) -> std::io::Result<()> {
+		self.failure.map_or(Ok(()), Err)
+	}
+}
+
+impl<R: Read> Read for FailureTracker<R> {
+	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+		match self.reader.read(buf) {
+			Err(e) if e.kind() != ErrorKind::Interrupted => {
+				let kind = e.kind();
+				self.failure.get_or_insert(e);
+				Err(kind.into())
+			},
+			ret => ret,
+		}
+	}
+}
+
 /// Provides a method to truncate an object to the specified length
 ///
 /// This is one component of the [`FileLike`] trait, which is used to provide implementors access to any
-- 
2.43.0


From c6a02ff2c894d778ad9938b8db2eb7dbf20b15b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 068/112] fix: report a failing reader instead of ending the
 search for MPEG and ADTS frames

---
 lofty/src/aac/read.rs        | 14 ++++++++----
 lofty/src/mpeg/header.rs     | 42 ++++++++++++++++--------------------
 lofty/src/mpeg/properties.rs |  8 +++----
 lofty/src/mpeg/read.rs       | 14 ++++++++----
 4 files changed, 41 insertions(+), 37 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index 67e1f3f..c106ad7 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -7,7 +7,7 @@ use crate::id3::v2::read::parse_id3v2;
 use crate::id3::{ID3FindResults, find_id3v1};
 use crate::mpeg::header::{HeaderCmpResult, cmp_header, search_for_frame_sync};
 
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{ErrorKind, Read, Seek, SeekFrom};
 
 use crate::error::{SizeMismatchError, TagParseError};
 use byteorder::ReadBytesExt;
@@ -39,7 +39,13 @@ where
 
 	let mut header = [0; 4];
 
-	while let Ok(()) = reader.read_exact(&mut header) {
+	loop {
+		match reader.read_exact(&mut header) {
+			Ok(()) => {},
+			Err(e) if e.kind() == ErrorKind::UnexpectedEof => break,
+			Err(e) => return Err(e.into()),
+		}
+
 		match header {
 			// [I, D, 3, ver_major, ver_minor, flags, size (4 bytes)]
 			[b'I', b'D', b'3', ..] => {
@@ -172,7 +178,7 @@ where
 {
 	let mut pos = reader.stream_position()?;
 
-	while let Ok(Some(first_adts_frame_start_relative)) = search_for_frame_sync(reader) {
+	while let Some(first_adts_frame_start_relative) = search_for_frame_sync(reader)? {
 		let first_adts_frame_start_absolute = pos + first_adts_frame_start_relative;
 
 		if first_adts_frame_start_absolute >= audio_end {
@@ -191,7 +197,7 @@ where
 				u32::from(first_header.len),
 				u32::from_be_bytes(first_header.bytes[..4].try_into().unwrap()),
 				HEADER_MASK,
-			) {
+			)? {
 				HeaderCmpResult::Equal => {
 					return Ok(Some((
 						first_header,
diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index ef3c680..512657c 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -1,8 +1,7 @@
 use super::constants::{BITRATES, PADDING_SIZES, SAMPLE_RATES, SAMPLES, SIDE_INFORMATION_SIZES};
-use crate::error::FileParseError;
 use crate::mpeg::error::MpegParseError;
 
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{ErrorKind, Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, ReadBytesExt};
 
@@ -52,7 +51,7 @@ const REV_FRAME_SEARCH_BOUNDS: u64 = 1024;
 pub(super) fn rev_search_for_frame_header<R>(
 	input: &mut R,
 	pos: &mut u64,
-) -> Result<Option<Header>, FileParseError>
+) -> std::io::Result<Option<Header>>
 where
 	R: Read + Seek,
 {
@@ -122,41 +121,36 @@ pub(super) const HEADER_MASK: u32 = 0xFFFE_0C00;
 ///
 /// - [`HeaderCmpResult::Equal`] if the headers are equal.
 /// - [`HeaderCmpResult::NotEqual`] if the headers are not equal.
-/// - [`HeaderCmpResult::Undetermined`] if the comparison could not be made (Some IO error occurred).
+/// - [`HeaderCmpResult::Undetermined`] if the comparison could not be made (The stream ended).
 pub(crate) fn cmp_header<R>(
 	reader: &mut R,
 	header_size: u32,
 	first_header_len: u32,
 	first_header_bytes: u32,
 	header_mask: u32,
-) -> HeaderCmpResult
+) -> std::io::Result<HeaderCmpResult>
 where
 	R: Read + Seek,
 {
 	// Read the next header and see if they are the same
-	let res = reader.seek(SeekFrom::Current(i64::from(
+	reader.seek(SeekFrom::Current(i64::from(
 		first_header_len.saturating_sub(header_size),
-	)));
-	if res.is_err() {
-		return HeaderCmpResult::Undetermined;
-	}
+	)))?;
 
-	let second_header_data = reader.read_u32::<BigEndian>();
-	if second_header_data.is_err() {
-		return HeaderCmpResult::Undetermined;
-	}
+	let second_header_data = match reader.read_u32::<BigEndian>() {
+		Ok(second_header_data) => second_header_data,
+		Err(e) if e.kind() == ErrorKind::UnexpectedEof => {
+			return Ok(HeaderCmpResult::Undetermined);
+		},
+		Err(e) => return Err(e),
+	};
 
-	if reader.seek(SeekFrom::Current(-4)).is_err() {
-		return HeaderCmpResult::Undetermined;
-	}
+	reader.seek(SeekFrom::Current(-4))?;
 
-	match second_header_data {
-		Ok(second_header_data)
-			if first_header_bytes & header_mask == second_header_data & header_mask =>
-		{
-			HeaderCmpResult::Equal
-		},
-		_ => HeaderCmpResult::NotEqual,
+	if first_header_bytes & header_mask == second_header_data & header_mask {
+		Ok(HeaderCmpResult::Equal)
+	} else {
+		Ok(HeaderCmpResult::NotEqual)
 	}
 }
 
diff --git a/lofty/src/mpeg/properties.rs b/lofty/src/mpeg/properties.rs
index e887149..aa6c062 100644
--- a/lofty/src/mpeg/properties.rs
+++ b/lofty/src/mpeg/properties.rs
@@ -190,9 +190,9 @@ where
 	let mut last_frame = None;
 	let mut pos = last_frame_offset;
 	while pos > 0 {
-		match rev_search_for_frame_header(reader, &mut pos) {
+		match rev_search_for_frame_header(reader, &mut pos)? {
 			// Found a frame header
-			Ok(Some(header)) => {
+			Some(header) => {
 				// Move `last_frame_offset` back to the actual position
 				last_frame_offset = pos;
 
@@ -201,10 +201,8 @@ where
 					break;
 				}
 			},
-			// Encountered some IO error, just break
-			Err(_) => break,
 			// No frame sync found, continue further back in the file
-			_ => {},
+			None => {},
 		}
 	}
 
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index adb38fd..be0ef3c 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -10,7 +10,7 @@ use crate::io::SeekStreamLen;
 use crate::mpeg::error::MpegParseError;
 use crate::mpeg::header::HEADER_MASK;
 
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{ErrorKind, Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, ReadBytesExt};
 
@@ -33,7 +33,13 @@ where
 
 	let mut header = [0; 4];
 
-	while let Ok(()) = reader.read_exact(&mut header) {
+	loop {
+		match reader.read_exact(&mut header) {
+			Ok(()) => {},
+			Err(e) if e.kind() == ErrorKind::UnexpectedEof => break,
+			Err(e) => return Err(e.into()),
+		}
+
 		match header {
 			// [I, D, 3, ver_major, ver_minor, flags, size (4 bytes)]
 			//
@@ -233,7 +239,7 @@ where
 {
 	let mut pos = reader.stream_position()?;
 
-	while let Ok(Some(first_mp3_frame_start_relative)) = search_for_frame_sync(reader) {
+	while let Some(first_mp3_frame_start_relative) = search_for_frame_sync(reader)? {
 		let first_mp3_frame_start_absolute = pos + first_mp3_frame_start_relative;
 
 		// Seek back to the start of the frame and read the header
@@ -241,7 +247,7 @@ where
 		let first_header_data = reader.read_u32::<BigEndian>()?;
 
 		if let Some(first_header) = Header::read(first_header_data) {
-			match cmp_header(reader, 4, first_header.len, first_header_data, HEADER_MASK) {
+			match cmp_header(reader, 4, first_header.len, first_header_data, HEADER_MASK)? {
 				HeaderCmpResult::Equal => {
 					return Ok(Some((first_header, first_mp3_frame_start_absolute)));
 				},
-- 
2.43.0


From 3c45280dd58c14e993197f853269edbfe1917514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 069/112] fix: report a failing reader instead of dropping the
 duration of Ogg files

---
 lofty/src/ogg/opus/properties.rs   | 6 +++++-
 lofty/src/ogg/speex/properties.rs  | 6 +++++-
 lofty/src/ogg/vorbis/properties.rs | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index ff0fd89..4caafe6 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -2,6 +2,7 @@ use super::find_last_page;
 use crate::error::FileParseError;
 use crate::file::FileType;
 use crate::properties::{ChannelMask, FileProperties};
+use crate::util::io::is_io_failure;
 use crate::util::math::RoundedDivision;
 
 use std::io::{Read, Seek, SeekFrom};
@@ -128,7 +129,10 @@ where
 	// The header packets have been read, anything that follows is the audio stream
 	let header_size = data.stream_position()?;
 
-	let last_page = find_last_page(data);
+	let last_page = match find_last_page(data) {
+		Err(e) if is_io_failure(&e) => return Err(e),
+		last_page => last_page,
+	};
 	let file_length = data.seek(SeekFrom::End(0))?;
 
 	if let Ok(last_page) = last_page {
diff --git a/lofty/src/ogg/speex/properties.rs b/lofty/src/ogg/speex/properties.rs
index 8893876..a584cfc 100644
--- a/lofty/src/ogg/speex/properties.rs
+++ b/lofty/src/ogg/speex/properties.rs
@@ -2,6 +2,7 @@ use crate::error::FileParseError;
 use crate::file::FileType;
 use crate::ogg::find_last_page;
 use crate::properties::FileProperties;
+use crate::util::io::is_io_failure;
 use crate::util::math::RoundedDivision;
 
 use std::io::{Read, Seek, SeekFrom};
@@ -150,7 +151,10 @@ where
 
 	properties.vbr = identification_packet_reader.read_u32::<LittleEndian>()? == 1;
 
-	let last_page = find_last_page(data);
+	let last_page = match find_last_page(data) {
+		Err(e) if is_io_failure(&e) => return Err(e),
+		last_page => last_page,
+	};
 	let file_length = data.seek(SeekFrom::End(0))?;
 
 	// The stream length is the entire file minus the two mandatory metadata packets
diff --git a/lofty/src/ogg/vorbis/properties.rs b/lofty/src/ogg/vorbis/properties.rs
index c11a92f..d737137 100644
--- a/lofty/src/ogg/vorbis/properties.rs
+++ b/lofty/src/ogg/vorbis/properties.rs
@@ -1,6 +1,7 @@
 use super::find_last_page;
 use crate::error::FileParseError;
 use crate::properties::FileProperties;
+use crate::util::io::is_io_failure;
 use crate::util::math::RoundedDivision;
 
 use std::io::{Read, Seek, SeekFrom};
@@ -110,7 +111,10 @@ where
 	properties.bitrate_nominal = first_page_content.read_i32::<LittleEndian>()?;
 	properties.bitrate_minimum = first_page_content.read_i32::<LittleEndian>()?;
 
-	let last_page = find_last_page(data);
+	let last_page = match find_last_page(data) {
+		Err(e) if is_io_failure(&e) => return Err(e),
+		last_page => last_page,
+	};
 	let file_length = data.seek(SeekFrom::End(0))?;
 
 	// This is used for bitrate calculation, it should be the length in
-- 
2.43.0


From 1e73c3ee6698f6d79b917e4b740bc84c03378aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:30 +0000
Subject: [PATCH 070/112] fix: report a failing reader instead of ending
 WavPack blocks and Musepack packets

---
 lofty/src/musepack/sv8/read.rs  | 9 ++++++++-
 lofty/src/wavpack/properties.rs | 5 +++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/lofty/src/musepack/sv8/read.rs b/lofty/src/musepack/sv8/read.rs
index b0706f8..296a6c8 100644
--- a/lofty/src/musepack/sv8/read.rs
+++ b/lofty/src/musepack/sv8/read.rs
@@ -1,6 +1,7 @@
 use super::properties::{EncoderInfo, MpcSv8Properties, ReplayGain, StreamHeader};
 use crate::config::ParsingMode;
 use crate::musepack::error::MpcParseError;
+use crate::util::io::is_io_failure;
 
 use std::io::Read;
 
@@ -31,7 +32,13 @@ where
 	let mut stream_length = 0;
 	let mut found_stream_end = false;
 
-	while let Ok((packet_id, packet_length)) = packet_reader.next() {
+	loop {
+		let (packet_id, packet_length) = match packet_reader.next() {
+			Ok(packet) => packet,
+			Err(e) if is_io_failure(&e) => return Err(e),
+			Err(_) => break,
+		};
+
 		stream_length += packet_length;
 
 		match packet_id {
diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index f50e037..1238bf5 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -2,6 +2,7 @@ use crate::config::ParsingMode;
 use crate::error::{NotEnoughDataError, SizeMismatchError, TooMuchDataError, UnknownFormatError};
 use crate::macros::try_vec;
 use crate::properties::{ChannelMask, FileProperties};
+use crate::util::io::is_io_failure;
 use crate::wavpack::error::WavPackParseError;
 
 use std::io::{Read, Seek, SeekFrom};
@@ -136,7 +137,7 @@ where
 		let block_header;
 		match parse_wv_header(reader) {
 			Ok(header) => block_header = header,
-			Err(e) if parse_mode == ParsingMode::Strict => return Err(e),
+			Err(e) if parse_mode == ParsingMode::Strict || is_io_failure(&e) => return Err(e),
 			_ => break,
 		}
 
@@ -251,7 +252,7 @@ struct WVHeader {
 	flags: u32,
 }
 
-// NOTE: Any error here is ignored unless using `ParsingMode::Strict`
+// NOTE: Any error here is ignored unless using `ParsingMode::Strict`, or the reader failed
 fn parse_wv_header<R>(reader: &mut R) -> Result<WVHeader, WavPackParseError>
 where
 	R: Read + Seek,
-- 
2.43.0


From 14bd69d485c7b88116c0b4a2d95980aefc73eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 071/112] fix: report a failing reader instead of ending the
 list of MP4 atoms

---
 lofty/src/mp4/moov.rs       | 17 +++++++++++++++--
 lofty/src/mp4/properties.rs |  9 ++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index 7bcefd4..cd9a507 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -6,6 +6,7 @@ use crate::config::ParseOptions;
 use crate::error::TagParseError;
 use crate::mp4::error::Mp4ParseError;
 use crate::mp4::ilst::error::IlstParseError;
+use crate::util::io::is_io_failure;
 
 use std::io::{Read, Seek, SeekFrom};
 
@@ -23,7 +24,13 @@ impl Moov {
 	{
 		let mut moov = None;
 
-		while let Ok(Some(atom)) = reader.next() {
+		loop {
+			let atom = match reader.next() {
+				Ok(Some(atom)) => atom,
+				Err(e) if is_io_failure(&e) => return Err(e.into()),
+				_ => break,
+			};
+
 			if atom.ident == AtomIdent::Fourcc(*b"moov") {
 				moov = Some(atom);
 				break;
@@ -45,7 +52,13 @@ impl Moov {
 		let mut traks = Vec::new();
 		let mut ilst = None;
 
-		while let Ok(Some(atom)) = reader.next() {
+		loop {
+			let atom = match reader.next() {
+				Ok(Some(atom)) => atom,
+				Err(e) if is_io_failure(&e) => return Err(e.into()),
+				_ => break,
+			};
+
 			if let AtomIdent::Fourcc(fourcc) = atom.ident {
 				match &fourcc {
 					b"trak" if parse_options.read_properties => {
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index f86f52d..9c6fdd8 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -5,6 +5,7 @@ use crate::macros::try_vec;
 use crate::mp4::error::{AtomParseError, Mp4ParseError};
 use crate::properties::FileProperties;
 use crate::util::alloc::VecFallibleCapacity;
+use crate::util::io::is_io_failure;
 use crate::util::math::RoundedDivision;
 
 use std::io::{Cursor, Read, Seek, SeekFrom};
@@ -1027,7 +1028,13 @@ where
 {
 	reader.rewind()?;
 
-	while let Ok(Some(atom)) = reader.next() {
+	loop {
+		let atom = match reader.next() {
+			Ok(Some(atom)) => atom,
+			Err(e) if is_io_failure(&e) => return Err(e.into()),
+			_ => break,
+		};
+
 		if atom.ident == AtomIdent::Fourcc(*b"mdat") {
 			return Ok(atom.len - 8);
 		}
-- 
2.43.0


From 5ce3b1a297d6a2317fd0a0757e163c456f37bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:24 +0000
Subject: [PATCH 072/112] fix: report a failing reader instead of a missing
 mdat atom

---
 lofty/src/mp4/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 9c6fdd8..f734dd8 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -720,7 +720,7 @@ where
 		match mdat_length(reader) {
 			Ok(len) => mdat_len = len,
 			Err(err) => {
-				if parse_mode == ParsingMode::Strict {
+				if parse_mode == ParsingMode::Strict || is_io_failure(&err) {
 					return Err(err);
 				}
 
-- 
2.43.0


From 41cc719b2729c8bafea42fe07b10d18c0098defd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:13 +0000
Subject: [PATCH 073/112] fix: count two samples per pixel of PNG images with
 gray and alpha

---
 lofty/src/picture/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index c07c86a..02b8030 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -376,7 +376,8 @@ impl PictureInformation {
 
 		match color_type {
 			2 => color_depth *= 3,
-			4 | 6 => color_depth *= 4,
+			4 => color_depth *= 2,
+			6 => color_depth *= 4,
 			_ => {},
 		}
 
-- 
2.43.0


From 43150e8374b5258e2e2679bd5c5a05267d0aaaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:20 +0000
Subject: [PATCH 074/112] fix: do not overflow on invalid JPEG segments

---
 lofty/src/picture/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 02b8030..a207876 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -478,12 +478,17 @@ impl PictureInformation {
 				return Ok(Self {
 					width,
 					height,
-					color_depth: u32::from(precision * components),
+					color_depth: u32::from(precision) * u32::from(components),
 					num_colors: 0,
 				});
 			}
 
-			reader.seek(SeekFrom::Current(i64::from(section_len - 2)))?;
+			// As above, the length contains itself
+			let Some(content_len) = section_len.checked_sub(2) else {
+				return Err(NotEnoughDataError::new(Some(2)).into());
+			};
+
+			reader.seek(SeekFrom::Current(i64::from(content_len)))?;
 		}
 
 		Err(UnknownImageFormatError.into())
-- 
2.43.0


From 18101e9ab3d25e3e6e31476c6cae5b9314a32259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:45 +0000
Subject: [PATCH 075/112] fix: find the frame of a JPEG image in its first
 segment

---
 lofty/src/picture/mod.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index a207876..4fb795c 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -437,27 +437,19 @@ impl PictureInformation {
 	pub fn from_jpeg(mut data: &[u8]) -> Result<Self, PictureParseError> {
 		let reader = &mut data;
 
-		let mut frame_marker = [0; 4];
-		reader.read_exact(&mut frame_marker)?;
+		let mut start_of_image = [0; 2];
+		reader.read_exact(&mut start_of_image)?;
 
-		if !matches!(frame_marker, [0xFF, 0xD8, 0xFF, ..]) {
+		// The first segment can be of any type, including a frame
+		if start_of_image != [0xFF, 0xD8] || reader.first() != Some(&0xFF) {
 			return Err(UnknownImageFormatError.into());
 		}
 
-		let mut section_len = reader.read_u16::<BigEndian>()?;
-
 		let mut reader = Cursor::new(reader);
 
-		// The length contains itself, so anything < 2 is invalid
-		let Some(content_len) = section_len.checked_sub(2) else {
-			return Err(NotEnoughDataError::new(Some(2)).into());
-		};
-
-		reader.seek(SeekFrom::Current(i64::from(content_len)))?;
-
 		while let Ok(0xFF) = reader.read_u8() {
 			let marker = reader.read_u8()?;
-			section_len = reader.read_u16::<BigEndian>()?;
+			let section_len = reader.read_u16::<BigEndian>()?;
 
 			// This marks the SOS (Start of Scan), which is
 			// the end of the header
@@ -483,7 +475,7 @@ impl PictureInformation {
 				});
 			}
 
-			// As above, the length contains itself
+			// The length contains itself, so anything < 2 is invalid
 			let Some(content_len) = section_len.checked_sub(2) else {
 				return Err(NotEnoughDataError::new(Some(2)).into());
 			};
-- 
2.43.0


From fc9fb3f5c69b34e095f5175ce6c309b29663f02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:00 +0000
Subject: [PATCH 076/112] fix: keep icons unique when a generic tag is
 converted to ID3v2 or Vorbis comments

---
 lofty/src/id3/v2/tag.rs | 11 ++++++++---
 lofty/src/ogg/tag.rs    |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index cbf65f5..f780145 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -17,7 +17,7 @@ use crate::id3::v2::util::mappings::TIPL_MAPPINGS;
 use crate::id3::v2::util::pairs::{NUMBER_PAIR_SEPARATOR, format_number_pair};
 use crate::id3::v2::{FrameHeader, FrameId, KeyValueFrame, TimestampFrame};
 use crate::io::VerifiedFile;
-use crate::picture::Picture;
+use crate::picture::{Picture, PictureType};
 use crate::tag::companion_tag::CompanionTag;
 use crate::tag::items::popularimeter::Popularimeter;
 use crate::tag::items::{Timestamp, UNKNOWN_LANGUAGE};
@@ -962,8 +962,13 @@ impl MergeTag for SplitTagRemainder {
 
 		// Insert all pictures as single frames and deduplicate as needed
 		for picture in tag.pictures {
-			let frame = new_picture_frame(picture);
-			if let Some(replaced) = merged.insert(frame) {
+			let replaced = match picture.pic_type {
+				// There can only be one of each icon type
+				PictureType::Icon | PictureType::OtherIcon => merged.insert_picture(picture),
+				_ => merged.insert(new_picture_frame(picture)),
+			};
+
+			if let Some(replaced) = replaced {
 				log::warn!("Replaced picture frame: {replaced:?}");
 			}
 		}
diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index 995f33f..5e8a214 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -661,7 +661,8 @@ impl MergeTag for SplitTagRemainder {
 
 		for picture in tag.pictures {
 			let information = PictureInformation::from_picture(&picture).unwrap_or_default();
-			merged.pictures.push((picture, information))
+			// Never fails, since the information is provided
+			let _ = merged.insert_picture(picture, Some(information));
 		}
 
 		merged
-- 
2.43.0


From ea7463a42ee2948e411fa9b4f2e357a3617185b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:33 +0000
Subject: [PATCH 077/112] fix: count MPEG layer I frame lengths in slots of 4
 bytes

---
 lofty/src/mpeg/header.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index 512657c..390c176 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -308,8 +308,11 @@ impl Header {
 
 		header.data_start = SIDE_INFORMATION_SIZES[version_index][header.channel_mode as usize] + 4;
 		header.samples = SAMPLES[layer_index][version_index];
-		header.len =
-			(u32::from(header.samples) * header.bitrate * 125 / header.sample_rate) + padding;
+		header.len = match header.layer {
+			// Layer I frames are made up of 4 byte slots
+			Layer::Layer1 => (12_000 * header.bitrate / header.sample_rate) * 4,
+			_ => u32::from(header.samples) * header.bitrate * 125 / header.sample_rate,
+		} + padding;
 
 		Some(header)
 	}
-- 
2.43.0


From d858f26441d119753ba9a5dc170ac24e2eb242eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 078/112] fix: find MPEG frame headers on the edge of a search
 area

---
 lofty/src/mpeg/header.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index 390c176..c4e985e 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -48,6 +48,7 @@ where
 // Unlike `search_for_frame_sync`, since this has the `Seek` bound, it will seek the reader
 // back to the start of the header.
 const REV_FRAME_SEARCH_BOUNDS: u64 = 1024;
+const FRAME_HEADER_LEN: u64 = 4;
 pub(super) fn rev_search_for_frame_header<R>(
 	input: &mut R,
 	pos: &mut u64,
@@ -96,6 +97,11 @@ where
 		return Ok(header);
 	}
 
+	if *pos > 0 {
+		// The header may start in the next search area, and end in this one
+		*pos += FRAME_HEADER_LEN - 1;
+	}
+
 	Ok(None)
 }
 
-- 
2.43.0


From 7f4b84a7693a2ec9248c9d8d74b1ed6ab3041453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:49 +0000
Subject: [PATCH 079/112] fix: count all frames of APE files whose final frame
 has one block

---
 lofty/src/ape/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/ape/properties.rs b/lofty/src/ape/properties.rs
index 4435848..f0382a5 100644
--- a/lofty/src/ape/properties.rs
+++ b/lofty/src/ape/properties.rs
@@ -252,7 +252,7 @@ fn get_duration_bitrate(
 ) {
 	let mut total_samples = u64::from(final_frame_blocks);
 
-	if total_samples > 1 {
+	if total_frames > 1 {
 		total_samples += u64::from(blocks_per_frame) * u64::from(total_frames - 1)
 	}
 
-- 
2.43.0


From ac6ea2141fffbb99b2460b6a060256148339dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:56 +0000
Subject: [PATCH 080/112] fix: read the channel layout of multichannel WavPack
 files

---
 lofty/src/wavpack/properties.rs | 69 +++++++++++++--------------------
 1 file changed, 27 insertions(+), 42 deletions(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index 1238bf5..f05631b 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -147,7 +147,9 @@ where
 
 		// In the case of non-standard sample rates and DSD audio, we need to actually read the
 		// block to get the sample rate
-		if sample_rate_idx == 15 || flags & FLAG_DSD == FLAG_DSD {
+		// The first block of a multichannel sequence specifies the channel layout
+		let is_multichannel = flags & FLAG_INITIAL_BLOCK == FLAG_INITIAL_BLOCK && flags & FLAG_FINAL_BLOCK == 0;
+		if sample_rate_idx == 15 || flags & FLAG_DSD == FLAG_DSD || is_multichannel {
 			let mut block_contents = try_vec![0; (block_header.block_size - 24) as usize]?;
 			reader.read_exact(&mut block_contents)?;
 
@@ -372,54 +374,37 @@ fn get_extended_meta_info(
 				}
 
 				properties.channels = u16::from(reader.read_u8()?);
+				size -= 1;
 
-				// size - (id length + channel length)
-				let s = size - 2;
-				match s {
-					0 => {
-						let channel_mask = reader.read_u8()?;
-						size -= 1;
-						properties.channel_mask = ChannelMask(u32::from(channel_mask));
-					},
-					1 => {
-						let channel_mask = reader.read_u16::<LittleEndian>()?;
-						size -= 2;
-						properties.channel_mask = ChannelMask(u32::from(channel_mask));
-					},
-					2 => {
-						let channel_mask = reader.read_u24::<LittleEndian>()?;
-						size -= 3;
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					3 => {
-						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 4;
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					4 => {
-						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
-						properties.channels += 1;
-
-						let channel_mask = reader.read_u24::<LittleEndian>()?;
-						size -= 4;
-
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
-					5 => {
-						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
-						properties.channels += 1;
-
-						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 5;
+				// With more than 5 bytes, the block is also able to specify a number of streams,
+				// and the channel count is extended to 12 bits.
+				//
+				// Channel count - 1, lower bits (1)
+				// Stream count - 1, lower bits (1)
+				// Channel count - 1, upper bits (4 bits)
+				// Stream count - 1, upper bits (4 bits)
+				if size >= 5 {
+					let _stream_count = reader.read_u8()?;
+					properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
+					properties.channels += 1;
+					size -= 2;
+				}
 
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
+				// The remainder is the channel mask
+				let channel_mask = match size {
+					1 => u32::from(reader.read_u8()?),
+					2 => u32::from(reader.read_u16::<LittleEndian>()?),
+					3 => reader.read_u24::<LittleEndian>()?,
+					4 => reader.read_u32::<LittleEndian>()?,
 					_ => {
 						return Err(WavPackParseError::message(
 							"encountered invalid channel info size",
 						));
 					},
-				}
+				};
+
+				properties.channel_mask = ChannelMask(channel_mask);
+				size = 0;
 			},
 			_ => {},
 		}
-- 
2.43.0


From f1b80515bd159ad6ddf79dee4230afa45cbb6214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:04 +0000
Subject: [PATCH 081/112] fix: read the unaligned fields of MP4 audio specific
 configs

---
 lofty/src/mp4/properties.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index f734dd8..d587174 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -850,7 +850,7 @@ where
 				if object_type == 31 {
 					extended_object_type = true;
 
-					object_type = 32 + ((byte_a & 7) | (byte_b >> 5));
+					object_type = 32 + (((byte_a & 7) << 3) | (byte_b >> 5));
 					frequency_index = (byte_b >> 1) & 0x0F;
 				}
 
@@ -862,17 +862,17 @@ where
 				match frequency_index {
 					// 15 means the sample rate is stored in the next 24 bits
 					0x0F => {
+						let remaining = stsd.read_u24()?;
+
+						// Neither field is aligned
 						let sample_rate;
-						let explicit_sample_rate = stsd.read_u24()?;
 						if extended_object_type {
-							sample_rate = explicit_sample_rate >> 1;
-							channel_conf = ((explicit_sample_rate >> 4) & 0x0F) as u8;
-						} else {
-							sample_rate = explicit_sample_rate << 1;
 							let byte_c = stsd.read_u8()?;
-
-							channel_conf =
-								((explicit_sample_rate & 0x80) as u8 | (byte_c >> 1)) & 0x0F;
+							sample_rate = (u32::from(byte_b & 0x01) << 23) | (remaining >> 1);
+							channel_conf = (((remaining & 0x01) as u8) << 3) | (byte_c >> 5);
+						} else {
+							sample_rate = (u32::from(byte_b & 0x7F) << 17) | (remaining >> 7);
+							channel_conf = ((remaining >> 3) & 0x0F) as u8;
 						}
 
 						// Just use the sample rate we already read above if this is invalid
@@ -885,7 +885,7 @@ where
 
 						if extended_object_type {
 							let byte_c = stsd.read_u8()?;
-							channel_conf = (byte_b & 1) | (byte_c & 0xE0);
+							channel_conf = ((byte_b & 1) << 3) | (byte_c >> 5);
 						} else {
 							channel_conf = (byte_b >> 3) & 0x0F;
 						}
-- 
2.43.0


From 6eb1cfef98c837e864a1232de9db51a94b533dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:30 +0000
Subject: [PATCH 082/112] fix: report 8 channels for MPEG-4 channel
 configuration 7

---
 lofty/src/aac/properties.rs | 10 +++++-----
 lofty/src/mp4/mod.rs        |  2 +-
 lofty/src/mp4/properties.rs | 11 ++++++++++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/lofty/src/aac/properties.rs b/lofty/src/aac/properties.rs
index 40c0b6e..d0857a5 100644
--- a/lofty/src/aac/properties.rs
+++ b/lofty/src/aac/properties.rs
@@ -1,5 +1,5 @@
 use crate::aac::header::ADTSHeader;
-use crate::mp4::AudioObjectType;
+use crate::mp4::{AudioObjectType, channel_count};
 use crate::mpeg::header::MpegVersion;
 use crate::properties::{ChannelMask, FileProperties};
 
@@ -106,14 +106,14 @@ pub(super) fn read_properties(
 	properties.version = first_frame.version;
 	properties.audio_object_type = first_frame.audio_object_ty;
 	properties.sample_rate = first_frame.sample_rate;
-	properties.channels = first_frame.channels;
+	properties.channels = channel_count(first_frame.channels);
 
-	match ChannelMask::from_mp4_channels(properties.channels) {
+	match ChannelMask::from_mp4_channels(first_frame.channels) {
 		Some(mask) => properties.channel_mask = Some(mask),
 		None => {
 			log::warn!(
-				"Unable to create channel mask, invalid channel count: {}",
-				properties.channels
+				"Unable to create channel mask, invalid channel configuration: {}",
+				first_frame.channels
 			);
 		},
 	}
diff --git a/lofty/src/mp4/mod.rs b/lofty/src/mp4/mod.rs
index 2e41681..b2febeb 100644
--- a/lofty/src/mp4/mod.rs
+++ b/lofty/src/mp4/mod.rs
@@ -29,7 +29,7 @@ pub use ilst::advisory_rating::AdvisoryRating;
 pub use ilst::atom::{Atom, AtomData};
 pub use ilst::data_type::DataType;
 
-pub(crate) use properties::SAMPLE_RATES;
+pub(crate) use properties::{SAMPLE_RATES, channel_count};
 
 /// An MP4 file
 #[derive(LoftyFile)]
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index d587174..b53997a 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -769,6 +769,15 @@ pub(crate) const SAMPLE_RATES: [u32; 15] = [
 	96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350, 0, 0,
 ];
 
+/// Get the number of channels for a channel configuration
+// https://wiki.multimedia.cx/index.php?title=MPEG-4_Audio#Channel_Configurations
+pub(crate) fn channel_count(channel_configuration: u8) -> u8 {
+	match channel_configuration {
+		7 => 8,
+		_ => channel_configuration,
+	}
+}
+
 fn mp4a_properties<R>(
 	stsd: &mut AtomReader<R>,
 	properties: &mut Mp4Properties,
@@ -897,7 +906,7 @@ where
 				// The channel configuration isn't always set, at least when testing with
 				// the Audio Lossless Coding reference software
 				if channel_conf > 0 {
-					properties.channels = Some(channel_conf);
+					properties.channels = Some(channel_count(channel_conf));
 				}
 
 				// We just check for ALS here, might extend it for more codes eventually
-- 
2.43.0


From 222f8545152b40d7c8c3736ea3fb69b8e27d1a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:44 +0000
Subject: [PATCH 083/112] fix: skip unsupported MP4 sample entries in their
 entirety

---
 lofty/src/mp4/properties.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index b53997a..2c9e229 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -609,14 +609,13 @@ where
 			// 16.16 fixed point number
 			properties.sample_rate = Some(reader.read_u32()? >> 16);
 
-			let mut offset = reader.stream_position()?;
 			if stsd_version == 1 {
 				// Skipping 16 bytes
 				// Samples per packet (4)
 				// Bytes per packet (4)
 				// Bytes per frame (4)
 				// Bytes per sample (4)
-				offset = reader.seek(SeekFrom::Current(16))?;
+				reader.seek(SeekFrom::Current(16))?;
 			} else if stsd_version == 2 {
 				let extension_struct_size = reader.read_u32()?;
 
@@ -629,7 +628,7 @@ where
 				// Bytes per audio packet (4)
 				// LPCM frames per audio packet (4)
 				// Struct size (variable)
-				offset = reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
+				reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
 			}
 
 			match descriptor_format {
@@ -646,8 +645,7 @@ where
 				// Special case to detect encrypted files
 				b"drms" => {
 					properties.drm_protected = true;
-					skip_atom(reader, false, offset - atom.start)
-						.map_err(|e| e.with_ident(atom.ident))?;
+					reader.seek(SeekFrom::Start(atom.start + atom.len))?;
 					continue;
 				},
 				_ => {
@@ -655,7 +653,7 @@ where
 						"Found unsupported sample entry: {:?}",
 						descriptor_format.escape_ascii().to_string()
 					);
-					skip_atom(reader, false, offset - atom.start)?;
+					reader.seek(SeekFrom::Start(atom.start + atom.len))?;
 					continue;
 				},
 			}
-- 
2.43.0


From 5b2739a74ce4d304dcccf01d70083ad903645bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 084/112] fix: read the fields of version 2 MP4 sample entries

---
 lofty/src/mp4/properties.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 2c9e229..5e9421d 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -551,6 +551,7 @@ where
 {
 	const MIN_SUPPORTED_ENTRY_VERSION: u16 = 0;
 	const MAX_SUPPORTED_ENTRY_VERSION: u16 = 2;
+	const V2_STRUCT_SIZE: u32 = 72;
 
 	fn read_inner<R>(
 		reader: &mut AtomReader<R>,
@@ -617,18 +618,24 @@ where
 				// Bytes per sample (4)
 				reader.seek(SeekFrom::Current(16))?;
 			} else if stsd_version == 2 {
-				let extension_struct_size = reader.read_u32()?;
+				// The size of the entire sample description, up to any extensions
+				let struct_size = reader.read_u32()?;
 
-				// Skipping (at least) 32 bytes
-				// Sample rate 64 (8)
-				// Channel count (4)
+				// These replace the values above, which are constants in version 2
+				let sample_rate = f64::from_bits(reader.read_u64()?);
+				properties.sample_rate = Some(sample_rate.round() as u32);
+				properties.channels = Some(reader.read_u32()? as u8);
+
+				// Skipping (at least) 20 bytes
 				// Reserved (4)
 				// Bits per channel (4)
 				// Format specific flags (4)
 				// Bytes per audio packet (4)
 				// LPCM frames per audio packet (4)
-				// Struct size (variable)
-				reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
+				// Extensions (variable)
+				reader.seek(SeekFrom::Current(
+					20 + i64::from(struct_size.saturating_sub(V2_STRUCT_SIZE)),
+				))?;
 			}
 
 			match descriptor_format {
-- 
2.43.0


From 6eb64e6bca4c947227bd6f18e9acc10386d40646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:00 +0000
Subject: [PATCH 085/112] fix: skip the contents of minf when looking for MP4
 audio tracks

---
 lofty/src/mp4/properties.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 5e9421d..86b893a 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -341,7 +341,10 @@ where
 
 						skip_atom(reader, atom.extended, atom.len - 12)?;
 					},
-					b"minf" => minf = Some(atom),
+					b"minf" => {
+						skip_atom(reader, atom.extended, atom.len)?;
+						minf = Some(atom)
+					},
 					_ => {
 						skip_atom(reader, atom.extended, atom.len)?;
 					},
-- 
2.43.0


From 304d6b15fbf26bb350578ce918df3fb0d212c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:08 +0000
Subject: [PATCH 086/112] fix: read ALAC properties followed by a channel
 layout

---
 lofty/src/mp4/properties.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 86b893a..f45a3a2 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -948,8 +948,9 @@ fn alac_properties<R>(
 where
 	R: Read + Seek,
 {
-	// With ALAC, we can expect the length to be exactly 88 (80 here since we removed the size and identifier)
-	if stsd.len() != 80 {
+	// With ALAC, we can expect the length to be at least 88 (80 here since we removed the size and identifier).
+	// There may be more following the codec's own atom, such as a channel layout.
+	if stsd.len() < 80 {
 		return Ok(());
 	}
 
-- 
2.43.0


From a196b0d73d607c425431a1d329e8edc3be66d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:26 +0000
Subject: [PATCH 087/112] fix: use the center speakers in MPEG-4 channel
 configuration 4

---
 lofty/src/properties/channel_mask.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lofty/src/properties/channel_mask.rs b/lofty/src/properties/channel_mask.rs
index 89fa527..c913f03 100644
--- a/lofty/src/properties/channel_mask.rs
+++ b/lofty/src/properties/channel_mask.rs
@@ -146,10 +146,7 @@ impl ChannelMask {
 			2 => Some(Self::stereo()),
 			3 => Some(Self::linear_surround()),
 			4 => Some(Self(
-				Self::FRONT_LEFT.bits()
-					| Self::FRONT_RIGHT.bits()
-					| Self::BACK_LEFT.bits()
-					| Self::BACK_RIGHT.bits(),
+				Self::linear_surround().bits() | Self::BACK_CENTER.bits(),
 			)),
 			5 => Some(Self(
 				Self::linear_surround().bits() | Self::BACK_LEFT.bits() | Self::BACK_RIGHT.bits(),
-- 
2.43.0


From 5025b219f4318a0c3a2979bc20347879620c3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:41 +0000
Subject: [PATCH 088/112] fix: find MPEG frame headers overlapping a rejected
 one

---
 lofty/src/mpeg/header.rs     | 34 ++++++++++++----------------------
 lofty/src/mpeg/properties.rs |  5 +++--
 2 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index c4e985e..7743b81 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -48,7 +48,7 @@ where
 // Unlike `search_for_frame_sync`, since this has the `Seek` bound, it will seek the reader
 // back to the start of the header.
 const REV_FRAME_SEARCH_BOUNDS: u64 = 1024;
-const FRAME_HEADER_LEN: u64 = 4;
+pub(super) const FRAME_HEADER_LEN: u64 = 4;
 pub(super) fn rev_search_for_frame_header<R>(
 	input: &mut R,
 	pos: &mut u64,
@@ -61,28 +61,23 @@ where
 	*pos -= search_bounds;
 	input.seek(SeekFrom::Start(*pos))?;
 
-	let mut buf = Vec::with_capacity(search_bounds as usize);
-	input.take(search_bounds).read_to_end(&mut buf)?;
+	// The last headers in the search area may end past it
+	let read_len = search_bounds + FRAME_HEADER_LEN - 1;
+	let mut buf = Vec::with_capacity(read_len as usize);
+	input.take(read_len).read_to_end(&mut buf)?;
 
-	let mut frame_sync = [0u8; 2];
-	for (i, byte) in buf.iter().rev().enumerate() {
-		frame_sync[1] = frame_sync[0];
-		frame_sync[0] = *byte;
-		if !verify_frame_sync(frame_sync) {
+	for relative_frame_start in (0..search_bounds as usize).rev() {
+		let Some(&[a, b, c, d]) =
+			buf.get(relative_frame_start..relative_frame_start + FRAME_HEADER_LEN as usize)
+		else {
 			continue;
-		}
+		};
 
-		let relative_frame_start = (search_bounds as usize) - (i + 1);
-		if relative_frame_start + 4 > buf.len() {
+		if !verify_frame_sync([a, b]) {
 			continue;
 		}
 
-		let header = Header::read(u32::from_be_bytes([
-			frame_sync[0],
-			frame_sync[1],
-			buf[relative_frame_start + 2],
-			buf[relative_frame_start + 3],
-		]));
+		let header = Header::read(u32::from_be_bytes([a, b, c, d]));
 
 		// We need to check if the header is actually valid. For
 		// all we know, we could be in some junk (ex. 0xFF_FF_FF_FF).
@@ -97,11 +92,6 @@ where
 		return Ok(header);
 	}
 
-	if *pos > 0 {
-		// The header may start in the next search area, and end in this one
-		*pos += FRAME_HEADER_LEN - 1;
-	}
-
 	Ok(None)
 }
 
diff --git a/lofty/src/mpeg/properties.rs b/lofty/src/mpeg/properties.rs
index aa6c062..cb322bb 100644
--- a/lofty/src/mpeg/properties.rs
+++ b/lofty/src/mpeg/properties.rs
@@ -1,6 +1,6 @@
 use super::header::{ChannelMode, Emphasis, Header, Layer, MpegVersion, VbrHeader, VbrHeaderType};
 use crate::mpeg::error::MpegParseError;
-use crate::mpeg::header::rev_search_for_frame_header;
+use crate::mpeg::header::{FRAME_HEADER_LEN, rev_search_for_frame_header};
 use crate::properties::{ChannelMask, FileProperties};
 use crate::util::math::RoundedDivision;
 
@@ -188,7 +188,8 @@ where
 	reader.seek(SeekFrom::Start(last_frame_offset))?;
 
 	let mut last_frame = None;
-	let mut pos = last_frame_offset;
+	// A header has to end before the tags
+	let mut pos = last_frame_offset.saturating_sub(FRAME_HEADER_LEN - 1);
 	while pos > 0 {
 		match rev_search_for_frame_header(reader, &mut pos)? {
 			// Found a frame header
-- 
2.43.0


From b6cb65db8b7968b7f50b9895f9000f4cda56e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:49 +0000
Subject: [PATCH 089/112] fix: ignore reserved frequency indices in MP4 audio
 specific configs

---
 lofty/src/mp4/properties.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index f45a3a2..58b6eb1 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -898,7 +898,11 @@ where
 						}
 					},
 					i if i < SAMPLE_RATES.len() as u8 => {
-						properties.sample_rate = Some(SAMPLE_RATES[i as usize]);
+						// Some indices are reserved, just use the sample rate we already read above
+						let sample_rate = SAMPLE_RATES[i as usize];
+						if sample_rate > 0 {
+							properties.sample_rate = Some(sample_rate);
+						}
 
 						if extended_object_type {
 							let byte_c = stsd.read_u8()?;
-- 
2.43.0


From f20c923802d0ffac7a63a224de12805955b9a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:57 +0000
Subject: [PATCH 090/112] fix: do not truncate the channel count of WavPack
 files

---
 lofty/src/wavpack/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index f05631b..6687e57 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -33,7 +33,7 @@ impl From<WavPackProperties> for FileProperties {
 			audio_bitrate: Some(input.audio_bitrate),
 			sample_rate: Some(input.sample_rate),
 			bit_depth: Some(input.bit_depth),
-			channels: Some(input.channels as u8),
+			channels: u8::try_from(input.channels).ok(),
 			channel_mask: if input.channel_mask == ChannelMask(0) {
 				None
 			} else {
-- 
2.43.0


From a0c5619a5223dbb3f68c08c1c43d7d20cc7d7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:05 +0000
Subject: [PATCH 091/112] fix: do not truncate the channel count of AIFF files

---
 lofty/src/iff/aiff/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/iff/aiff/properties.rs b/lofty/src/iff/aiff/properties.rs
index 0dea9e3..ad047f2 100644
--- a/lofty/src/iff/aiff/properties.rs
+++ b/lofty/src/iff/aiff/properties.rs
@@ -109,7 +109,7 @@ impl From<AiffProperties> for FileProperties {
 			audio_bitrate: Some(value.audio_bitrate),
 			sample_rate: Some(value.sample_rate),
 			bit_depth: Some(value.sample_size as u8),
-			channels: Some(value.channels as u8),
+			channels: u8::try_from(value.channels).ok(),
 			channel_mask: None,
 		}
 	}
-- 
2.43.0


From 1f4e00bfeb9c23305e2ede256b545a1f67551bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:59 +0000
Subject: [PATCH 092/112] fix: compare allocations with the limit in bytes

---
 lofty/src/util/alloc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lofty/src/util/alloc.rs b/lofty/src/util/alloc.rs
index ec1b8d3..9a1010f 100644
--- a/lofty/src/util/alloc.rs
+++ b/lofty/src/util/alloc.rs
@@ -50,7 +50,9 @@ impl<T> VecFallibleRepeat<T> for Vec<T> {
 			return Ok(self);
 		}
 
-		if expected_size > unsafe { global_options().allocation_limit } {
+		if expected_size.saturating_mul(size_of::<T>())
+			> unsafe { global_options().allocation_limit }
+		{
 			return Err(AllocationError::LimitExceeded);
 		}
 
@@ -100,7 +102,7 @@ pub(crate) trait VecFallibleCapacity<T>: Sized {
 
 impl<T> VecFallibleCapacity<T> for Vec<T> {
 	fn try_with_capacity_stable(capacity: usize) -> Result<Self, AllocationError> {
-		if capacity > unsafe { global_options().allocation_limit } {
+		if capacity.saturating_mul(size_of::<T>()) > unsafe { global_options().allocation_limit } {
 			return Err(AllocationError::LimitExceeded);
 		}
 
-- 
2.43.0


From 868ea389eaa800f1c10b2fa8f92f14977365ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:10 +0000
Subject: [PATCH 093/112] fix: do not overflow on the sample count of Musepack
 SV8 files

---
 lofty/src/musepack/sv8/properties.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lofty/src/musepack/sv8/properties.rs b/lofty/src/musepack/sv8/properties.rs
index 65b19d8..8fe9e49 100644
--- a/lofty/src/musepack/sv8/properties.rs
+++ b/lofty/src/musepack/sv8/properties.rs
@@ -291,11 +291,16 @@ pub(super) fn read(
 		return Ok(properties);
 	}
 
-	let length = (total_samples * 1000).div_round(u64::from(sample_rate));
+	let Some(total_samples_millis) = total_samples.checked_mul(1000) else {
+		log::warn!("Sample count is invalid, unable to calculate duration and bitrate");
+		return Ok(properties);
+	};
+
+	let length = total_samples_millis.div_round(u64::from(sample_rate));
 
 	properties.duration = Duration::from_millis(length);
 	properties.average_bitrate =
-		((stream_length * 8 * u64::from(sample_rate)) / (total_samples * 1000)) as u32;
+		((stream_length * 8 * u64::from(sample_rate)) / total_samples_millis) as u32;
 
 	Ok(properties)
 }
-- 
2.43.0


From ac697c3c301ffaadee1d41a14fb490c31a279b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:20 +0000
Subject: [PATCH 094/112] fix: do not overflow on the duration of MP4 tracks

---
 lofty/src/mp4/properties.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 58b6eb1..c843fb1 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -701,8 +701,14 @@ where
 	let mut properties = Mp4Properties::default();
 
 	if timescale > 0 {
-		let duration_millis = (duration * 1000).div_round(u64::from(timescale));
-		properties.duration = Duration::from_millis(duration_millis);
+		// A duration with all bits set is "unknown", and could never be represented in milliseconds
+		match duration.checked_mul(1000) {
+			Some(duration) => {
+				let duration_millis = duration.div_round(u64::from(timescale));
+				properties.duration = Duration::from_millis(duration_millis);
+			},
+			None => log::warn!("MP4: Track duration is invalid, ignoring"),
+		}
 	}
 
 	// We need an `mdhd` atom at the bare minimum, everything else can be optional.
-- 
2.43.0


From 257e3c68debaa0e12df564bec983bff8406243fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:36 +0000
Subject: [PATCH 095/112] fix: limit how deep ID3v2 frames can be embedded in
 one another

---
 lofty/src/id3/v2/frame/content.rs             | 25 ++++++++++++++++---
 lofty/src/id3/v2/frame/read.rs                | 11 ++++++--
 lofty/src/id3/v2/items/chapter_frame.rs       | 23 +++++++++++++++--
 .../id3/v2/items/table_of_contents_frame.rs   | 23 +++++++++++++++--
 lofty/src/id3/v2/read.rs                      |  5 ++--
 5 files changed, 76 insertions(+), 11 deletions(-)

diff --git a/lofty/src/id3/v2/frame/content.rs b/lofty/src/id3/v2/frame/content.rs
index 04a063c..efa61b8 100644
--- a/lofty/src/id3/v2/frame/content.rs
+++ b/lofty/src/id3/v2/frame/content.rs
@@ -12,12 +12,18 @@ use crate::util::text::TextEncoding;
 
 use std::io::Read;
 
+/// How many levels of `CHAP`/`CTOC` frames can be embedded in one another
+///
+/// There is no limit in the spec, but the stack is finite.
+const MAX_FRAME_DEPTH: u8 = 16;
+
 pub(super) fn parse_content<R: Read>(
 	reader: &mut R,
 	id: FrameId<'static>,
 	flags: FrameFlags,
 	version: Id3v2Version,
 	parse_options: ParseOptions,
+	depth: u8,
 ) -> Option<Result<Frame<'static>, FrameParseError>> {
 	log::trace!("Parsing frame content for ID: {}", id);
 
@@ -86,9 +92,22 @@ pub(super) fn parse_content<R: Read>(
 			.transpose()?
 			.map(Frame::Url),
 		"POPM" => PopularimeterFrame::parse(reader, flags).map(Frame::Popularimeter),
-		"CHAP" => ChapterFrame::parse(reader, parse_options, version, flags).map(Frame::Chapter),
-		"CTOC" => ChapterTableOfContentsFrame::parse(reader, parse_options, version, flags)
-			.map(Frame::TableOfContents),
+		"CHAP" | "CTOC" if depth >= MAX_FRAME_DEPTH => {
+			return Some(Err(FrameParseError::message(
+				Some(id),
+				"Embedded frames are nested too deeply",
+			)));
+		},
+		"CHAP" => ChapterFrame::parse_nested(reader, parse_options, version, flags, depth + 1)
+			.map(Frame::Chapter),
+		"CTOC" => ChapterTableOfContentsFrame::parse_nested(
+			reader,
+			parse_options,
+			version,
+			flags,
+			depth + 1,
+		)
+		.map(Frame::TableOfContents),
 		// SYLT, GEOB, and any unknown frames
 		_ => BinaryFrame::parse(reader, id, flags).map(Frame::Binary),
 	})
diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index 914ff03..8762ccc 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -26,6 +26,7 @@ impl ParsedFrame<'static> {
 		version: Id3v2Version,
 		tag_flags: Id3v2TagFlags,
 		parse_options: ParseOptions,
+		depth: u8,
 	) -> Result<Self, FrameParseError>
 	where
 		R: Read + ?Sized,
@@ -147,6 +148,7 @@ impl ParsedFrame<'static> {
 				flags,
 				version,
 				parse_options,
+				depth,
 			),
 			(false, true) => parse_frame(
 				&mut handle_compression(&mut reader)?,
@@ -155,6 +157,7 @@ impl ParsedFrame<'static> {
 				flags,
 				version,
 				parse_options,
+				depth,
 			),
 			(true, false) => parse_frame(
 				&mut UnsynchronizedStream::new(&mut reader),
@@ -163,8 +166,11 @@ impl ParsedFrame<'static> {
 				flags,
 				version,
 				parse_options,
+				depth,
 			),
-			(false, false) => parse_frame(&mut reader, size, id, flags, version, parse_options),
+			(false, false) => {
+				parse_frame(&mut reader, size, id, flags, version, parse_options, depth)
+			},
 		}?;
 
 		// The content may end before the frame does
@@ -258,8 +264,9 @@ fn parse_frame<R: Read>(
 	flags: FrameFlags,
 	version: Id3v2Version,
 	parse_options: ParseOptions,
+	depth: u8,
 ) -> Result<ParsedFrame<'static>, FrameParseError> {
-	match parse_content(reader, id, flags, version, parse_options) {
+	match parse_content(reader, id, flags, version, parse_options, depth) {
 		Some(result) => result.map(ParsedFrame::Next),
 		None => {
 			skip_frame(None, reader, size)?;
diff --git a/lofty/src/id3/v2/items/chapter_frame.rs b/lofty/src/id3/v2/items/chapter_frame.rs
index 702dba4..dd166fc 100644
--- a/lofty/src/id3/v2/items/chapter_frame.rs
+++ b/lofty/src/id3/v2/items/chapter_frame.rs
@@ -174,6 +174,20 @@ impl ChapterFrame<'static> {
 		version: Id3v2Version,
 		frame_flags: FrameFlags,
 	) -> Result<Self, FrameParseError>
+	where
+		R: Read,
+	{
+		Self::parse_nested(reader, parse_options, version, frame_flags, 1)
+	}
+
+	// `depth` is the number of frames this one, and its children, are embedded in
+	pub(in crate::id3::v2) fn parse_nested<R>(
+		reader: &mut R,
+		parse_options: ParseOptions,
+		version: Id3v2Version,
+		frame_flags: FrameFlags,
+		depth: u8,
+	) -> Result<Self, FrameParseError>
 	where
 		R: Read,
 	{
@@ -194,8 +208,13 @@ impl ChapterFrame<'static> {
 		let start_offset = reader.read_u32::<BigEndian>()?;
 		let end_offset = reader.read_u32::<BigEndian>()?;
 
-		let children =
-			read_all_frames_into_list(reader, version, Id3v2TagFlags::default(), parse_options)?;
+		let children = read_all_frames_into_list(
+			reader,
+			version,
+			Id3v2TagFlags::default(),
+			parse_options,
+			depth,
+		)?;
 
 		let header = FrameHeader::new(FRAME_ID, frame_flags);
 		Ok(ChapterFrame {
diff --git a/lofty/src/id3/v2/items/table_of_contents_frame.rs b/lofty/src/id3/v2/items/table_of_contents_frame.rs
index 9e20fbc..06c4ebe 100644
--- a/lofty/src/id3/v2/items/table_of_contents_frame.rs
+++ b/lofty/src/id3/v2/items/table_of_contents_frame.rs
@@ -231,6 +231,20 @@ impl ChapterTableOfContentsFrame<'static> {
 		version: Id3v2Version,
 		frame_flags: FrameFlags,
 	) -> Result<Self, FrameParseError>
+	where
+		R: Read,
+	{
+		Self::parse_nested(reader, parse_options, version, frame_flags, 1)
+	}
+
+	// `depth` is the number of frames this one, and its children, are embedded in
+	pub(in crate::id3::v2) fn parse_nested<R>(
+		reader: &mut R,
+		parse_options: ParseOptions,
+		version: Id3v2Version,
+		frame_flags: FrameFlags,
+		depth: u8,
+	) -> Result<Self, FrameParseError>
 	where
 		R: Read,
 	{
@@ -260,8 +274,13 @@ impl ChapterTableOfContentsFrame<'static> {
 			entries.push(Cow::Owned(entry.content));
 		}
 
-		let children =
-			read_all_frames_into_list(reader, version, Id3v2TagFlags::default(), parse_options)?;
+		let children = read_all_frames_into_list(
+			reader,
+			version,
+			Id3v2TagFlags::default(),
+			parse_options,
+			depth,
+		)?;
 
 		let header = FrameHeader::new(FRAME_ID, frame_flags);
 		Ok(ChapterTableOfContentsFrame {
diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index 05f8e30..8d0556e 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -150,7 +150,7 @@ where
 	let mut tag = Id3v2Tag::default();
 	tag.original_version = header.version;
 	tag.set_flags(header.flags);
-	tag.frames = read_all_frames_into_list(reader, header.version, header.flags, parse_options)?;
+	tag.frames = read_all_frames_into_list(reader, header.version, header.flags, parse_options, 0)?;
 
 	Ok(tag)
 }
@@ -160,11 +160,12 @@ pub(super) fn read_all_frames_into_list(
 	version: Id3v2Version,
 	flags: Id3v2TagFlags,
 	parse_options: ParseOptions,
+	depth: u8,
 ) -> Result<FrameList<'static>, FrameParseError> {
 	let mut list = FrameList::default();
 
 	loop {
-		match ParsedFrame::read(reader, version, flags, parse_options)? {
+		match ParsedFrame::read(reader, version, flags, parse_options, depth)? {
 			ParsedFrame::Next(frame) => {
 				let frame_value_is_empty = frame.is_empty();
 				if let Some(replaced_frame) = list.insert(frame) {
-- 
2.43.0


From b5b62bd93a3a85284db5f195bd768796b3cea0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:49 +0000
Subject: [PATCH 096/112] fix: apply the allocation limit to decompressed ID3v2
 frames

---
 lofty/src/id3/v2/frame/read.rs | 36 ++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index 8762ccc..55d9c87 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -1,5 +1,7 @@
 use super::Frame;
 use super::header::parse::{parse_header, parse_v2_header};
+#[cfg(feature = "id3v2_compression_support")]
+use crate::config::global_options;
 use crate::config::{ParseOptions, ParsingMode};
 use crate::id3::v2::error::FrameParseError;
 use crate::id3::v2::frame::content::parse_content;
@@ -8,6 +10,8 @@ use crate::id3::v2::tag::ATTACHED_PICTURE_ID;
 use crate::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
 use crate::id3::v2::{BinaryFrame, FrameFlags, FrameHeader, FrameId, Id3v2TagFlags};
 use crate::macros::try_vec;
+#[cfg(feature = "id3v2_compression_support")]
+use crate::util::alloc::AllocationError;
 
 use std::borrow::Cow;
 use std::io::Read;
@@ -212,10 +216,38 @@ where
 		.map_err(|e| FrameParseError::io(Some(id.clone()), e))
 }
 
+/// A `ZlibDecoder` that obeys [`GlobalOptions::allocation_limit()`]
+///
+/// The size of the decompressed content isn't known up front (the data length indicator can't be
+/// trusted), so it's only possible to check while decompressing.
+///
+/// [`GlobalOptions::allocation_limit()`]: crate::config::GlobalOptions::allocation_limit
+#[cfg(feature = "id3v2_compression_support")]
+struct LimitedZlibDecoder<R> {
+	decoder: flate2::read::ZlibDecoder<R>,
+	remaining: usize,
+}
+
+#[cfg(feature = "id3v2_compression_support")]
+impl<R: Read> Read for LimitedZlibDecoder<R> {
+	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+		let read = self.decoder.read(buf)?;
+		self.remaining = self
+			.remaining
+			.checked_sub(read)
+			.ok_or_else(|| std::io::Error::other(AllocationError::LimitExceeded))?;
+
+		Ok(read)
+	}
+}
+
 #[cfg(feature = "id3v2_compression_support")]
 #[allow(clippy::unnecessary_wraps)]
-fn handle_compression<R: Read>(reader: R) -> Result<flate2::read::ZlibDecoder<R>, FrameParseError> {
-	Ok(flate2::read::ZlibDecoder::new(reader))
+fn handle_compression<R: Read>(reader: R) -> Result<LimitedZlibDecoder<R>, FrameParseError> {
+	Ok(LimitedZlibDecoder {
+		decoder: flate2::read::ZlibDecoder::new(reader),
+		remaining: unsafe { global_options().allocation_limit },
+	})
 }
 
 #[cfg(not(feature = "id3v2_compression_support"))]
-- 
2.43.0


From 7cba95cdf8a3f8e4b18779b0e557c802d261e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:00 +0000
Subject: [PATCH 097/112] fix: do not poison the custom resolvers when
 panicking

---
 lofty/src/resolve.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lofty/src/resolve.rs b/lofty/src/resolve.rs
index 9fd9981..e109a9a 100644
--- a/lofty/src/resolve.rs
+++ b/lofty/src/resolve.rs
@@ -39,9 +39,10 @@ pub(crate) static CUSTOM_RESOLVERS: LazyLock<Arc<Mutex<ResolverMap>>> =
 	LazyLock::new(Default::default);
 
 pub(crate) fn lookup_resolver(name: &'static str) -> &'static dyn ObjectSafeFileResolver {
-	let res = CUSTOM_RESOLVERS.lock().unwrap();
+	// Don't panic while holding the lock, that would poison the resolvers for everyone else
+	let resolver = CUSTOM_RESOLVERS.lock().unwrap().get(name).copied();
 
-	if let Some(resolver) = res.get(name).copied() {
+	if let Some(resolver) = resolver {
 		return resolver;
 	}
 
@@ -113,11 +114,11 @@ impl<T: FileResolver> ObjectSafeFileResolver for GhostlyResolver<T> {
 /// * See [`Mutex::lock`]
 pub fn register_custom_resolver<T: FileResolver + 'static>(name: &'static str) {
 	let mut res = CUSTOM_RESOLVERS.lock().unwrap();
-	assert!(
-		res.iter().all(|(n, _)| *n != name),
-		"Resolver `{}` already exists!",
-		name
-	);
+	if res.contains_key(name) {
+		// Don't panic while holding the lock, that would poison the resolvers for everyone else
+		drop(res);
+		panic!("Resolver `{}` already exists!", name);
+	}
 
 	let ghost = GhostlyResolver::<T>(PhantomData);
 	let b: Box<dyn ObjectSafeFileResolver> = Box::new(ghost);
-- 
2.43.0


From 46b5f6433b2cef38009cd187d54b45a6445af1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:12 +0000
Subject: [PATCH 098/112] fix: do not hold the lock while calling into custom
 resolvers

---
 lofty/src/file/file_type.rs |  8 +++-----
 lofty/src/probe.rs          |  9 +++------
 lofty/src/resolve.rs        | 16 ++++++++++++++--
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index 486b175..1df60c4 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -1,5 +1,5 @@
 use crate::config::global_options;
-use crate::resolve::CUSTOM_RESOLVERS;
+use crate::resolve::registered_resolvers;
 use crate::tag::{TagSupport, TagType};
 
 use std::ffi::OsStr;
@@ -189,10 +189,8 @@ impl FileType {
 
 		// Give custom resolvers priority
 		if unsafe { global_options().use_custom_resolvers }
-			&& let Some((ty, _)) = CUSTOM_RESOLVERS
-				.lock()
-				.ok()?
-				.iter()
+			&& let Some((ty, _)) = registered_resolvers()
+				.into_iter()
 				.find(|(_, f)| f.extension() == Some(ext.as_str()))
 		{
 			return Some(Self::Custom(ty));
diff --git a/lofty/src/probe.rs b/lofty/src/probe.rs
index 15cd1b4..c3c5d41 100644
--- a/lofty/src/probe.rs
+++ b/lofty/src/probe.rs
@@ -16,7 +16,7 @@ use crate::musepack::MpcFile;
 use crate::ogg::opus::OpusFile;
 use crate::ogg::speex::SpeexFile;
 use crate::ogg::vorbis::VorbisFile;
-use crate::resolve::CUSTOM_RESOLVERS;
+use crate::resolve::registered_resolvers;
 use crate::wavpack::WavPackFile;
 
 use std::fs::File;
@@ -334,11 +334,8 @@ impl<R: Read + Seek> Probe<R> {
 		self.inner.seek(SeekFrom::Start(starting_position))?;
 
 		// Give custom resolvers priority
-		if unsafe { global_options().use_custom_resolvers }
-			&& let Ok(lock) = CUSTOM_RESOLVERS.lock()
-		{
-			#[allow(clippy::significant_drop_in_scrutinee)]
-			for resolve in lock.values() {
+		if unsafe { global_options().use_custom_resolvers } {
+			for (_, resolve) in registered_resolvers() {
 				if let ret @ Some(_) = resolve.guess(&buf[..buf_len]) {
 					return Ok(ret);
 				}
diff --git a/lofty/src/resolve.rs b/lofty/src/resolve.rs
index e109a9a..80fedf7 100644
--- a/lofty/src/resolve.rs
+++ b/lofty/src/resolve.rs
@@ -35,8 +35,20 @@ pub trait FileResolver: Send + Sync + AudioFile {
 // Just broken out to its own type to make `CUSTOM_RESOLVER`'s type shorter :)
 type ResolverMap = HashMap<&'static str, &'static dyn ObjectSafeFileResolver>;
 
-pub(crate) static CUSTOM_RESOLVERS: LazyLock<Arc<Mutex<ResolverMap>>> =
-	LazyLock::new(Default::default);
+static CUSTOM_RESOLVERS: LazyLock<Arc<Mutex<ResolverMap>>> = LazyLock::new(Default::default);
+
+/// A snapshot of the registered resolvers
+///
+/// The methods of the resolvers are user code, which could panic (poisoning the lock for everyone else)
+/// or end up right back in here. They **must not** be called while holding the lock.
+pub(crate) fn registered_resolvers() -> Vec<(&'static str, &'static dyn ObjectSafeFileResolver)> {
+	CUSTOM_RESOLVERS
+		.lock()
+		.unwrap()
+		.iter()
+		.map(|(name, resolver)| (*name, *resolver))
+		.collect()
+}
 
 pub(crate) fn lookup_resolver(name: &'static str) -> &'static dyn ObjectSafeFileResolver {
 	// Don't panic while holding the lock, that would poison the resolvers for everyone else
-- 
2.43.0


From 06010c39fa4454856750b8a6cb02d98f8fe53765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:36 +0000
Subject: [PATCH 099/112] fix: do not overflow when rounding invalid Musepack
 SV8 and MP4 durations

---
 lofty/src/mp4/properties.rs          | 11 ++++-------
 lofty/src/musepack/sv8/properties.rs | 12 ++++--------
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index c843fb1..0a457d8 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -701,13 +701,10 @@ where
 	let mut properties = Mp4Properties::default();
 
 	if timescale > 0 {
-		// A duration with all bits set is "unknown", and could never be represented in milliseconds
-		match duration.checked_mul(1000) {
-			Some(duration) => {
-				let duration_millis = duration.div_round(u64::from(timescale));
-				properties.duration = Duration::from_millis(duration_millis);
-			},
-			None => log::warn!("MP4: Track duration is invalid, ignoring"),
+		let duration_millis = (u128::from(duration) * 1000).div_round(u128::from(timescale));
+		match u64::try_from(duration_millis) {
+			Ok(duration_millis) => properties.duration = Duration::from_millis(duration_millis),
+			Err(_) => log::warn!("MP4: Track duration is invalid, ignoring"),
 		}
 	}
 
diff --git a/lofty/src/musepack/sv8/properties.rs b/lofty/src/musepack/sv8/properties.rs
index 8fe9e49..58aa301 100644
--- a/lofty/src/musepack/sv8/properties.rs
+++ b/lofty/src/musepack/sv8/properties.rs
@@ -291,16 +291,12 @@ pub(super) fn read(
 		return Ok(properties);
 	}
 
-	let Some(total_samples_millis) = total_samples.checked_mul(1000) else {
-		log::warn!("Sample count is invalid, unable to calculate duration and bitrate");
-		return Ok(properties);
-	};
-
-	let length = total_samples_millis.div_round(u64::from(sample_rate));
+	let total_samples_millis = u128::from(total_samples) * 1000;
+	let length = total_samples_millis.div_round(u128::from(sample_rate));
 
-	properties.duration = Duration::from_millis(length);
+	properties.duration = Duration::from_millis(length as u64);
 	properties.average_bitrate =
-		((stream_length * 8 * u64::from(sample_rate)) / total_samples_millis) as u32;
+		((u128::from(stream_length) * 8 * u128::from(sample_rate)) / total_samples_millis) as u32;
 
 	Ok(properties)
 }
-- 
2.43.0


From 948d6476d428cd66a4d51068159dcaf0387bc244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:00 +0000
Subject: [PATCH 100/112] fix: do not divide by zero on Musepack SV7 streams
 without samples

---
 lofty/src/musepack/sv7/properties.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/musepack/sv7/properties.rs b/lofty/src/musepack/sv7/properties.rs
index 8a9460d..74bd83f 100644
--- a/lofty/src/musepack/sv7/properties.rs
+++ b/lofty/src/musepack/sv7/properties.rs
@@ -380,6 +380,11 @@ impl MpcSv7Properties {
 				(u64::from(properties.frame_count) * MPC_FRAME_LENGTH) - MPC_DECODER_SYNTH_DELAY;
 		}
 
+		if total_samples == 0 {
+			log::warn!("Stream has no samples, unable to calculate bitrate");
+			return Ok(properties);
+		}
+
 		properties.average_bitrate = ((stream_length * 8 * u64::from(properties.sample_freq))
 			/ (total_samples * 1000)) as u32;
 
-- 
2.43.0


From 076d3a49242fe091c758d85ab918a3268d21b437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:56 +0000
Subject: [PATCH 101/112] fix: do not underflow on short MP4 dfLa atoms

---
 lofty/src/mp4/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 0a457d8..7506a46 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -1027,7 +1027,7 @@ where
 	// Flags (3)
 	stsd.seek(SeekFrom::Current(4))?;
 
-	if dfla.len - 12 < 18 {
+	if dfla.len < 12 + 18 {
 		// The atom isn't long enough to hold a STREAMINFO block, also not worth an error.
 		return Ok(());
 	}
-- 
2.43.0


From d64be2fee88a8334ab461716780edd83dae589a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:50 +0000
Subject: [PATCH 102/112] fix: map the ID3v2.2 frames TOA and TXT to TOPE and
 TEXT

---
 lofty/src/id3/v2/util/upgrade.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/util/upgrade.rs b/lofty/src/id3/v2/util/upgrade.rs
index f3b7e0b..c118759 100644
--- a/lofty/src/id3/v2/util/upgrade.rs
+++ b/lofty/src/id3/v2/util/upgrade.rs
@@ -91,7 +91,7 @@ gen_upgrades!(
 		"TLA" => "TLAN",
 		"TLE" => "TLEN",
 		"TMT" => "TMED",
-		"TOA" => "TOAL",
+		"TOA" => "TOPE",
 		"TOF" => "TOFN",
 		"TOL" => "TOLY",
 		"TOR" => "TDOR",
@@ -114,7 +114,7 @@ gen_upgrades!(
 		"TT1" => "TIT1",
 		"TT2" => "TIT2",
 		"TT3" => "TIT3",
-		"TXT" => "TOLY",
+		"TXT" => "TEXT",
 		"TXX" => "TXXX",
 		"TYE" => "TDRC",
 		"UFI" => "UFID",
-- 
2.43.0


From 35cbe8e009ce669543e185eda080b2a66b785596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:58 +0000
Subject: [PATCH 103/112] fix: write the downgraded encoding of SYLT frames in
 ID3v2.3

---
 lofty/src/id3/v2/items/sync_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/sync_text.rs b/lofty/src/id3/v2/items/sync_text.rs
index 301ee7f..2e04034 100644
--- a/lofty/src/id3/v2/items/sync_text.rs
+++ b/lofty/src/id3/v2/items/sync_text.rs
@@ -300,7 +300,7 @@ impl SynchronizedTextFrame<'_> {
 			encoding = encoding.to_id3v23();
 		}
 
-		let mut data = vec![self.encoding as u8];
+		let mut data = vec![encoding as u8];
 
 		data.write_all(&self.language)?;
 		data.write_u8(self.timestamp_format as u8)?;
-- 
2.43.0


From 90a61fc0e9c05c3ca7f83f796fee8c340500506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:07 +0000
Subject: [PATCH 104/112] fix: pad the year of TYER frames to four digits

---
 lofty/src/id3/v2/write/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 631cc2c..fd4777f 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -120,7 +120,7 @@ where
 					new_frames.push(Frame::Text(TextInformationFrame::new(
 						FrameId::Valid("TYER".into()),
 						f.encoding.to_id3v23(),
-						year.to_string(),
+						format!("{year:04}"),
 					)));
 
 					if let (Some(month), Some(day)) = (timestamp.month, timestamp.day) {
-- 
2.43.0


From 60c250a858f3829de83a130e7392f0d196661df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:16 +0000
Subject: [PATCH 105/112] fix: accept linked pictures in ID3v2.2 PIC frames

---
 lofty/src/id3/v2/items/attached_picture_frame.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/attached_picture_frame.rs b/lofty/src/id3/v2/items/attached_picture_frame.rs
index 0f9ee88..b5e7473 100644
--- a/lofty/src/id3/v2/items/attached_picture_frame.rs
+++ b/lofty/src/id3/v2/items/attached_picture_frame.rs
@@ -63,7 +63,7 @@ impl<'a> AttachedPictureFrame<'a> {
 	///
 	/// ID3v2.2:
 	///
-	/// * The format is not "PNG" or "JPG"
+	/// * The format is not "PNG", "JPG", or "-->"
 	pub fn parse<R>(
 		reader: &mut R,
 		frame_flags: FrameFlags,
@@ -90,6 +90,10 @@ impl<'a> AttachedPictureFrame<'a> {
 				match format {
 					[b'P', b'N', b'G'] => mime_type = Some(MimeType::Png),
 					[b'J', b'P', b'G'] => mime_type = Some(MimeType::Jpeg),
+					// The picture is a link
+					[b'-', b'-', b'>'] => {
+						mime_type = Some(MimeType::Unknown(String::from("-->")));
+					},
 					_ => {
 						return Err(FrameParseError::message(
 							Some(FRAME_ID),
-- 
2.43.0


From bfd25221f3baf112e43f7299ada2842b8168d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:26 +0000
Subject: [PATCH 106/112] fix: only treat U+FEFF as a byte order mark at the
 start of a UTF-16 string

---
 lofty/src/util/text.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/lofty/src/util/text.rs b/lofty/src/util/text.rs
index fb526d3..3d1da0d 100644
--- a/lofty/src/util/text.rs
+++ b/lofty/src/util/text.rs
@@ -478,16 +478,25 @@ pub(crate) fn utf16_decode_bytes(
 		return Ok(String::new());
 	}
 
-	let unverified: Vec<u16> = bytes
-		.chunks_exact(2)
-		// In ID3v2, it is possible to have multiple UTF-16 strings separated by null.
-		// This also makes it possible for us to encounter multiple BOMs in a single string.
-		// We must filter them out.
-		.filter_map(|c| match c {
-			[0xFF, 0xFE] | [0xFE, 0xFF] => None,
-			_ => Some(endianness(c.try_into().unwrap())), // Infallible
-		})
-		.collect();
+	// In ID3v2, it is possible to have multiple UTF-16 strings separated by null, each with a BOM of
+	// its own. Anywhere else, U+FEFF is a character like any other.
+	let mut endianness = endianness;
+	let mut string_start = true;
+
+	let mut unverified = Vec::with_capacity(bytes.len() / 2);
+	for unit in bytes.chunks_exact(2) {
+		match unit {
+			[0xFF, 0xFE] if string_start => endianness = u16::from_le_bytes,
+			[0xFE, 0xFF] if string_start => endianness = u16::from_be_bytes,
+			_ => {
+				unverified.push(endianness([unit[0], unit[1]]));
+				string_start = unit == [0, 0];
+				continue;
+			},
+		}
+
+		string_start = false;
+	}
 
 	utf16_decode(&unverified)
 }
-- 
2.43.0


From 387b7998b40e7ee9ddea909fae43ebcc9662c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:35 +0000
Subject: [PATCH 107/112] fix: terminate empty strings at the end of IPLS
 frames

---
 lofty/src/id3/v2/write/frame.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index fd4777f..b138cef 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -220,7 +220,7 @@ where
 				}
 
 				for (key, value) in key_value_pairs.to_mut().drain(..) {
-					if !ipls_frame.value.is_empty() {
+					if !ipls_frame.value.is_empty() && !ipls_frame.value.ends_with('\0') {
 						match &mut ipls_frame.value {
 							Cow::Owned(v) => v.push('\0'),
 							v => {
@@ -233,6 +233,11 @@ where
 					}
 
 					ipls_frame.value = Cow::Owned(format!("{}{key}\0{value}", ipls_frame.value));
+
+					// An empty string at the end of the list would be lost without its terminator
+					if value.is_empty() {
+						ipls_frame.value.to_mut().push('\0');
+					}
 				}
 
 				continue;
-- 
2.43.0


From 1c75649d2c00651b81f3eac6930a5a2c8c59df48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:44 +0000
Subject: [PATCH 108/112] fix: keep TDRC frames of ID3v2.3 tags that are more
 than a year

---
 lofty/src/id3/v2/read.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index 8d0556e..ffea65f 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -76,6 +76,7 @@ fn construct_tdrc_from_v3(tag: &mut Id3v2Tag) {
 
 	// This is not a TYER frame
 	if year_frame.timestamp.month.is_some() {
+		tag.insert(Frame::Timestamp(year_frame));
 		return;
 	}
 
-- 
2.43.0


From 7b72a1f189b4bc93b42b52f3e1ddc461a3984968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:53 +0000
Subject: [PATCH 109/112] fix: skip fill bytes in front of JPEG markers

---
 lofty/src/picture/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index 4fb795c..830a97f 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -448,7 +448,12 @@ impl PictureInformation {
 		let mut reader = Cursor::new(reader);
 
 		while let Ok(0xFF) = reader.read_u8() {
-			let marker = reader.read_u8()?;
+			let mut marker = reader.read_u8()?;
+			// Any marker may be preceded by any number of fill bytes
+			while marker == 0xFF {
+				marker = reader.read_u8()?;
+			}
+
 			let section_len = reader.read_u16::<BigEndian>()?;
 
 			// This marks the SOS (Start of Scan), which is
-- 
2.43.0


From 3230efb8cf17b687a8dbd611dfc7638ffa57817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:52 +0000
Subject: [PATCH 110/112] fix: sign extend one byte integers of MP4 data atoms

---
 lofty/src/mp4/ilst/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/read.rs b/lofty/src/mp4/ilst/read.rs
index a07f9ea..6fe3ec0 100644
--- a/lofty/src/mp4/ilst/read.rs
+++ b/lofty/src/mp4/ilst/read.rs
@@ -359,7 +359,7 @@ fn parse_uint(bytes: &[u8]) -> Result<u32, AtomParseError> {
 
 fn parse_int(bytes: &[u8]) -> Result<i32, AtomParseError> {
 	match bytes.len() {
-		1 => Ok(i32::from(bytes[0])),
+		1 => Ok(i32::from(bytes[0] as i8)),
 		2 => Ok(i32::from(i16::from_be_bytes([bytes[0], bytes[1]]))),
 		3 => {
 			let pad = if bytes[0] & 0x80 != 0 { 0xFF } else { 0x00 };
-- 
2.43.0


From 09a8a45baf9fd2d9a279d9821185796a06ffa552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:52 +0000
Subject: [PATCH 111/112] fix: locate the content of MP4 data atoms with
 extended sizes and unknown type sets

---
 lofty/src/mp4/ilst/read.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lofty/src/mp4/ilst/read.rs b/lofty/src/mp4/ilst/read.rs
index 6fe3ec0..7182111 100644
--- a/lofty/src/mp4/ilst/read.rs
+++ b/lofty/src/mp4/ilst/read.rs
@@ -257,13 +257,15 @@ where
 			break;
 		};
 
-		if next_atom.len < 16 {
+		// The header of the atom, followed by the type indicator and the locale
+		let min_len = next_atom.header_size() + 8;
+		if next_atom.len < min_len {
 			log::warn!(
-				"Expected data atom to be at least 16 bytes, got {}. Stopping",
+				"Expected data atom to be at least {min_len} bytes, got {}. Stopping",
 				next_atom.len
 			);
 			if parsing_mode == ParsingMode::Strict {
-				return Err(NotEnoughDataError::new(Some(16)).into());
+				return Err(NotEnoughDataError::new(Some(min_len as usize)).into());
 			}
 
 			break;
@@ -289,21 +291,21 @@ where
 			continue;
 		}
 
+		let content_len = next_atom.len - min_len;
 		let Some(data_type) = parse_type_indicator(reader, parsing_mode)? else {
 			log::warn!("Skipping atom with unknown type set");
-			let remaining_atom_len = next_atom.len - (ATOM_HEADER_LEN + 1);
+			let remaining_atom_len = content_len + 7;
 
 			reader.seek(SeekFrom::Current(remaining_atom_len as i64))?;
-			pos += remaining_atom_len;
+			pos += next_atom.len;
 			continue;
 		};
 
 		// We don't care about the locale
 		reader.seek(SeekFrom::Current(4))?;
 
-		let content_len = (next_atom.len - 16) as usize;
 		if content_len > 0 {
-			let mut content = try_vec![0; content_len]?;
+			let mut content = try_vec![0; content_len as usize]?;
 			reader.read_exact(&mut content)?;
 			ret.push((data_type, content));
 		} else {
-- 
2.43.0


From 3d7cf24be111f5acd967865bc4dc27603c5a7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:52 +0000
Subject: [PATCH 112/112] fix: read the read only flag of APE tags

---
 lofty/src/ape/tag/header.rs | 10 +++++++++-
 lofty/src/ape/tag/read.rs   |  5 ++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index b510888..cced37d 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -9,11 +9,14 @@ use byteorder::{LittleEndian, ReadBytesExt};
 
 // Bit 31 set: tag contains a header
 const HAS_HEADER_FLAG: u32 = 1 << 31;
+// Bit 0 set: tag is read only
+const READ_ONLY_FLAG: u32 = 1;
 
 #[derive(Copy, Clone)]
 pub(crate) struct ApeHeader {
 	pub(crate) size: u32,
 	pub(crate) item_count: u32,
+	pub(crate) read_only: bool,
 }
 
 pub(crate) fn read_ape_header<R>(data: &mut R, footer: bool) -> Result<ApeHeader, ApeTagParseError>
@@ -52,5 +55,10 @@ where
 		return Err(SizeMismatchError.into());
 	}
 
-	Ok(ApeHeader { size, item_count })
+	Ok(ApeHeader {
+		size,
+		item_count,
+		// The flags are unused in version 1
+		read_only: version == 2000 && flags & READ_ONLY_FLAG != 0,
+	})
 }
diff --git a/lofty/src/ape/tag/read.rs b/lofty/src/ape/tag/read.rs
index 75bc350..ae22164 100644
--- a/lofty/src/ape/tag/read.rs
+++ b/lofty/src/ape/tag/read.rs
@@ -68,7 +68,10 @@ where
 		Ok(item)
 	}
 
-	let mut tag = ApeTag::default();
+	let mut tag = ApeTag {
+		read_only: header.read_only,
+		..ApeTag::default()
+	};
 	let mut remaining_size = header.size;
 
 	for _ in 0..header.item_count {
-- 
2.43.0

