From 0e59c70de600b1903f5d2cc0cbfc4b926245f778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 001/111] fix: do not append a blank ID3v1 tag when removing
 one that does not exist

---
 lofty/src/id3/v1/write.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lofty/src/id3/v1/write.rs b/lofty/src/id3/v1/write.rs
index 21bdd3c..d29331f 100644
--- a/lofty/src/id3/v1/write.rs
+++ b/lofty/src/id3/v1/write.rs
@@ -28,11 +28,13 @@ where
 		find_id3v1(&mut file, false, write_options.parse_options.parsing_mode)
 			.map_err(TagParseError::from)?;
 
-	if tag.is_empty() && header.is_some() {
-		// An ID3v1 tag occupies the last 128 bytes of the file, so we can just
-		// shrink it down.
-		let new_length = file.len()?.saturating_sub(128);
-		file.truncate(new_length)?;
+	if tag.is_empty() {
+		if header.is_some() {
+			// An ID3v1 tag occupies the last 128 bytes of the file, so we can just
+			// shrink it down.
+			let new_length = file.len()?.saturating_sub(128);
+			file.truncate(new_length)?;
+		}
 
 		return Ok(());
 	}
-- 
2.43.0


From 68a20c52df38237d59cdf5dccca1368fb6fc48c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 002/111] fix: grow the container size along with an ID3v2
 chunk at the end of an IFF file

---
 lofty/src/id3/v2/write/chunk_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 3a813d5..ec10dfd 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -102,7 +102,7 @@ where
 					updated_stream_len -= remainder;
 					file.truncate(existing_id3_tag.end - remainder)?;
 				} else {
-					updated_stream_len -= tag_chunk_size - existing_tag_len;
+					updated_stream_len += tag_chunk_size - existing_tag_len;
 				}
 			}
 
-- 
2.43.0


From 13f4a802a04e36fe5ad7395d4e60e973f79925a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 003/111] fix: do not count the chunk header in the size of a
 JUNK chunk

---
 lofty/src/id3/v2/write/chunk_file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index ec10dfd..143822b 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -140,7 +140,7 @@ where
 				write_id3v2_chunk::<_, B>(tag, write_options, &mut file)?;
 
 				file.write_all(&JUNK_CHUNK_NAME)?;
-				file.write_u32::<B>(remainder as u32)?;
+				file.write_u32::<B>(remainder as u32 - IFF_CHUNK_HEADER_SIZE)?;
 				return Ok(());
 			}
 		}
-- 
2.43.0


From b9b330b49b587d69345cf87e6007ad5724e386ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 004/111] fix: skip the padding between comments when reading
 an AIFF COMT chunk

---
 lofty/src/iff/aiff/read.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lofty/src/iff/aiff/read.rs b/lofty/src/iff/aiff/read.rs
index f83013a..c12764c 100644
--- a/lofty/src/iff/aiff/read.rs
+++ b/lofty/src/iff/aiff/read.rs
@@ -122,12 +122,19 @@ where
 				{
 					let num_comments = chunk.read_u16::<BigEndian>()?;
 
+					let mut needs_padding = false;
 					for _ in 0..num_comments {
+						// The text of every comment is padded to an even length
+						if needs_padding {
+							let _padding = chunk.read_u8()?;
+						}
+
 						let timestamp = chunk.read_u32::<BigEndian>()?;
 						let marker_id = chunk.read_u16::<BigEndian>()?;
 						let size = chunk.read_u16::<BigEndian>()?;
 
 						let text = chunk.read_string(Some(u32::from(size)))?;
+						needs_padding = size % 2 != 0;
 
 						comments.push(Comment {
 							timestamp,
-- 
2.43.0


From d73943ef916bc18686ff383c54b82a618482a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 005/111] fix: always write the URL of a WXXX frame as Latin-1

---
 lofty/src/id3/v2/items/extended_url_frame.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/extended_url_frame.rs b/lofty/src/id3/v2/items/extended_url_frame.rs
index 7c30778..5376a5a 100644
--- a/lofty/src/id3/v2/items/extended_url_frame.rs
+++ b/lofty/src/id3/v2/items/extended_url_frame.rs
@@ -150,7 +150,12 @@ impl<'a> ExtendedUrlFrame<'a> {
 				.encode(&self.description, true, write_options.lossy_text_encoding)?
 				.iter(),
 		);
-		bytes.extend(encoding.encode(&self.content, false, write_options.lossy_text_encoding)?);
+		// Only the description is encoded as specified, the URL is always Latin-1
+		bytes.extend(TextEncoding::Latin1.encode(
+			&self.content,
+			false,
+			write_options.lossy_text_encoding,
+		)?);
 
 		Ok(bytes)
 	}
-- 
2.43.0


From 0856dcff3d325f378fa65abea72e0e2d5b8574df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 006/111] fix: write the channels of an RVA2 frame in a stable
 order

---
 lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
index 38c4344..ca7dd83 100644
--- a/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
+++ b/lofty/src/id3/v2/items/relative_volume_adjustment_frame.rs
@@ -238,7 +238,11 @@ impl<'a> RelativeVolumeAdjustmentFrame<'a> {
 			write_options.lossy_text_encoding,
 		)?);
 
-		for (channel_type, info) in &*self.channels {
+		// The map is unordered, write the channels in a stable order
+		let mut channels = self.channels.iter().collect::<Vec<_>>();
+		channels.sort_unstable_by_key(|(channel_type, _)| **channel_type as u8);
+
+		for (channel_type, info) in channels {
 			let mut bits_representing_peak = info.bits_representing_peak;
 			let expected_peak_byte_length = (u16::from(bits_representing_peak) + 7) >> 3;
 
-- 
2.43.0


From cdd7da848d817adf8a87543eea0e894cac058d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 007/111] fix: allow ownership and event timing frames to be
 written

---
 lofty/src/id3/v2/write/frame.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 84bc870..3ac1235 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -277,6 +277,8 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 		| ("WFED" | "GRP1" | "MVNM" | "MVIN", Frame::Text { .. })
 		| ("TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG", Frame::Timestamp(_))
 		| ("RVA2", Frame::RelativeVolumeAdjustment(_))
+		| ("OWNE", Frame::Ownership(_))
+		| ("ETCO", Frame::EventTimingCodes(_))
 		| ("PRIV", Frame::Private(_))
 		| ("CHAP", Frame::Chapter(_))
 		| ("CTOC", Frame::TableOfContents(_)) => Ok(()),
-- 
2.43.0


From 7df80463ea8850a38d870d54ce4d3a9a328357cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 008/111] fix: do not count the extended header of an ID3v2 tag
 twice

---
 lofty/src/aac/read.rs      |  4 ++++
 lofty/src/id3/mod.rs       |  6 ++++--
 lofty/src/id3/v2/header.rs | 23 ++++++++++++++++++++---
 lofty/src/mpeg/read.rs     |  4 +++-
 4 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index cc79ee7..98b70cb 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -69,6 +69,10 @@ where
 						continue;
 					}
 					file.id3v2_tag = Some(id3v2);
+				} else {
+					reader.seek(SeekFrom::Current(i64::from(
+						header.size - header.extended_size,
+					)))?;
 				}
 
 				// Skip over the footer
diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 9bf003d..0ea9b22 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -205,13 +205,15 @@ where
 	if let Ok(id3v2_header) = Id3v2Header::parse(reader) {
 		log::debug!("Found an ID3v2 tag, parsing");
 
+		// The extended header is part of the tag size, but it was already read
+		let content_size = id3v2_header.size - id3v2_header.extended_size;
 		if config.read {
-			let mut tag = try_vec![0; id3v2_header.size as usize]?;
+			let mut tag = try_vec![0; content_size as usize]?;
 			reader.read_exact(&mut tag)?;
 
 			id3v2 = Some(tag)
 		} else {
-			reader.seek(SeekFrom::Current(i64::from(id3v2_header.size)))?;
+			reader.seek(SeekFrom::Current(i64::from(content_size)))?;
 		}
 
 		if id3v2_header.flags.footer {
diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 5412c5f..9d63067 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -162,11 +162,18 @@ impl Id3v2Header {
 						extended_size = bytes.read_u32::<BigEndian>()?;
 						read_extended_header(bytes, &mut flags_parsed, extended_size)?;
 					}
+
+					// In ID3v2.3, the size excludes itself
+					extended_size = extended_size.saturating_add(4);
 				},
 				// In ID3v2.4, they seem to be considered one big header (?) so no flags apply to it
 				Id3v2Version::V4 => {
 					extended_size = bytes.read_u32::<BigEndian>()?.unsynch();
-					read_extended_header(bytes, &mut flags_parsed, extended_size)?;
+					read_extended_header(
+						bytes,
+						&mut flags_parsed,
+						extended_size.saturating_sub(4),
+					)?;
 				},
 				_ => unreachable!(),
 			}
@@ -186,19 +193,26 @@ impl Id3v2Header {
 
 	/// The total size of the tag, including the header, footer, and extended header
 	pub(crate) fn full_tag_size(&self) -> u32 {
-		self.size + 10 + self.extended_size + if self.flags.footer { 10 } else { 0 }
+		// The extended header is part of the tag contents
+		self.size + 10 + if self.flags.footer { 10 } else { 0 }
 	}
 }
 
+/// Read the extended header that follows its size
+///
+/// `header_size` is the size of the extended header, excluding the size field itself. All of it will
+/// be consumed.
 fn read_extended_header<R: Read>(
 	reader: &mut R,
 	flags: &mut Id3v2TagFlags,
 	header_size: u32,
 ) -> Result<(), Id3v2ParseError> {
-	if header_size < 6 {
+	if header_size < 2 {
 		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
 	}
 
+	let reader = &mut reader.take(u64::from(header_size));
+
 	// Useless byte since there's only 1 byte for flags
 	let _num_flag_bytes = reader.read_u8()?;
 
@@ -221,5 +235,8 @@ fn read_extended_header<R: Read>(
 		flags.restrictions = Some(TagRestrictions::from_byte(reader.read_u8()?));
 	}
 
+	// Skip whatever is left
+	std::io::copy(reader, &mut std::io::sink())?;
+
 	Ok(())
 }
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index db5bf1c..b909e4e 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -59,7 +59,9 @@ where
 					}
 					file.id3v2_tag = Some(id3v2);
 				} else {
-					reader.seek(SeekFrom::Current(i64::from(header.size)))?;
+					reader.seek(SeekFrom::Current(i64::from(
+						header.size - header.extended_size,
+					)))?;
 				}
 
 				// Skip over the footer
-- 
2.43.0


From edeb0b3fa183a299e5ff5a163c8d983ba0261a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 009/111] fix: return to the starting position when no ID3v2
 tag is found

---
 lofty/src/id3/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 0ea9b22..3832544 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -222,7 +222,7 @@ where
 
 		header = Some(id3v2_header);
 	} else {
-		reader.seek(SeekFrom::Current(-10))?;
+		reader.seek(SeekFrom::Start(start))?;
 	}
 
 	Ok(ID3FindResults(header, id3v2))
-- 
2.43.0


From 6c466c2b964d894f2254078a604cefb8125e5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 010/111] fix: report I/O errors encountered while looking for
 an ID3v2 tag

---
 lofty/src/id3/mod.rs      | 9 ++++++++-
 lofty/src/id3/v2/error.rs | 9 +++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 3832544..d02ef4e 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -202,7 +202,14 @@ where
 		reader.seek(SeekFrom::Current(-3))?;
 	}
 
-	if let Ok(id3v2_header) = Id3v2Header::parse(reader) {
+	let id3v2_header = match Id3v2Header::parse(reader) {
+		Ok(id3v2_header) => Some(id3v2_header),
+		Err(e) if e.is_io_failure() => return Err(e),
+		// Not a tag, or at least not one that can be understood
+		Err(_) => None,
+	};
+
+	if let Some(id3v2_header) = id3v2_header {
 		log::debug!("Found an ID3v2 tag, parsing");
 
 		// The extended header is part of the tag size, but it was already read
diff --git a/lofty/src/id3/v2/error.rs b/lofty/src/id3/v2/error.rs
index 773a3f5..1a55d82 100644
--- a/lofty/src/id3/v2/error.rs
+++ b/lofty/src/id3/v2/error.rs
@@ -101,6 +101,15 @@ pub(crate) struct Id3v2ParseError {
 	source: Box<dyn core::error::Error + Send + Sync + 'static>,
 }
 
+impl Id3v2ParseError {
+	/// Whether the reader failed, as opposed to its contents being invalid or too short
+	pub(crate) fn is_io_failure(&self) -> bool {
+		self.source
+			.downcast_ref::<std::io::Error>()
+			.is_some_and(|e| e.kind() != std::io::ErrorKind::UnexpectedEof)
+	}
+}
+
 impl From<Id3v2ParseError> for TagParseError {
 	fn from(input: Id3v2ParseError) -> Self {
 		TagParseError::new(TagType::Id3v2, input.source)
-- 
2.43.0


From 566d8066ddff755427b55be298dbaab43cda256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 011/111] fix: skip the footer of an ID3v2 tag when guessing
 the file type

---
 lofty/src/file/file_type.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index 029564d..e1b95c9 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -291,10 +291,15 @@ impl FileType {
 			None if buf.len() >= 10 && &buf[..3] == b"ID3" => {
 				// This is infallible, but preferable to an unwrap
 				if let Ok(arr) = buf[6..10].try_into() {
+					let mut size = u32::from_be_bytes(arr).unsynch();
+
+					// The size doesn't include the footer, if there is one (not possible in ID3v2.2)
+					if buf[3] > 2 && buf[5] & 0x10 == 0x10 {
+						size += 10;
+					}
+
 					// Set the ID3v2 size
-					ret = Some(FileTypeGuessResult::MaybePrecededById3(
-						u32::from_be_bytes(arr).unsynch(),
-					));
+					ret = Some(FileTypeGuessResult::MaybePrecededById3(size));
 				}
 			},
 			None => ret = Some(FileTypeGuessResult::MaybePrecededByJunk),
-- 
2.43.0


From 0b12c936153da77369aacec1a7803a9040de5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 012/111] fix: write the pictures and all values of a generic
 APE tag

---
 lofty/src/ape/tag/mod.rs   | 56 ++++++++++++++++++++++++++++++++------
 lofty/src/ape/tag/write.rs |  4 +--
 lofty/src/tag/item.rs      |  4 +--
 3 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index e4fc6f8..824823e 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -679,15 +679,53 @@ pub(crate) fn tagitems_into_ape(tag: &Tag) -> impl Iterator<Item = ApeItemRef<'_
 		})
 	}
 
-	tag.items()
-		.filter(|item| !NUMBER_PAIR_KEYS.contains(&item.key()))
-		.filter_map(|i| {
-			i.key().map_key(TagType::Ape).map(|key| ApeItemRef {
-				read_only: false,
-				key,
-				value: (&i.item_value).into(),
-			})
-		})
+	let mut items: Vec<ApeItemRef<'_>> = Vec::new();
+	for item in tag.items() {
+		if NUMBER_PAIR_KEYS.contains(&item.key()) {
+			continue;
+		}
+
+		let Some(key) = item.key().map_key(TagType::Ape) else {
+			continue;
+		};
+
+		let value = (&item.item_value).into();
+
+		// Keys are unique, multiple values are stored in a single item
+		if let Some(existing) = items.iter_mut().find(|i| i.key.eq_ignore_ascii_case(key)) {
+			match (&mut existing.value, value) {
+				(ItemValueRef::Text(existing), ItemValueRef::Text(new)) => {
+					let existing = existing.to_mut();
+					existing.push('\0');
+					existing.push_str(&new);
+				},
+				(existing, new) => *existing = new,
+			}
+			continue;
+		}
+
+		items.push(ApeItemRef {
+			read_only: false,
+			key,
+			value,
+		});
+	}
+
+	for picture in tag.pictures() {
+		let Some(key) = picture.pic_type.as_ape_key() else {
+			continue;
+		};
+
+		items.retain(|i| !i.key.eq_ignore_ascii_case(key));
+		items.push(ApeItemRef {
+			read_only: false,
+			key,
+			value: ItemValueRef::Binary(Cow::Owned(picture.as_ape_bytes())),
+		});
+	}
+
+	items
+		.into_iter()
 		.chain(create_apeitemref_for_number_pair(
 			tag.get_string(ItemKey::TrackNumber),
 			tag.get_string(ItemKey::TrackTotal),
diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index dbbb317..1e339bc 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -207,10 +207,10 @@ where
 
 	for item in peek {
 		let (mut flags, value) = match item.value {
-			ItemValueRef::Binary(value) => {
+			ItemValueRef::Binary(ref value) => {
 				tag_write.write_u32::<LittleEndian>(value.len() as u32)?;
 
-				(1_u32 << 1, value)
+				(1_u32 << 1, &**value)
 			},
 			ItemValueRef::Text(ref value) => {
 				tag_write.write_u32::<LittleEndian>(value.len() as u32)?;
diff --git a/lofty/src/tag/item.rs b/lofty/src/tag/item.rs
index 11c26ca..dbedb30 100644
--- a/lofty/src/tag/item.rs
+++ b/lofty/src/tag/item.rs
@@ -1037,7 +1037,7 @@ impl ItemValue {
 pub(crate) enum ItemValueRef<'a> {
 	Text(Cow<'a, str>),
 	Locator(&'a str),
-	Binary(&'a [u8]),
+	Binary(Cow<'a, [u8]>),
 }
 
 impl<'a> Into<ItemValueRef<'a>> for &'a ItemValue {
@@ -1045,7 +1045,7 @@ impl<'a> Into<ItemValueRef<'a>> for &'a ItemValue {
 		match self {
 			ItemValue::Text(text) => ItemValueRef::Text(Cow::Borrowed(text)),
 			ItemValue::Locator(locator) => ItemValueRef::Locator(locator),
-			ItemValue::Binary(binary) => ItemValueRef::Binary(binary),
+			ItemValue::Binary(binary) => ItemValueRef::Binary(Cow::Borrowed(binary)),
 		}
 	}
 }
-- 
2.43.0


From d1c0e9ca4d4078ac88a267341b6bca9c63584ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 013/111] fix: write the locator items of a generic tag to
 ID3v2

---
 lofty/src/id3/v2/tag/conversion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 093c693..545b5ba 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -10,7 +10,7 @@ use crate::id3::v2::{
 use crate::io::{FileLike, VerifiedFile};
 use crate::prelude::ItemKey;
 use crate::tag::companion_tag::CompanionTag;
-use crate::tag::{Tag, TagItem, TagType};
+use crate::tag::{ItemValue, Tag, TagItem, TagType};
 
 use super::V4_MULTI_VALUE_SEPARATOR;
 use crate::id3::v2::error::Id3v2EncodingError;
@@ -83,12 +83,12 @@ pub(crate) fn from_tag<'a>(
 					item_value,
 					..
 				}) => {
-					let Some(text) = item_value.text() else {
+					let (ItemValue::Text(text) | ItemValue::Locator(text)) = item_value else {
 						log::warn!("Expected a text item for {item_key:?}");
 						return None;
 					};
 
-					Some((Cow::Borrowed(text), Cow::Borrowed(description)))
+					Some((Cow::Borrowed(text.as_str()), Cow::Borrowed(description)))
 				},
 			}
 		}
-- 
2.43.0


From 87cca662e5e1555562fc6226330163d2259c5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 014/111] fix: write the frames of a generic tag to ID3v2 in a
 stable order

---
 lofty/src/id3/v2/tag/conversion.rs | 43 +++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 545b5ba..5100472 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -24,7 +24,7 @@ use crate::tag::items::{Lang, Timestamp};
 use crate::util::flag_item;
 
 use std::borrow::Cow;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashSet};
 use std::io::Write;
 use std::iter::Peekable;
 use std::str::FromStr;
@@ -55,7 +55,7 @@ impl<'a> Id3v2TagRef<'a, std::iter::Empty<Frame<'a>>> {
 /// without cloning.
 pub(crate) fn from_tag<'a>(
 	items: impl ExactSizeIterator<Item = Cow<'a, TagItem>>,
-) -> impl IntoIterator<Item = Frame<'a>> {
+) -> Vec<Frame<'a>> {
 	fn item_to_frame<'a>(
 		ctx: &mut GenericConversionContext<'a>,
 		item: Cow<'a, TagItem>,
@@ -355,16 +355,16 @@ pub(crate) fn from_tag<'a>(
 
 		// Mappings for text frames that can have multiple values. The values are `Cow`, since there
 		// will only be an allocation if there are multiple occurrences of a single item.
-		text_frames: HashMap<&'static str, Cow<'a, str>>,
-		txxx_frames: HashMap<&'static str, Cow<'a, str>>,
+		text_frames: BTreeMap<&'static str, Cow<'a, str>>,
+		txxx_frames: BTreeMap<&'static str, Cow<'a, str>>,
 
 		// Then frames with languages are special, as they need to be distinguished by both their description
 		// and their language.
 		//
 		// Like normal text frames, there will only be an allocation if there are multiple frames with
 		// the same language and description.
-		comments: HashMap<LanguageAndDescription<'a>, Cow<'a, str>>,
-		unsync_text: HashMap<LanguageAndDescription<'a>, Cow<'a, str>>,
+		comments: BTreeMap<LanguageAndDescription<'a>, Cow<'a, str>>,
+		unsync_text: BTreeMap<LanguageAndDescription<'a>, Cow<'a, str>>,
 
 		// Number frames need to be merged
 		track_number: Option<u32>,
@@ -373,7 +373,21 @@ pub(crate) fn from_tag<'a>(
 		disc_total: Option<u32>,
 	}
 
-	#[derive(Hash, PartialEq, Eq)]
+	// The frames need to be unique, while being written in a predictable order
+	struct UniqueFrames<'a> {
+		seen: HashSet<Frame<'a>>,
+		frames: Vec<Frame<'a>>,
+	}
+
+	impl<'a> UniqueFrames<'a> {
+		fn insert(&mut self, frame: Frame<'a>) {
+			if self.seen.insert(frame.clone()) {
+				self.frames.push(frame);
+			}
+		}
+	}
+
+	#[derive(PartialEq, Eq, PartialOrd, Ord)]
 	struct LanguageAndDescription<'a> {
 		lang: Lang,
 		description: Cow<'a, str>,
@@ -385,17 +399,20 @@ pub(crate) fn from_tag<'a>(
 			TextEncoding::UTF8,
 			Vec::new(),
 		),
-		text_frames: HashMap::new(),
-		txxx_frames: HashMap::new(),
-		comments: HashMap::new(),
-		unsync_text: HashMap::new(),
+		text_frames: BTreeMap::new(),
+		txxx_frames: BTreeMap::new(),
+		comments: BTreeMap::new(),
+		unsync_text: BTreeMap::new(),
 		track_number: None,
 		track_total: None,
 		disc_number: None,
 		disc_total: None,
 	};
 
-	let mut frames = HashSet::with_capacity(items.len());
+	let mut frames = UniqueFrames {
+		seen: HashSet::with_capacity(items.len()),
+		frames: Vec::with_capacity(items.len()),
+	};
 	for item in items {
 		if let Some(frame) = item_to_frame(&mut ctx, item) {
 			frames.insert(frame);
@@ -446,7 +463,7 @@ pub(crate) fn from_tag<'a>(
 		frames.insert(disc_frame);
 	}
 
-	frames
+	frames.frames
 }
 
 // Create an iterator of FrameRef from a Tag's items for Id3v2TagRef::new
-- 
2.43.0


From 681aa7748b472a7ba7333ee634007c558f08e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:25 +0000
Subject: [PATCH 015/111] fix: respect APEv2 tags without a header

---
 lofty/src/ape/tag/header.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index 7ecd9cf..bdc1520 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -13,6 +13,9 @@ pub(crate) struct ApeHeader {
 	pub(crate) item_count: u32,
 }
 
+// Bit 31 of the flags
+const HAS_HEADER_FLAG: u32 = 1 << 31;
+
 pub(crate) fn read_ape_header<R>(data: &mut R, footer: bool) -> Result<ApeHeader, ApeTagParseError>
 where
 	R: Read + Seek,
@@ -28,19 +31,19 @@ where
 	}
 
 	let item_count = data.read_u32::<LittleEndian>()?;
+	let flags = data.read_u32::<LittleEndian>()?;
 
 	if footer {
 		// No point in reading the rest of the footer, just seek back to the end of the header
-		data.seek(SeekFrom::Current(i64::from(size - 12).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size - 8).neg()))?;
 	} else {
-		// There are 12 bytes remaining in the header
-		// Flags (4)
-		// Reserved (8)
-		data.seek(SeekFrom::Current(12))?;
+		// There are 8 reserved bytes remaining in the header
+		data.seek(SeekFrom::Current(8))?;
 	}
 
-	// Version 1 doesn't include a header
-	if version == 2000 {
+	// Version 1 doesn't include a header, and it is optional in version 2
+	let has_header = !footer || flags & HAS_HEADER_FLAG == HAS_HEADER_FLAG;
+	if version == 2000 && has_header {
 		size = size.saturating_add(32);
 	}
 
-- 
2.43.0


From 36c0aa27eef6a3e3e908ba10f81725b9919fb0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 016/111] fix: find an APE tag at the start of a file when
 writing one

---
 lofty/src/ape/tag/write.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index 1e339bc..78d2347 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -67,9 +67,6 @@ where
 	// We don't actually need the ID3v2 tag, but reading it will seek to the end of it if it exists
 	find_id3v2(file, FindId3v2Config::NO_READ_TAG).map_err(TagParseError::from)?;
 
-	let mut ape_preamble = [0; 8];
-	file.read_exact(&mut ape_preamble)?;
-
 	// We have to check the APE tag for any read only items first
 	let mut read_only = None;
 
-- 
2.43.0


From 81dcf72467199189cdbb8f0a6baed87c49a09735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 017/111] fix: keep other bitstreams and trailing data intact
 when writing to OGG

---
 lofty/src/ogg/tag/write.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lofty/src/ogg/tag/write.rs b/lofty/src/ogg/tag/write.rs
index c9ef0fa..2bfee9d 100644
--- a/lofty/src/ogg/tag/write.rs
+++ b/lofty/src/ogg/tag/write.rs
@@ -122,7 +122,17 @@ where
 	// Correct all remaining page sequence numbers
 	let mut pages_reader = Cursor::new(&remaining_file_content[..]);
 	let mut idx = 0;
+	let mut end_of_pages = 0;
 	while let Ok(mut page) = Page::read(&mut pages_reader) {
+		let page_start = end_of_pages;
+		end_of_pages = pages_reader.position() as usize;
+
+		// Leave the pages of any other bitstreams alone
+		if page.header().stream_serial != stream_serial {
+			file.write_all(&remaining_file_content[page_start..end_of_pages])?;
+			continue;
+		}
+
 		let header = page.header_mut();
 		header.sequence_number = pages_written + idx;
 		page.gen_crc();
@@ -131,6 +141,9 @@ where
 		idx += 1;
 	}
 
+	// Retain anything that follows the pages
+	file.write_all(&remaining_file_content[end_of_pages..])?;
+
 	Ok(())
 }
 
-- 
2.43.0


From 6f8e7eb64516aaf6335f690842549b0bfb404464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 018/111] fix: preserve the order of the items that are not
 taken from a tag

---
 lofty/src/tag/mod.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/lofty/src/tag/mod.rs b/lofty/src/tag/mod.rs
index 7133a95..2acaeaf 100644
--- a/lofty/src/tag/mod.rs
+++ b/lofty/src/tag/mod.rs
@@ -466,17 +466,12 @@ impl Tag {
 		F: FnMut(&TagItem) -> bool,
 	{
 		// TODO: drain_filter
-		let mut split_idx = 0;
+		let (taken, remaining): (Vec<_>, Vec<_>) = std::mem::take(&mut self.items)
+			.into_iter()
+			.partition(|item| item.key() == key && filter(item));
 
-		for read_idx in 0..self.items.len() {
-			let item = &self.items[read_idx];
-			if item.key() == key && filter(item) {
-				self.items.swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
-
-		self.items.drain(..split_idx)
+		self.items = remaining;
+		taken.into_iter()
 	}
 
 	/// Removes all items with the specified [`ItemKey`], and filters them through [`ItemValue::into_string()`]
-- 
2.43.0


From d35780942e1cee7f2fe09b97d7133ea5a2413f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 019/111] fix: flag the presence of the extended header in
 written ID3v2 tags

---
 lofty/src/id3/v2/write/mod.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index ceaa876..4390d51 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -110,8 +110,9 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 	}
 
 	let has_footer = tag.flags.footer;
-	let needs_crc = tag.flags.crc;
-	let has_restrictions = tag.flags.restrictions.is_some();
+	// The extended header is only supported in ID3v2.4
+	let needs_crc = !is_id3v23 && tag.flags.crc;
+	let has_restrictions = !is_id3v23 && tag.flags.restrictions.is_some();
 
 	let (mut id3v2, extended_header_len) = create_tag_header(tag.flags, is_id3v23)?;
 	let header_len = id3v2.get_ref().len();
@@ -146,7 +147,7 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		let mut content_start_idx = 22;
 
 		if has_restrictions {
-			content_start_idx += 3;
+			content_start_idx += 2;
 		}
 
 		// Skip 16 bytes
@@ -207,14 +208,19 @@ fn create_tag_header(
 		header.write_all(&[4, 0])?;
 	}
 
-	let extended_header = flags.crc || flags.restrictions.is_some();
+	// The extended header is only supported in ID3v2.4
+	let extended_header = !is_id3v23 && (flags.crc || flags.restrictions.is_some());
 
-	let tag_flags = if is_id3v23 {
+	let mut tag_flags = if is_id3v23 {
 		flags.as_id3v23_byte()
 	} else {
 		flags.as_id3v24_byte()
 	};
 
+	if extended_header {
+		tag_flags |= 0x40;
+	}
+
 	header.write_u8(tag_flags)?;
 	header.write_u32::<BigEndian>(0)?;
 
-- 
2.43.0


From f56026ae2c64d30aad6088e59c45df721d3ca5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 020/111] fix: use the right bit for the experimental flag of
 ID3v2.3

---
 lofty/src/id3/v2/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 9d63067..a0ed431 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -80,7 +80,7 @@ impl Id3v2TagFlags {
 		let mut byte = 0;
 
 		if self.experimental {
-			byte |= 0x40;
+			byte |= 0x20;
 		}
 
 		if self.footer {
-- 
2.43.0


From 976bf67a802aa8a6d0b9ab62de6b844ebff57a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 021/111] fix: do not flag ID3v2 frames as unsynchronised or
 compressed when they are not

---
 lofty/src/id3/v2/write/frame.rs | 8 +++++++-
 lofty/src/id3/v2/write/mod.rs   | 5 ++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 3ac1235..8360517 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -297,18 +297,24 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 fn write_frame<W>(
 	writer: &mut W,
 	name: &str,
-	flags: FrameFlags,
+	mut flags: FrameFlags,
 	value: &[u8],
 	write_options: WriteOptions,
 ) -> Result<(), FrameEncodingError>
 where
 	W: Write,
 {
+	// The content is always written as-is, regardless of how it was stored originally
+	flags.unsynchronisation = false;
+	flags.compression = false;
+
 	if flags.encryption.is_some() {
 		write_encrypted(writer, name, value, flags, write_options)?;
 		return Ok(());
 	}
 
+	flags.data_length_indicator = None;
+
 	let len = value.len() as u32;
 	let is_grouping_identity = flags.grouping_identity.is_some();
 
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 4390d51..c733e8e 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -193,9 +193,12 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 }
 
 fn create_tag_header(
-	flags: Id3v2TagFlags,
+	mut flags: Id3v2TagFlags,
 	is_id3v23: bool,
 ) -> Result<(Cursor<Vec<u8>>, u32), Id3v2EncodingError> {
+	// The frames are never written unsynchronised
+	flags.unsynchronisation = false;
+
 	let mut header = Cursor::new(Vec::new());
 
 	header.write_all(b"ID3")?;
-- 
2.43.0


From f1c5deab5c5f0dd93949febf7a27d50486ce8c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 022/111] fix: write the header of encrypted ID3v2 frames in
 the order it is read

---
 lofty/src/id3/v2/write/frame.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 8360517..f95b61b 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -359,13 +359,28 @@ where
 	if let Some(mut len) = flags.data_length_indicator
 		&& len > 0
 	{
-		write_frame_header(writer, name, (value.len() + 1) as u32, flags, write_options)?;
+		// Method symbol + data length indicator
+		let mut extra_len = 1 + 4;
+		if flags.grouping_identity.is_some() {
+			extra_len += 1;
+		}
+
+		write_frame_header(
+			writer,
+			name,
+			(value.len() + extra_len) as u32,
+			flags,
+			write_options,
+		)?;
 		if !write_options.use_id3v23 {
 			len = len.synch()?;
 		}
 
-		writer.write_u32::<BigEndian>(len)?;
 		writer.write_u8(method_symbol)?;
+		if let Some(group) = flags.grouping_identity {
+			writer.write_u8(group)?;
+		}
+		writer.write_u32::<BigEndian>(len)?;
 		writer.write_all(value)?;
 
 		return Ok(());
-- 
2.43.0


From fa0357c9c13d689d4079f5c50b2ca37ee7d1c25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 023/111] fix: respect the header size of MP4 atoms with an
 extended length

---
 lofty/src/mp4/atom_info.rs  | 12 +++++++++---
 lofty/src/mp4/ilst/write.rs | 18 +++++++++---------
 lofty/src/mp4/moov.rs       |  7 ++++++-
 lofty/src/mp4/properties.rs |  7 +++++--
 lofty/src/mp4/read/mod.rs   | 32 ++++++++++++++++++--------------
 lofty/src/mp4/write.rs      |  2 +-
 6 files changed, 48 insertions(+), 30 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index 31099a6..a46c4b8 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -190,18 +190,24 @@ impl AtomInfo {
 
 				reader.seek(SeekFrom::Start(pos))?;
 
-				(end - pos, false)
+				(end - start, false)
 			},
 			// There's an extended length
 			1 => (reader.read_u64::<BigEndian>()?, true),
 			_ => (len_raw, false),
 		};
 
-		if len < ATOM_HEADER_LEN {
+		let header_len = if extended {
+			ATOM_HEADER_LEN + 8
+		} else {
+			ATOM_HEADER_LEN
+		};
+
+		if len < header_len {
 			// Seek to the end, since we can't recover from this
 			reader.seek(SeekFrom::End(0))?;
 
-			return Err(NotEnoughDataError::new(Some(8)).into());
+			return Err(NotEnoughDataError::new(Some(header_len as usize)).into());
 		}
 
 		// `len` includes itself and the identifier
diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 1be152b..7931615 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -66,10 +66,7 @@ where
 		moov_len
 	);
 
-	let mut moov_data_start = moov_start + ATOM_HEADER_LEN;
-	if moov_extended {
-		moov_data_start += 8;
-	}
+	let moov_data_start = moov_start + moov.info.header_size();
 
 	let mut write_handle = atom_writer.start_write();
 	write_handle.seek(SeekFrom::Start(moov_data_start))?;
@@ -79,7 +76,7 @@ where
 
 	let udta = find_child_atom(
 		&mut write_handle,
-		moov_len,
+		moov_len - moov.info.header_size(),
 		*b"udta",
 		write_options.parse_options.parsing_mode,
 	)
@@ -108,7 +105,7 @@ where
 
 		let meta = find_child_atom(
 			&mut write_handle,
-			udta.len,
+			udta.len - udta.header_size(),
 			*b"meta",
 			write_options.parse_options.parsing_mode,
 		)
@@ -171,7 +168,7 @@ where
 				write_handle.write_atom_size(udta.start, new_udta_size, udta.extended)?;
 
 				// We'll put the new `meta` atom right at the start of `udta`
-				let meta_start_pos = (udta.start + ATOM_HEADER_LEN) as usize;
+				let meta_start_pos = (udta.start + udta.header_size()) as usize;
 				write_handle.splice(meta_start_pos..meta_start_pos, bytes);
 
 				// TODO: We need to drop the handle at the end of each branch, which is annoying
@@ -187,7 +184,7 @@ where
 		new_udta_size = bytes.len() as u64;
 
 		// We'll put the new `udta` atom right at the start of `moov`
-		let udta_pos = (moov_start + ATOM_HEADER_LEN) as usize;
+		let udta_pos = moov_data_start as usize;
 		write_handle.splice(udta_pos..udta_pos, bytes);
 
 		drop(write_handle);
@@ -228,9 +225,12 @@ fn save_to_existing(
 
 	let mut write_handle = writer.start_write();
 
+	// The handle is at the start of the atoms nested in `meta`
+	let meta_data_start = write_handle.stream_position()?;
+
 	let (ilst_idx, tree) = atom_tree(
 		&mut write_handle,
-		meta.len - ATOM_HEADER_LEN,
+		(meta.start + meta.len).saturating_sub(meta_data_start),
 		b"ilst",
 		write_options.parse_options.parsing_mode,
 	)
diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index c85b2d7..b9f86b8 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -51,7 +51,12 @@ impl Moov {
 					b"trak" if parse_options.read_properties => {
 						// All we need from here is trak.mdia
 						if let Some(mdia) =
-							find_child_atom(reader, atom.len, *b"mdia", parse_options.parsing_mode)?
+							find_child_atom(
+								reader,
+								atom.len - atom.header_size(),
+								*b"mdia",
+								parse_options.parsing_mode,
+							)?
 						{
 							skip_atom(reader, mdia.extended, mdia.len)?;
 							traks.push(mdia);
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index f86f52d..521438c 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -701,8 +701,11 @@ where
 		return Ok(properties);
 	};
 
-	reader.seek(SeekFrom::Start(minf_info.start + 8))?;
-	let Some(Minf { stsd_data, stts }) = Minf::parse(reader, minf_info.len, parse_mode)? else {
+	let minf_header_size = minf_info.header_size();
+	reader.seek(SeekFrom::Start(minf_info.start + minf_header_size))?;
+	let Some(Minf { stsd_data, stts }) =
+		Minf::parse(reader, minf_info.len - minf_header_size, parse_mode)?
+	else {
 		return Ok(properties);
 	};
 
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 5954072..6a9a648 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -5,7 +5,9 @@ use super::atom_info::{AtomIdent, AtomInfo};
 use super::moov::Moov;
 use super::properties::Mp4Properties;
 use crate::config::{ParseOptions, ParsingMode};
-use crate::error::{NotEnoughDataError, TooMuchDataError, UnknownFormatError};
+use crate::error::{
+	NotEnoughDataError, SizeMismatchError, TooMuchDataError, UnknownFormatError,
+};
 use crate::mp4::error::{AtomParseError, Mp4ParseError};
 use crate::util::io::SeekStreamLen;
 use crate::util::text::utf8_decode_str;
@@ -61,7 +63,11 @@ where
 
 	// Find the `moov` atom and restrict the reader to its length
 	let moov_info = Moov::find(&mut reader)?;
-	reader.reset_bounds(moov_info.start + 8, moov_info.len - 8);
+	let moov_header_size = moov_info.header_size();
+	reader.reset_bounds(
+		moov_info.start + moov_header_size,
+		moov_info.len - moov_header_size,
+	);
 
 	let moov = Moov::parse(&mut reader, parse_options)?;
 
@@ -97,27 +103,25 @@ pub(super) fn skip_atom<R>(reader: &mut R, extended: bool, len: u64) -> Result<(
 where
 	R: Read + Seek,
 {
-	log::trace!("Attempting to skip {} bytes", len - 8);
-
-	if !extended {
-		reader.seek(SeekFrom::Current(i64::from(len as u32) - 8))?;
-		return Ok(());
-	}
+	let header_len = if extended { 16 } else { 8 };
+	let Some(content_len) = len.checked_sub(header_len) else {
+		return Err(SizeMismatchError.into());
+	};
 
-	let pos = reader.stream_position()?;
+	log::trace!("Attempting to skip {} bytes", content_len);
 
-	let Some(pos) = pos.checked_add(len - 8) else {
+	let Ok(content_len) = i64::try_from(content_len) else {
 		return Err(TooMuchDataError.into());
 	};
 
-	reader.seek(SeekFrom::Start(pos))?;
+	reader.seek(SeekFrom::Current(content_len))?;
 
 	Ok(())
 }
 
 /// Finds the first child atom with the given fourcc
 ///
-/// * `len` is the length of the parent atom
+/// * `len` is the length of the content of the parent atom
 /// * `expected` is the fourcc of the child atom to find
 pub(super) fn find_child_atom<R>(
 	reader: &mut R,
@@ -130,7 +134,7 @@ where
 {
 	let mut ret = None;
 
-	while len > 8 {
+	while len >= 8 {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
@@ -165,7 +169,7 @@ where
 
 	let mut i = 0;
 
-	while len > 8 {
+	while len >= 8 {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
 		};
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 276c5cf..20f418b 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -212,7 +212,7 @@ impl AtomWriterCompanion<'_> {
 		size: u64,
 		extended: bool,
 	) -> std::io::Result<()> {
-		if u32::try_from(size).is_ok() {
+		if !extended && u32::try_from(size).is_ok() {
 			// ???? (identifier)
 			self.write_u32::<BigEndian>(size as u32)?;
 			self.seek(SeekFrom::Current(IDENTIFIER_LEN as i64))?;
-- 
2.43.0


From 8ae4aff4ab189c6c9bd366bfdf39cb3df42b509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 024/111] fix: keep track of the remaining size when seeking in
 a bounded part of an MP4 file

---
 lofty/src/mp4/read/atom_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/read/atom_reader.rs b/lofty/src/mp4/read/atom_reader.rs
index 7861b5d..0de95df 100644
--- a/lofty/src/mp4/read/atom_reader.rs
+++ b/lofty/src/mp4/read/atom_reader.rs
@@ -123,7 +123,7 @@ where
 				}
 
 				let ret = self.reader.seek(SeekFrom::Start(self.start + s))?;
-				self.remaining_size = self.len.saturating_sub(ret);
+				self.remaining_size = self.len - s;
 				Ok(ret)
 			},
 			SeekFrom::End(s) => {
@@ -134,6 +134,7 @@ where
 
 				let bound_end = self.start + self.len;
 				let relative_seek_count = core::cmp::min(self.len, s.unsigned_abs());
+				self.remaining_size = relative_seek_count;
 				self.reader.seek(SeekFrom::Start(
 					bound_end.saturating_sub(relative_seek_count),
 				))
-- 
2.43.0


From f00ad217459c57b8044f8487049f5803fc7995ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 025/111] fix: find the entries of MP4 co64 atoms

---
 lofty/src/mp4/ilst/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 7931615..c11eff0 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -478,7 +478,7 @@ fn update_offsets(
 	for co64 in moov.find_all_children(*b"co64", true) {
 		log::trace!("Found `co64` atom");
 
-		write_handle.seek(SeekFrom::Start(co64.start + ATOM_HEADER_LEN + 8 + 4))?;
+		write_handle.seek(SeekFrom::Start(co64.start + co64.header_size() + 4))?;
 
 		let count = write_handle.read_u32::<BigEndian>()?;
 		for _ in 0..count {
-- 
2.43.0


From bb0b3730232ff95f263732d50b26b9f1376bba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 026/111] fix: update the data offsets of all MP4 movie
 fragments

---
 lofty/src/mp4/ilst/write.rs | 14 +++++++-------
 lofty/src/mp4/write.rs      | 14 +++++++++++---
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index c11eff0..1e3abcb 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -497,14 +497,11 @@ fn update_offsets(
 		}
 	}
 
-	let Some(moof) = writer.find_contextual_atom(*b"moof") else {
-		return Ok(());
-	};
-
-	log::trace!("Found `moof` atom, checking for `tfhd` atoms to update");
-
 	// 64-bit offsets
-	for tfhd in moof.find_all_children(*b"tfhd", true) {
+	for tfhd in writer
+		.find_contextual_atoms(*b"moof")
+		.flat_map(|moof| moof.find_all_children(*b"tfhd", true))
+	{
 		log::trace!("Found `tfhd` atom");
 
 		let tfhd_start = tfhd.start;
@@ -523,6 +520,9 @@ fn update_offsets(
 		let base_data_offset = (flags & 0b1) != 0;
 
 		if base_data_offset {
+			// Skip the track ID (4)
+			write_handle.seek(SeekFrom::Current(4))?;
+
 			let read_offset = write_handle.read_u64::<BigEndian>()?;
 			if read_offset < ilst_offset {
 				continue;
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 20f418b..877354a 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -25,6 +25,7 @@ const IMPORTANT_CONTAINERS: &[[u8; 4]] = &[
 	*b"moov",
 		*b"udta",
 		*b"moof",
+			*b"traf",
 		*b"trak",
 			*b"mdia",
 				*b"minf",
@@ -152,9 +153,16 @@ impl AtomWriter {
 	}
 
 	pub(super) fn find_contextual_atom(&self, fourcc: [u8; 4]) -> Option<&ContextualAtom> {
-		self.atoms
-			.iter()
-			.find(|atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc))
+		self.find_contextual_atoms(fourcc).next()
+	}
+
+	pub(super) fn find_contextual_atoms(
+		&self,
+		fourcc: [u8; 4],
+	) -> impl Iterator<Item = &ContextualAtom> {
+		self.atoms.iter().filter(
+			move |atom| matches!(atom.info.ident, AtomIdent::Fourcc(ident) if ident == fourcc),
+		)
 	}
 
 	pub(super) fn into_contents(self) -> Vec<u8> {
-- 
2.43.0


From 19c4796557aa32b8ea67b74a40715f3b1fc37bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 027/111] fix: do not panic when a small padding is preferred
 for MP4 files

---
 lofty/src/mp4/ilst/write.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 1e3abcb..58fdccf 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -409,6 +409,9 @@ where
 		return Ok((atom_size_difference, 0));
 	};
 
+	// The smallest possible `free` atom is just a header
+	let preferred_padding = core::cmp::max(preferred_padding.get(), ATOM_HEADER_LEN as u32);
+
 	log::trace!(
 		"Cannot avoid offset update, padding atom with {} bytes",
 		preferred_padding
@@ -416,9 +419,9 @@ where
 
 	// Otherwise, we'll have to just pad the default amount,
 	// and update the offsets.
-	write_free_atom(writer, preferred_padding.get())?;
-	atom_size_difference += i64::from(preferred_padding.get());
-	padding_size = u64::from(preferred_padding.get());
+	write_free_atom(writer, preferred_padding)?;
+	atom_size_difference += i64::from(preferred_padding);
+	padding_size = u64::from(preferred_padding);
 
 	Ok((atom_size_difference, padding_size))
 }
@@ -427,6 +430,8 @@ fn write_free_atom<W>(writer: &mut W, size: u32) -> Result<(), FileEncodingError
 where
 	W: Write,
 {
+	debug_assert!(u64::from(size) >= ATOM_HEADER_LEN);
+
 	writer.write_u32::<BigEndian>(size)?;
 	writer.write_all(b"free")?;
 	writer.write_all(&try_vec![1; (size - ATOM_HEADER_LEN as u32) as usize]?)?;
-- 
2.43.0


From 26d222b0d03ede75210011c488d3ec3abcf47c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 028/111] fix: do not overwrite the first atom of an MP4 meta
 atom without an ilst

---
 lofty/src/mp4/ilst/write.rs | 22 +++++++++++-----------
 lofty/src/mp4/read/mod.rs   | 14 ++++----------
 2 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 58fdccf..7f21739 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -236,17 +236,7 @@ fn save_to_existing(
 	)
 	.map_err(Into::<FileParseError>::into)?;
 
-	if tree.is_empty() {
-		// Nothing to do
-		if remove_tag {
-			return Ok(());
-		}
-
-		let meta_end = (meta.start + meta.len) as usize;
-
-		replacement = ilst;
-		range = meta_end..meta_end;
-	} else {
+	if let Some(ilst_idx) = ilst_idx {
 		let existing_ilst = &tree[ilst_idx];
 		let existing_ilst_size = existing_ilst.len;
 
@@ -321,6 +311,16 @@ fn save_to_existing(
 			replacement = ilst;
 			range = range_start as usize..range_end as usize;
 		}
+	} else {
+		// Nothing to do
+		if remove_tag {
+			return Ok(());
+		}
+
+		let meta_end = (meta.start + meta.len) as usize;
+
+		replacement = ilst;
+		range = meta_end..meta_end;
 	}
 
 	drop(write_handle);
diff --git a/lofty/src/mp4/read/mod.rs b/lofty/src/mp4/read/mod.rs
index 6a9a648..ef68256 100644
--- a/lofty/src/mp4/read/mod.rs
+++ b/lofty/src/mp4/read/mod.rs
@@ -160,15 +160,13 @@ pub(super) fn atom_tree<R>(
 	mut len: u64,
 	up_to: &[u8],
 	parse_mode: ParsingMode,
-) -> Result<(usize, Vec<AtomInfo>), Mp4ParseError>
+) -> Result<(Option<usize>, Vec<AtomInfo>), Mp4ParseError>
 where
 	R: Read + Seek,
 {
-	let mut found_idx: usize = 0;
+	let mut found_idx = None;
 	let mut buf = Vec::new();
 
-	let mut i = 0;
-
 	while len >= 8 {
 		let Some(atom) = AtomInfo::read(reader, len, parse_mode)? else {
 			break;
@@ -178,18 +176,14 @@ where
 		len = len.saturating_sub(atom.len);
 
 		if let AtomIdent::Fourcc(ref fourcc) = atom.ident {
-			i += 1;
-
-			if fourcc == up_to {
-				found_idx = i;
+			if found_idx.is_none() && fourcc == up_to {
+				found_idx = Some(buf.len());
 			}
 
 			buf.push(atom);
 		}
 	}
 
-	found_idx = found_idx.saturating_sub(1);
-
 	Ok((found_idx, buf))
 }
 
-- 
2.43.0


From da281a08e41ff30e441b67dc84da5594e7e1bc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 029/111] fix: update the chunk offsets when creating the udta
 or meta atom of an MP4 file

---
 lofty/src/mp4/ilst/write.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 7f21739..c036cb8 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -160,6 +160,10 @@ where
 					bytes = meta_writer.into_contents();
 				}
 
+				// We'll put the new `meta` atom right at the start of `udta`
+				let meta_start_pos = udta.start + udta.header_size();
+				update_offsets(&atom_writer, moov, bytes.len() as i64, meta_start_pos)?;
+
 				write_handle = atom_writer.start_write();
 
 				new_udta_size = udta.len + bytes.len() as u64;
@@ -167,8 +171,7 @@ where
 				write_handle.seek(SeekFrom::Start(udta.start))?;
 				write_handle.write_atom_size(udta.start, new_udta_size, udta.extended)?;
 
-				// We'll put the new `meta` atom right at the start of `udta`
-				let meta_start_pos = (udta.start + udta.header_size()) as usize;
+				let meta_start_pos = meta_start_pos as usize;
 				write_handle.splice(meta_start_pos..meta_start_pos, bytes);
 
 				// TODO: We need to drop the handle at the end of each branch, which is annoying
@@ -183,7 +186,12 @@ where
 		let bytes = create_udta(&ilst, write_options)?;
 		new_udta_size = bytes.len() as u64;
 
+		drop(write_handle);
+
 		// We'll put the new `udta` atom right at the start of `moov`
+		update_offsets(&atom_writer, moov, bytes.len() as i64, moov_data_start)?;
+
+		let mut write_handle = atom_writer.start_write();
 		let udta_pos = moov_data_start as usize;
 		write_handle.splice(udta_pos..udta_pos, bytes);
 
-- 
2.43.0


From 188bef3aa16ba84a9798bb228609cedb40d55933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 030/111] fix: encode UTF-16 text in an ilst as UTF-16

---
 lofty/src/mp4/ilst/write.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index c036cb8..cd23e6a 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -702,7 +702,13 @@ where
 	for value in data {
 		match value {
 			AtomData::UTF8(text) => write_data(DataType::Utf8, text.as_bytes(), writer)?,
-			AtomData::UTF16(text) => write_data(DataType::Utf16, text.as_bytes(), writer)?,
+			AtomData::UTF16(text) => {
+				let data = text
+					.encode_utf16()
+					.flat_map(u16::to_be_bytes)
+					.collect::<Vec<_>>();
+				write_data(DataType::Utf16, &data, writer)?
+			},
 			AtomData::Picture(pic) => write_picture(pic, writer)?,
 			AtomData::SignedInteger(int) => write_signed_int(*int, writer)?,
 			AtomData::UnsignedInteger(uint) => write_unsigned_int(*uint, writer)?,
-- 
2.43.0


From 25e0696ab9e6576a12f0af2787b34ae64e002b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 031/111] fix: do not overflow on malformed JPEG pictures

---
 lofty/src/picture/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lofty/src/picture/mod.rs b/lofty/src/picture/mod.rs
index ea9d467..afe7026 100644
--- a/lofty/src/picture/mod.rs
+++ b/lofty/src/picture/mod.rs
@@ -471,12 +471,16 @@ impl PictureInformation {
 				return Ok(Self {
 					width,
 					height,
-					color_depth: u32::from(precision * components),
+					color_depth: u32::from(precision) * u32::from(components),
 					num_colors: 0,
 				});
 			}
 
-			reader.seek(SeekFrom::Current(i64::from(section_len - 2)))?;
+			let Some(content_len) = section_len.checked_sub(2) else {
+				return Err(NotEnoughDataError::new(Some(2)).into());
+			};
+
+			reader.seek(SeekFrom::Current(i64::from(content_len)))?;
 		}
 
 		Err(UnknownImageFormatError.into())
-- 
2.43.0


From 4cd955dedf9a15402848e42d7c8e1f8e96522488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 032/111] fix: leave data trailing the FORM chunk out of its
 size when writing AIFF text chunks

---
 lofty/src/iff/aiff/tag/mod.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/lofty/src/iff/aiff/tag/mod.rs b/lofty/src/iff/aiff/tag/mod.rs
index 624d412..5afb63b 100644
--- a/lofty/src/iff/aiff/tag/mod.rs
+++ b/lofty/src/iff/aiff/tag/mod.rs
@@ -11,11 +11,11 @@ use crate::tag::{
 };
 use crate::util::io::FileLike;
 
-use byteorder::BigEndian;
+use byteorder::{BigEndian, ReadBytesExt};
 use lofty_attr::tag;
 use std::borrow::Cow;
 use std::convert::TryFrom;
-use std::io::{Read, Seek, Write};
+use std::io::{Read, Seek, SeekFrom, Write};
 use std::ops::Range;
 
 /// Represents an AIFF `COMT` chunk
@@ -435,14 +435,31 @@ where
 		let mut file = file.into_inner();
 
 		super::read::verify_aiff(&mut file).map_err(FileParseError::from)?;
-		let file_len = file.len()?.saturating_sub(FIRST_CHUNK_LEN);
+
+		let file_len = file.len()?;
+
+		// There may be trailing data that isn't part of the FORM chunk
+		file.seek(SeekFrom::Start(4))?;
+		let form_end = u64::from(file.read_u32::<BigEndian>()?) + u64::from(IFF_CHUNK_HEADER_SIZE);
+		let stream_len = if (FIRST_CHUNK_LEN..=file_len).contains(&form_end) {
+			form_end
+		} else {
+			file_len
+		};
+		let trailing_len = file_len - stream_len;
+
+		file.seek(SeekFrom::Start(FIRST_CHUNK_LEN))?;
 
 		let text_chunks = Self::create_text_chunks(&mut tag).map_err(TagEncodingError::from)?;
 
 		let ExistingChunks {
 			text_chunks: mut existing_text_chunks,
 			comm_end_pos,
-		} = find_text_chunks(&mut file, file_len, write_options.parse_options)
+		} = find_text_chunks(
+			&mut file,
+			stream_len - FIRST_CHUNK_LEN,
+			write_options.parse_options,
+		)
 			.map_err(FileParseError::from)?;
 		file.rewind()?;
 
@@ -464,8 +481,12 @@ where
 			file_bytes.splice(first, text_chunks);
 		}
 
-		let total_size = ((file_bytes.len() - IFF_CHUNK_HEADER_SIZE as usize) as u32).to_be_bytes();
-		file_bytes.splice(4..8, total_size.to_vec());
+		let total_size =
+			file_bytes.len() - IFF_CHUNK_HEADER_SIZE as usize - trailing_len as usize;
+		let Ok(total_size) = u32::try_from(total_size) else {
+			return Err(TagEncodingError::new(TagType::AiffText, TooMuchDataError.into()).into());
+		};
+		file_bytes.splice(4..8, total_size.to_be_bytes());
 
 		file.rewind()?;
 		file.truncate(0)?;
-- 
2.43.0


From 0e95a7347d6a654c3d979784e19d932fd430fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 033/111] fix: replace all RIFF INFO lists of a WAV file,
 including their padding

---
 lofty/src/iff/wav/tag/write.rs | 46 +++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/lofty/src/iff/wav/tag/write.rs b/lofty/src/iff/wav/tag/write.rs
index 6bbdb00..1fafbd4 100644
--- a/lofty/src/iff/wav/tag/write.rs
+++ b/lofty/src/iff/wav/tag/write.rs
@@ -13,6 +13,7 @@ use crate::util::io::FileLike;
 
 use std::borrow::Cow;
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
+use std::ops::Range;
 
 use byteorder::{LittleEndian, WriteBytesExt};
 
@@ -47,13 +48,23 @@ where
 
 	file_bytes.seek(SeekFrom::Start(u64::from(FIRST_CHUNK_LEN)))?;
 
-	let Some(original_info_list_size) = find_info_list(
+	let mut original_info_lists = find_info_lists(
 		&mut file_bytes,
-		u64::from(original_stream_length - 4),
+		u64::from(original_stream_length.saturating_sub(4)),
 		write_options.parse_options.parsing_mode,
 	)
-	.map_err(FileParseError::from)?
-	else {
+	.map_err(FileParseError::from)?;
+
+	// Only a single list can be kept
+	let mut original_stream_length = original_stream_length;
+	while original_info_lists.len() > 1
+		&& let Some(duplicate) = original_info_lists.pop()
+	{
+		original_stream_length -= duplicate.len() as u32;
+		file_bytes.get_mut().drain(duplicate);
+	}
+
+	let Some(original_info_list) = original_info_lists.pop() else {
 		// Simply append the info list to the end of the file and update the file size
 
 		let new_stream_length = riff_info_bytes.len() as u64 + u64::from(original_stream_length);
@@ -82,13 +93,6 @@ where
 
 	// Replace the existing tag
 
-	let info_list_start = file_bytes.seek(SeekFrom::Current(-12))? as usize;
-
-	// `original_info_list_size` doesn't include the b"LIST\0\0\0\0" chunk header
-	let info_list_end =
-		info_list_start + (IFF_CHUNK_HEADER_SIZE + original_info_list_size) as usize;
-	let original_info_list = info_list_start..info_list_end;
-
 	let new_stream_length = riff_info_bytes.len() as u64
 		+ (u64::from(original_stream_length) - original_info_list.len() as u64);
 	if new_stream_length > u64::from(u32::MAX) {
@@ -110,15 +114,16 @@ where
 	Ok(())
 }
 
-fn find_info_list<R>(
+fn find_info_lists<R>(
 	data: &mut R,
 	file_size: u64,
 	parse_mode: ParsingMode,
-) -> Result<Option<u32>, WavParseError>
+) -> Result<Vec<Range<usize>>, WavParseError>
 where
 	R: Read + Seek,
 {
-	let mut info = None;
+	let first_chunk_start = data.stream_position()?;
+	let mut info_lists = Vec::new();
 
 	let mut chunks = Chunks::<_, LittleEndian>::new(data, file_size);
 	while let Some(mut chunk) = chunks.next(parse_mode)? {
@@ -137,12 +142,19 @@ where
 				chunk.size()
 			);
 
-			info = Some(chunk.size());
-			break;
+			let start = first_chunk_start + chunk.start();
+
+			// Can't trust the written chunk size, since some encoders don't handle padding
+			// correctly, see Chunks::skip(). Since skip detects invalid padding, we just let it
+			// do the work and figure out where we are in the file afterwards.
+			chunks.skip()?;
+
+			let end = first_chunk_start + chunks.stream_position();
+			info_lists.push(start as usize..end as usize);
 		}
 	}
 
-	Ok(info)
+	Ok(info_lists)
 }
 
 pub(super) fn create_riff_info(
-- 
2.43.0


From 6d192c8e6d1685c3192484e29d61c1c903bfb29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 034/111] fix: replace all ID3v2 chunks of an IFF file

---
 lofty/src/id3/v2/write/chunk_file.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index 143822b..aa800c6 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -86,7 +86,8 @@ where
 		let existing_tag_len = existing_id3_tag.end - existing_id3_tag.start;
 
 		// We can just overwrite tags at the end of the file
-		if existing_id3_tag.end == file_context.stream_length
+		if file_context.duplicate_id3_tags.is_empty()
+			&& existing_id3_tag.end == file_context.stream_length
 			&& file_len == file_context.stream_length
 		{
 			let mut updated_stream_len = file_context.stream_length;
@@ -115,7 +116,10 @@ where
 
 		// WAV has a `JUNK` chunk we can use to avoid rewriting the whole file.
 		// Unfortunately, AIFF doesn't have an equivalent, so we'll always have to rewrite.
-		if format == FileType::Wav && write_options.preferred_padding.is_some() {
+		if file_context.duplicate_id3_tags.is_empty()
+			&& format == FileType::Wav
+			&& write_options.preferred_padding.is_some()
+		{
 			if tag.is_empty() {
 				log::debug!("No items to write, removing ID3v2 tag");
 
@@ -165,6 +169,13 @@ where
 		tag_bytes.iter().copied(),
 	);
 
+	for duplicate in file_context.duplicate_id3_tags.into_iter().rev() {
+		file_context.stream_length -= duplicate.end - duplicate.start;
+		file_bytes
+			.get_mut()
+			.drain(duplicate.start as usize..duplicate.end as usize);
+	}
+
 	if let Some(existing_id3_tag) = file_context.existing_id3_tag {
 		file_context.stream_length -= existing_id3_tag.end - existing_id3_tag.start;
 		file_bytes
@@ -188,6 +199,8 @@ where
 struct IffFileContext {
 	stream_length: u64,
 	existing_id3_tag: Option<Range<u64>>,
+	/// Any further ID3v2 chunks, in the order they appear
+	duplicate_id3_tags: Vec<Range<u64>>,
 }
 
 fn find_existing_id3v2_tag<F, B: ByteOrder>(
@@ -227,6 +240,7 @@ where
 	let mut context = IffFileContext {
 		stream_length: actual_stream_size,
 		existing_id3_tag: None,
+		duplicate_id3_tags: Vec::new(),
 	};
 
 	let file = chunks.into_inner();
@@ -255,8 +269,13 @@ where
 				"Found existing ID3v2 chunk, size: {} bytes",
 				chunk_end - chunk_start
 			);
-			context.existing_id3_tag = Some(chunk_start..chunk_end);
-			break;
+
+			let tag = chunk_start..chunk_end;
+			if context.existing_id3_tag.is_none() {
+				context.existing_id3_tag = Some(tag);
+			} else {
+				context.duplicate_id3_tags.push(tag);
+			}
 		}
 	}
 
-- 
2.43.0


From b2fcd3266d7c848904e7703cb1eb3594b5ec5754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 035/111] fix: report I/O errors encountered while looking for
 an ID3v1 tag

---
 lofty/src/id3/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index d02ef4e..08da64e 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -119,11 +119,12 @@ where
 	let mut header = None;
 
 	// Reader is too small to contain an ID3v2 tag
-	if data.seek(SeekFrom::End(-128)).is_err() {
-		data.seek(SeekFrom::End(0))?;
+	if data.seek(SeekFrom::End(0))? < 128 {
 		return Ok(ID3FindResults(header, id3v1));
 	}
 
+	data.seek(SeekFrom::End(-128))?;
+
 	let mut id3v1_header = [0; 3];
 	data.read_exact(&mut id3v1_header)?;
 
-- 
2.43.0


From a2e344d427eca44f105174f35746e772028150b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 036/111] fix: report I/O errors encountered while looking for
 MPEG and ADTS frames

---
 lofty/src/aac/read.rs        | 14 +++++++++---
 lofty/src/mpeg/header.rs     | 43 +++++++++++++++++-------------------
 lofty/src/mpeg/properties.rs |  3 +--
 lofty/src/mpeg/read.rs       | 13 ++++++++---
 lofty/src/util/io.rs         | 19 ++++++++++++++++
 5 files changed, 61 insertions(+), 31 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index 98b70cb..f4fa9f3 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -7,6 +7,8 @@ use crate::id3::v2::read::parse_id3v2;
 use crate::id3::{ID3FindResults, find_id3v1};
 use crate::mpeg::header::{HeaderCmpResult, cmp_header, search_for_frame_sync};
 
+use crate::util::io::is_io_failure;
+
 use std::io::{Read, Seek, SeekFrom};
 
 use crate::error::{SizeMismatchError, TagParseError};
@@ -39,7 +41,13 @@ where
 
 	let mut header = [0; 4];
 
-	while let Ok(()) = reader.read_exact(&mut header) {
+	loop {
+		match reader.read_exact(&mut header) {
+			Ok(()) => {},
+			Err(e) if is_io_failure(&e) => return Err(e.into()),
+			Err(_) => break,
+		}
+
 		match header {
 			// [I, D, 3, ver_major, ver_minor, flags, size (4 bytes)]
 			[b'I', b'D', b'3', ..] => {
@@ -170,7 +178,7 @@ where
 {
 	let mut pos = reader.stream_position()?;
 
-	while let Ok(Some(first_adts_frame_start_relative)) = search_for_frame_sync(reader) {
+	while let Some(first_adts_frame_start_relative) = search_for_frame_sync(reader)? {
 		let first_adts_frame_start_absolute = pos + first_adts_frame_start_relative;
 
 		// Seek back to the start of the frame and read the header
@@ -185,7 +193,7 @@ where
 				u32::from(first_header.len),
 				u32::from_be_bytes(first_header.bytes[..4].try_into().unwrap()),
 				HEADER_MASK,
-			) {
+			)? {
 				HeaderCmpResult::Equal => {
 					return Ok(Some((
 						first_header,
diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index ef3c680..3235738 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -1,6 +1,6 @@
 use super::constants::{BITRATES, PADDING_SIZES, SAMPLE_RATES, SAMPLES, SIDE_INFORMATION_SIZES};
-use crate::error::FileParseError;
 use crate::mpeg::error::MpegParseError;
+use crate::util::io::is_io_failure;
 
 use std::io::{Read, Seek, SeekFrom};
 
@@ -52,7 +52,7 @@ const REV_FRAME_SEARCH_BOUNDS: u64 = 1024;
 pub(super) fn rev_search_for_frame_header<R>(
 	input: &mut R,
 	pos: &mut u64,
-) -> Result<Option<Header>, FileParseError>
+) -> std::io::Result<Option<Header>>
 where
 	R: Read + Seek,
 {
@@ -122,42 +122,39 @@ pub(super) const HEADER_MASK: u32 = 0xFFFE_0C00;
 ///
 /// - [`HeaderCmpResult::Equal`] if the headers are equal.
 /// - [`HeaderCmpResult::NotEqual`] if the headers are not equal.
-/// - [`HeaderCmpResult::Undetermined`] if the comparison could not be made (Some IO error occurred).
+/// - [`HeaderCmpResult::Undetermined`] if the comparison could not be made (There is no second header).
+///
+/// ## Errors
+///
+/// The reader failed
 pub(crate) fn cmp_header<R>(
 	reader: &mut R,
 	header_size: u32,
 	first_header_len: u32,
 	first_header_bytes: u32,
 	header_mask: u32,
-) -> HeaderCmpResult
+) -> std::io::Result<HeaderCmpResult>
 where
 	R: Read + Seek,
 {
 	// Read the next header and see if they are the same
-	let res = reader.seek(SeekFrom::Current(i64::from(
+	reader.seek(SeekFrom::Current(i64::from(
 		first_header_len.saturating_sub(header_size),
-	)));
-	if res.is_err() {
-		return HeaderCmpResult::Undetermined;
-	}
+	)))?;
 
-	let second_header_data = reader.read_u32::<BigEndian>();
-	if second_header_data.is_err() {
-		return HeaderCmpResult::Undetermined;
-	}
+	let second_header_data = match reader.read_u32::<BigEndian>() {
+		Ok(second_header_data) => second_header_data,
+		Err(e) if is_io_failure(&e) => return Err(e),
+		Err(_) => return Ok(HeaderCmpResult::Undetermined),
+	};
 
-	if reader.seek(SeekFrom::Current(-4)).is_err() {
-		return HeaderCmpResult::Undetermined;
-	}
+	reader.seek(SeekFrom::Current(-4))?;
 
-	match second_header_data {
-		Ok(second_header_data)
-			if first_header_bytes & header_mask == second_header_data & header_mask =>
-		{
-			HeaderCmpResult::Equal
-		},
-		_ => HeaderCmpResult::NotEqual,
+	if first_header_bytes & header_mask == second_header_data & header_mask {
+		return Ok(HeaderCmpResult::Equal);
 	}
+
+	Ok(HeaderCmpResult::NotEqual)
 }
 
 /// MPEG Audio version
diff --git a/lofty/src/mpeg/properties.rs b/lofty/src/mpeg/properties.rs
index e887149..4e8ceb8 100644
--- a/lofty/src/mpeg/properties.rs
+++ b/lofty/src/mpeg/properties.rs
@@ -201,8 +201,7 @@ where
 					break;
 				}
 			},
-			// Encountered some IO error, just break
-			Err(_) => break,
+			Err(e) => return Err(e.into()),
 			// No frame sync found, continue further back in the file
 			_ => {},
 		}
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index b909e4e..e193276 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -9,6 +9,7 @@ use crate::id3::{FindId3v2Config, ID3FindResults, find_id3v1, find_lyrics3v2};
 use crate::io::SeekStreamLen;
 use crate::mpeg::error::MpegParseError;
 use crate::mpeg::header::HEADER_MASK;
+use crate::util::io::is_io_failure;
 
 use std::io::{Read, Seek, SeekFrom};
 
@@ -33,7 +34,13 @@ where
 
 	let mut header = [0; 4];
 
-	while let Ok(()) = reader.read_exact(&mut header) {
+	loop {
+		match reader.read_exact(&mut header) {
+			Ok(()) => {},
+			Err(e) if is_io_failure(&e) => return Err(e.into()),
+			Err(_) => break,
+		}
+
 		match header {
 			// [I, D, 3, ver_major, ver_minor, flags, size (4 bytes)]
 			//
@@ -233,7 +240,7 @@ where
 {
 	let mut pos = reader.stream_position()?;
 
-	while let Ok(Some(first_mp3_frame_start_relative)) = search_for_frame_sync(reader) {
+	while let Some(first_mp3_frame_start_relative) = search_for_frame_sync(reader)? {
 		let first_mp3_frame_start_absolute = pos + first_mp3_frame_start_relative;
 
 		// Seek back to the start of the frame and read the header
@@ -241,7 +248,7 @@ where
 		let first_header_data = reader.read_u32::<BigEndian>()?;
 
 		if let Some(first_header) = Header::read(first_header_data) {
-			match cmp_header(reader, 4, first_header.len, first_header_data, HEADER_MASK) {
+			match cmp_header(reader, 4, first_header.len, first_header_data, HEADER_MASK)? {
 				HeaderCmpResult::Equal => {
 					return Ok(Some((first_header, first_mp3_frame_start_absolute)));
 				},
diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index 0be5517..fca8adb 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -27,6 +27,25 @@ pub(crate) trait SeekStreamLen: Seek {
 
 impl<T> SeekStreamLen for T where T: Seek {}
 
+/// Whether an error was caused by a failing reader, as opposed to invalid or missing data
+///
+/// Seeking out of bounds and reaching the end of the file are properties of the data, not failures.
+pub(crate) fn is_io_failure(error: &(dyn core::error::Error + 'static)) -> bool {
+	let mut current = Some(error);
+	while let Some(error) = current {
+		if let Some(io) = error.downcast_ref::<std::io::Error>() {
+			return !matches!(
+				io.kind(),
+				std::io::ErrorKind::UnexpectedEof | std::io::ErrorKind::InvalidInput
+			);
+		}
+
+		current = error.source();
+	}
+
+	false
+}
+
 /// Provides a method to truncate an object to the specified length
 ///
 /// This is one component of the [`FileLike`] trait, which is used to provide implementors access to any
-- 
2.43.0


From d96968df7149e7b270eee29d3901b60241a80702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 037/111] fix: skip the footer of duplicate ID3v2 tags in MPEG
 and AAC files

---
 lofty/src/aac/read.rs  | 4 ++--
 lofty/src/mpeg/read.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index f4fa9f3..5e0198f 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -74,9 +74,9 @@ where
 						for frame in id3v2.frames {
 							existing_tag.insert(frame);
 						}
-						continue;
+					} else {
+						file.id3v2_tag = Some(id3v2);
 					}
-					file.id3v2_tag = Some(id3v2);
 				} else {
 					reader.seek(SeekFrom::Current(i64::from(
 						header.size - header.extended_size,
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index e193276..7e4ed12 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -62,9 +62,9 @@ where
 						for frame in id3v2.frames {
 							existing_tag.insert(frame);
 						}
-						continue;
+					} else {
+						file.id3v2_tag = Some(id3v2);
 					}
-					file.id3v2_tag = Some(id3v2);
 				} else {
 					reader.seek(SeekFrom::Current(i64::from(
 						header.size - header.extended_size,
-- 
2.43.0


From 2d684d3d7e466b52148aa23aea1f8661d0611a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 038/111] fix: report I/O errors encountered while looking for
 MP4 atoms

---
 lofty/src/mp4/moov.rs             |  4 ++--
 lofty/src/mp4/properties.rs       |  5 +++--
 lofty/src/mp4/read/atom_reader.rs | 12 +++++++++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index b9f86b8..1c426d1 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -23,7 +23,7 @@ impl Moov {
 	{
 		let mut moov = None;
 
-		while let Ok(Some(atom)) = reader.next() {
+		while let Some(atom) = reader.next_valid()? {
 			if atom.ident == AtomIdent::Fourcc(*b"moov") {
 				moov = Some(atom);
 				break;
@@ -45,7 +45,7 @@ impl Moov {
 		let mut traks = Vec::new();
 		let mut ilst = None;
 
-		while let Ok(Some(atom)) = reader.next() {
+		while let Some(atom) = reader.next_valid()? {
 			if let AtomIdent::Fourcc(fourcc) = atom.ident {
 				match &fourcc {
 					b"trak" if parse_options.read_properties => {
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 521438c..cddb964 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -5,6 +5,7 @@ use crate::macros::try_vec;
 use crate::mp4::error::{AtomParseError, Mp4ParseError};
 use crate::properties::FileProperties;
 use crate::util::alloc::VecFallibleCapacity;
+use crate::util::io::is_io_failure;
 use crate::util::math::RoundedDivision;
 
 use std::io::{Cursor, Read, Seek, SeekFrom};
@@ -722,7 +723,7 @@ where
 		match mdat_length(reader) {
 			Ok(len) => mdat_len = len,
 			Err(err) => {
-				if parse_mode == ParsingMode::Strict {
+				if parse_mode == ParsingMode::Strict || is_io_failure(&err) {
 					return Err(err);
 				}
 
@@ -1030,7 +1031,7 @@ where
 {
 	reader.rewind()?;
 
-	while let Ok(Some(atom)) = reader.next() {
+	while let Some(atom) = reader.next_valid()? {
 		if atom.ident == AtomIdent::Fourcc(*b"mdat") {
 			return Ok(atom.len - 8);
 		}
diff --git a/lofty/src/mp4/read/atom_reader.rs b/lofty/src/mp4/read/atom_reader.rs
index 0de95df..2ba7ec7 100644
--- a/lofty/src/mp4/read/atom_reader.rs
+++ b/lofty/src/mp4/read/atom_reader.rs
@@ -2,7 +2,7 @@ use crate::config::ParsingMode;
 use crate::error::SizeMismatchError;
 use crate::mp4::atom_info::AtomInfo;
 use crate::mp4::error::AtomParseError;
-use crate::util::io::SeekStreamLen;
+use crate::util::io::{SeekStreamLen, is_io_failure};
 
 use std::io::{Read, Seek, SeekFrom};
 
@@ -103,6 +103,16 @@ where
 		AtomInfo::read(self, self.remaining_size, self.parse_mode)
 	}
 
+	/// Like [`AtomReader::next`], but stops at invalid atoms
+	///
+	/// Only failures of the underlying reader are reported.
+	pub(crate) fn next_valid(&mut self) -> Result<Option<AtomInfo>, AtomParseError> {
+		match self.next() {
+			Err(e) if !is_io_failure(&e) => Ok(None),
+			res => res,
+		}
+	}
+
 	pub(crate) fn into_inner(self) -> R {
 		self.reader
 	}
-- 
2.43.0


From 5ff1fbe8306610a1a6702e166737fc838cf1fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 039/111] fix: continue after the end of the trak and udta
 atoms of an MP4 file

---
 lofty/src/mp4/moov.rs | 64 +++++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index 1c426d1..686fdb7 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -7,7 +7,7 @@ use crate::error::TagParseError;
 use crate::mp4::error::Mp4ParseError;
 use crate::mp4::ilst::error::IlstParseError;
 
-use std::io::{Read, Seek};
+use std::io::{Read, Seek, SeekFrom};
 
 pub(crate) struct Moov {
 	// Represents the trak.mdia atom
@@ -43,49 +43,41 @@ impl Moov {
 		R: Read + Seek,
 	{
 		let mut traks = Vec::new();
-		let mut ilst = None;
+		let mut ilst: Option<Ilst> = None;
 
 		while let Some(atom) = reader.next_valid()? {
-			if let AtomIdent::Fourcc(fourcc) = atom.ident {
-				match &fourcc {
-					b"trak" if parse_options.read_properties => {
-						// All we need from here is trak.mdia
-						if let Some(mdia) =
-							find_child_atom(
-								reader,
-								atom.len - atom.header_size(),
-								*b"mdia",
-								parse_options.parsing_mode,
-							)?
-						{
-							skip_atom(reader, mdia.extended, mdia.len)?;
-							traks.push(mdia);
-						}
-					},
-					b"udta" if parse_options.read_tags => {
-						let ilst_parsed = ilst_from_udta(reader, parse_options, atom.len - 8)
-							.map_err(TagParseError::from)?;
-						if let Some(ilst_parsed) = ilst_parsed {
-							let Some(mut existing_ilst) = ilst else {
-								ilst = Some(ilst_parsed);
-								continue;
-							};
-
+			let content_len = atom.len - atom.header_size();
+			let content_end = reader.stream_position()? + content_len;
+
+			match atom.ident {
+				AtomIdent::Fourcc(fourcc) if &fourcc == b"trak" && parse_options.read_properties => {
+					// All we need from here is trak.mdia
+					if let Some(mdia) =
+						find_child_atom(reader, content_len, *b"mdia", parse_options.parsing_mode)?
+					{
+						traks.push(mdia);
+					}
+				},
+				AtomIdent::Fourcc(fourcc) if &fourcc == b"udta" && parse_options.read_tags => {
+					let ilst_parsed = ilst_from_udta(reader, parse_options, content_len)
+						.map_err(TagParseError::from)?;
+					match (&mut ilst, ilst_parsed) {
+						(Some(existing_ilst), Some(ilst_parsed)) => {
 							log::warn!("Multiple `ilst` atoms found, combining them");
 							for atom in ilst_parsed.atoms {
 								existing_ilst.insert(atom);
 							}
-
-							ilst = Some(existing_ilst);
-						}
-					},
-					_ => skip_atom(reader, atom.extended, atom.len)?,
-				}
-
-				continue;
+						},
+						(None, Some(ilst_parsed)) => ilst = Some(ilst_parsed),
+						_ => {},
+					}
+				},
+				_ => {},
 			}
 
-			skip_atom(reader, atom.extended, atom.len)?
+			// Whatever remains of the atom isn't of interest
+			let pos = reader.stream_position()?;
+			reader.seek(SeekFrom::Current(content_end as i64 - pos as i64))?;
 		}
 
 		Ok(Self { traks, ilst })
-- 
2.43.0


From be5572145fedf676b481b1f7bdd9300736bcede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 040/111] fix: report I/O errors encountered while reading
 properties

---
 lofty/src/musepack/sv8/read.rs     |  9 ++++++++-
 lofty/src/ogg/opus/properties.rs   |  6 +++++-
 lofty/src/ogg/speex/properties.rs  |  6 +++++-
 lofty/src/ogg/vorbis/properties.rs |  6 +++++-
 lofty/src/wavpack/properties.rs    |  5 +++--
 ogg_pager/src/packets.rs           | 13 ++++++++++---
 6 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/lofty/src/musepack/sv8/read.rs b/lofty/src/musepack/sv8/read.rs
index b0706f8..296a6c8 100644
--- a/lofty/src/musepack/sv8/read.rs
+++ b/lofty/src/musepack/sv8/read.rs
@@ -1,6 +1,7 @@
 use super::properties::{EncoderInfo, MpcSv8Properties, ReplayGain, StreamHeader};
 use crate::config::ParsingMode;
 use crate::musepack::error::MpcParseError;
+use crate::util::io::is_io_failure;
 
 use std::io::Read;
 
@@ -31,7 +32,13 @@ where
 	let mut stream_length = 0;
 	let mut found_stream_end = false;
 
-	while let Ok((packet_id, packet_length)) = packet_reader.next() {
+	loop {
+		let (packet_id, packet_length) = match packet_reader.next() {
+			Ok(packet) => packet,
+			Err(e) if is_io_failure(&e) => return Err(e),
+			Err(_) => break,
+		};
+
 		stream_length += packet_length;
 
 		match packet_id {
diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index ba23d83..2de2653 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -2,6 +2,7 @@ use super::find_last_page;
 use crate::error::FileParseError;
 use crate::file::FileType;
 use crate::properties::{ChannelMask, FileProperties};
+use crate::util::io::is_io_failure;
 use crate::util::math::RoundedDivision;
 
 use std::io::{Read, Seek, SeekFrom};
@@ -124,7 +125,10 @@ where
 	properties.channel_mask =
 		ChannelMask::from_opus_channels(properties.channels).expect("Channel count is valid");
 
-	let last_page = find_last_page(data);
+	let last_page = match find_last_page(data) {
+		Err(e) if is_io_failure(&e) => return Err(e),
+		last_page => last_page,
+	};
 	let file_length = data.seek(SeekFrom::End(0))?;
 
 	if let Ok(last_page) = last_page {
diff --git a/lofty/src/ogg/speex/properties.rs b/lofty/src/ogg/speex/properties.rs
index 2cf3fb0..fc1fd00 100644
--- a/lofty/src/ogg/speex/properties.rs
+++ b/lofty/src/ogg/speex/properties.rs
@@ -2,6 +2,7 @@ use crate::error::FileParseError;
 use crate::file::FileType;
 use crate::ogg::find_last_page;
 use crate::properties::FileProperties;
+use crate::util::io::is_io_failure;
 use crate::util::math::RoundedDivision;
 
 use std::io::{Read, Seek, SeekFrom};
@@ -150,7 +151,10 @@ where
 
 	properties.vbr = identification_packet_reader.read_u32::<LittleEndian>()? == 1;
 
-	let last_page = find_last_page(data);
+	let last_page = match find_last_page(data) {
+		Err(e) if is_io_failure(&e) => return Err(e),
+		last_page => last_page,
+	};
 	let file_length = data.seek(SeekFrom::End(0))?;
 
 	// The stream length is the entire file minus the two mandatory metadata packets
diff --git a/lofty/src/ogg/vorbis/properties.rs b/lofty/src/ogg/vorbis/properties.rs
index c11a92f..d737137 100644
--- a/lofty/src/ogg/vorbis/properties.rs
+++ b/lofty/src/ogg/vorbis/properties.rs
@@ -1,6 +1,7 @@
 use super::find_last_page;
 use crate::error::FileParseError;
 use crate::properties::FileProperties;
+use crate::util::io::is_io_failure;
 use crate::util::math::RoundedDivision;
 
 use std::io::{Read, Seek, SeekFrom};
@@ -110,7 +111,10 @@ where
 	properties.bitrate_nominal = first_page_content.read_i32::<LittleEndian>()?;
 	properties.bitrate_minimum = first_page_content.read_i32::<LittleEndian>()?;
 
-	let last_page = find_last_page(data);
+	let last_page = match find_last_page(data) {
+		Err(e) if is_io_failure(&e) => return Err(e),
+		last_page => last_page,
+	};
 	let file_length = data.seek(SeekFrom::End(0))?;
 
 	// This is used for bitrate calculation, it should be the length in
diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index f50e037..ab6e742 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -2,6 +2,7 @@ use crate::config::ParsingMode;
 use crate::error::{NotEnoughDataError, SizeMismatchError, TooMuchDataError, UnknownFormatError};
 use crate::macros::try_vec;
 use crate::properties::{ChannelMask, FileProperties};
+use crate::util::io::is_io_failure;
 use crate::wavpack::error::WavPackParseError;
 
 use std::io::{Read, Seek, SeekFrom};
@@ -136,7 +137,7 @@ where
 		let block_header;
 		match parse_wv_header(reader) {
 			Ok(header) => block_header = header,
-			Err(e) if parse_mode == ParsingMode::Strict => return Err(e),
+			Err(e) if parse_mode == ParsingMode::Strict || is_io_failure(&e) => return Err(e),
 			_ => break,
 		}
 
@@ -251,7 +252,7 @@ struct WVHeader {
 	flags: u32,
 }
 
-// NOTE: Any error here is ignored unless using `ParsingMode::Strict`
+// NOTE: Any error here that isn't a failing reader is ignored unless using `ParsingMode::Strict`
 fn parse_wv_header<R>(reader: &mut R) -> Result<WVHeader, WavPackParseError>
 where
 	R: Read + Seek,
diff --git a/ogg_pager/src/packets.rs b/ogg_pager/src/packets.rs
index 182e0a2..b8e6317 100644
--- a/ogg_pager/src/packets.rs
+++ b/ogg_pager/src/packets.rs
@@ -84,7 +84,16 @@ impl Packets {
 		let mut packet_size = 0_u64;
 		let mut packet_bytes_already_read = None;
 		let mut current_packet_content;
-		'outer: while let Ok(header) = PageHeader::read(data) {
+		'outer: loop {
+			let header = match PageHeader::read(data) {
+				Ok(header) => header,
+				// The reader failed, as opposed to reaching its end
+				Err(PageError::Io(e)) if e.kind() != std::io::ErrorKind::UnexpectedEof => {
+					return Err(PageError::Io(e));
+				},
+				Err(_) => break,
+			};
+
 			for i in header.segments {
 				packet_size += u64::from(i);
 
@@ -120,8 +129,6 @@ impl Packets {
 				data.read_exact(&mut current_packet_content)?;
 				content.append(&mut current_packet_content);
 			}
-
-			continue;
 		}
 
 		if count != -1 && packet_sizes.len() != count as usize {
-- 
2.43.0


From c4c6f928b46bf582bd996df03c6978f39042fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 041/111] fix: read APE files that start with an APE tag

---
 lofty/src/ape/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index dfb861e..68d18bf 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -61,9 +61,10 @@ where
 	let mut mac_start = 0;
 
 	let mut header = [0; 4];
-	data.read_exact(&mut header)?;
 
 	while !found_mac {
+		data.read_exact(&mut header)?;
+
 		match &header {
 			b"MAC " => {
 				mac_start = data.stream_position()?;
@@ -96,6 +97,8 @@ where
 					let ape = read_ape_tag_with_header(data, ape_header, parse_options)
 						.map_err(TagParseError::from)?;
 					ape_tag = Some(ape);
+				} else {
+					data.seek(SeekFrom::Current(i64::from(ape_header.size)))?;
 				}
 			},
 			_ => {
-- 
2.43.0


From 2a1e5024449a4a22a0ca6b52d005c3ea43f3a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 042/111] fix: do not overflow on an APE tag that is larger
 than the stream

---
 lofty/src/ape/read.rs     | 6 +++++-
 lofty/src/wavpack/read.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index 68d18bf..09b62ff 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -146,7 +146,11 @@ where
 	if let (tag, Some(header)) =
 		read_ape_tag(data, true, parse_options).map_err(TagParseError::from)?
 	{
-		stream_len -= u64::from(header.size);
+		let Some(new_stream_length) = stream_len.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+
+		stream_len = new_stream_length;
 		ape_tag = tag;
 	}
 
diff --git a/lofty/src/wavpack/read.rs b/lofty/src/wavpack/read.rs
index 72aa464..fae6234 100644
--- a/lofty/src/wavpack/read.rs
+++ b/lofty/src/wavpack/read.rs
@@ -52,7 +52,11 @@ where
 	if let (tag, Some(header)) = crate::ape::tag::read::read_ape_tag(reader, true, parse_options)
 		.map_err(TagParseError::from)?
 	{
-		stream_length -= u64::from(header.size);
+		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.size)) else {
+			return Err(SizeMismatchError.into());
+		};
+
+		stream_length = new_stream_length;
 		ape_tag = tag;
 	}
 
-- 
2.43.0


From ccb85892c6732c086fcf7bae7711e735549d1a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 043/111] fix: skip no more than the APE tag at the start of a
 file

---
 lofty/src/ape/read.rs  | 5 ++++-
 lofty/src/mpeg/read.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ape/read.rs b/lofty/src/ape/read.rs
index 09b62ff..2d69945 100644
--- a/lofty/src/ape/read.rs
+++ b/lofty/src/ape/read.rs
@@ -98,7 +98,10 @@ where
 						.map_err(TagParseError::from)?;
 					ape_tag = Some(ape);
 				} else {
-					data.seek(SeekFrom::Current(i64::from(ape_header.size)))?;
+					// The header is part of the size, but it was already read
+					data.seek(SeekFrom::Current(i64::from(
+						ape_header.size.saturating_sub(32),
+					)))?;
 				}
 			},
 			_ => {
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 7e4ed12..577747a 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -99,7 +99,10 @@ where
 							.map_err(TagParseError::from)?,
 						);
 					} else {
-						reader.seek(SeekFrom::Current(i64::from(ape_header.size)))?;
+						// The header is part of the size, but it was already read
+						reader.seek(SeekFrom::Current(i64::from(
+							ape_header.size.saturating_sub(32),
+						)))?;
 					}
 
 					continue;
-- 
2.43.0


From f79560eea997350c545a06cbb15ba034b6deec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 044/111] fix: do not overflow on a large MP4 media duration

---
 lofty/src/mp4/properties.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index cddb964..e4c4f20 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -693,8 +693,9 @@ where
 	let mut properties = Mp4Properties::default();
 
 	if timescale > 0 {
-		let duration_millis = (duration * 1000).div_round(u64::from(timescale));
-		properties.duration = Duration::from_millis(duration_millis);
+		let duration_millis = (u128::from(duration) * 1000).div_round(u128::from(timescale));
+		properties.duration =
+			Duration::from_millis(u64::try_from(duration_millis).unwrap_or(u64::MAX));
 	}
 
 	// We need an `mdhd` atom at the bare minimum, everything else can be optional.
-- 
2.43.0


From 9e80412eea48e74b2a83e8850d79e92bcf276856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 045/111] fix: do not overflow on a malformed ALS channel count

---
 lofty/src/mp4/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index e4c4f20..51f286c 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -914,7 +914,7 @@ where
 
 						// Sample count
 						stsd.seek(SeekFrom::Current(4))?;
-						properties.channels = Some(stsd.read_u16()? as u8 + 1);
+						properties.channels = Some((stsd.read_u16()? as u8).saturating_add(1));
 					}
 				}
 			}
-- 
2.43.0


From c055c286b0cfad3a456de5227a396a532e951428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 046/111] fix: report I/O errors encountered while reading
 ID3v2 frames

---
 lofty/src/id3/v2/read.rs |  7 ++++++-
 lofty/src/util/io.rs     | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index a1facba..f9bdf65 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -6,6 +6,7 @@ use crate::id3::v2::error::{FrameParseError, Id3v2ParseError};
 use crate::id3::v2::util::synchsafe::UnsynchronizedStream;
 use crate::id3::v2::{Frame, FrameId, FrameList, Id3v2TagFlags, Id3v2Version, TimestampFrame};
 use crate::tag::items::Timestamp;
+use crate::util::io::FailureGuard;
 
 use std::borrow::Cow;
 use std::io::Read;
@@ -24,7 +25,8 @@ where
 		header.version
 	);
 
-	let mut tag_bytes = bytes.take(u64::from(header.size - header.extended_size));
+	let mut bytes = FailureGuard::new(bytes);
+	let mut tag_bytes = (&mut bytes).take(u64::from(header.size - header.extended_size));
 
 	// Prior to Id3v2.4, the tag-wide `unsynchronization` flag implied that unsynchronization was applied
 	// to the *entire* content of the tag following the header, since there was no frame-level flag.
@@ -45,6 +47,9 @@ where
 	// Throw away the rest of the tag (padding, bad frames)
 	std::io::copy(&mut tag_bytes, &mut std::io::sink())?;
 
+	// Frames that couldn't be read aren't the same as ones that don't exist
+	bytes.check()?;
+
 	// Construct TDRC frame from TYER, TDAT, and TIME frames
 	if parse_options.implicit_conversions && header.version == Id3v2Version::V3 {
 		construct_tdrc_from_v3(&mut ret);
diff --git a/lofty/src/util/io.rs b/lofty/src/util/io.rs
index fca8adb..8a79297 100644
--- a/lofty/src/util/io.rs
+++ b/lofty/src/util/io.rs
@@ -46,6 +46,46 @@ pub(crate) fn is_io_failure(error: &(dyn core::error::Error + 'static)) -> bool
 	false
 }
 
+/// A reader that remembers whether it failed
+///
+/// Parsers that are lenient about their content may not report every error they encounter. This makes
+/// it possible to tell afterwards whether the content is invalid, or it couldn't be read in the first place.
+pub(crate) struct FailureGuard<R> {
+	reader: R,
+	failure: Option<std::io::ErrorKind>,
+}
+
+impl<R> FailureGuard<R> {
+	pub(crate) fn new(reader: R) -> Self {
+		Self {
+			reader,
+			failure: None,
+		}
+	}
+
+	/// Returns an error if any of the reads failed
+	pub(crate) fn check(&self) -> std::io::Result<()> {
+		match self.failure {
+			Some(kind) => Err(kind.into()),
+			None => Ok(()),
+		}
+	}
+}
+
+impl<R: Read> Read for FailureGuard<R> {
+	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+		let ret = self.reader.read(buf);
+		if let Err(e) = &ret
+			&& e.kind() != std::io::ErrorKind::Interrupted
+			&& is_io_failure(e)
+		{
+			self.failure = Some(e.kind());
+		}
+
+		ret
+	}
+}
+
 /// Provides a method to truncate an object to the specified length
 ///
 /// This is one component of the [`FileLike`] trait, which is used to provide implementors access to any
-- 
2.43.0


From fb94e4d7753adc49cfcbf227d3f430ef1ca5f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 047/111] fix: keep the TDRC frame of an ID3v2.3 tag that
 specifies a month

---
 lofty/src/id3/v2/read.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lofty/src/id3/v2/read.rs b/lofty/src/id3/v2/read.rs
index f9bdf65..c7b1da8 100644
--- a/lofty/src/id3/v2/read.rs
+++ b/lofty/src/id3/v2/read.rs
@@ -76,6 +76,7 @@ fn construct_tdrc_from_v3(tag: &mut Id3v2Tag) {
 
 	// This is not a TYER frame
 	if year_frame.timestamp.month.is_some() {
+		tag.insert(Frame::Timestamp(year_frame));
 		return;
 	}
 
-- 
2.43.0


From 8546e0256073ce9d262e781571de827ec2cf5af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 048/111] fix: recognise Lyrics3v2 tags

---
 lofty/src/id3/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index 08da64e..f2de7bf 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -88,17 +88,19 @@ where
 	let mut lyrics3v2 = [0; 15];
 	data.read_exact(&mut lyrics3v2)?;
 
-	if &lyrics3v2[7..] == b"LYRICS200" {
+	// Size (6) + identifier (9)
+	if &lyrics3v2[6..] == b"LYRICS200" {
 		log::warn!("Encountered a Lyrics3v2 tag. This is an outdated format, and will be skipped.");
 
 		header = Some(());
 
-		let lyrics_size = utf8_decode_str(&lyrics3v2[..7])?;
+		let lyrics_size = utf8_decode_str(&lyrics3v2[..6])?;
 		let lyrics_size = lyrics_size.parse::<u32>()?;
 
-		size += lyrics_size;
+		// The size doesn't include itself and the identifier
+		size = lyrics_size + 15;
 
-		data.seek(SeekFrom::Current(i64::from(lyrics_size + 15).neg()))?;
+		data.seek(SeekFrom::Current(i64::from(size).neg()))?;
 	}
 
 	Ok(ID3FindResults(header, size))
-- 
2.43.0


From 72162fb09fba8e9122a31e24a91010c5f1b6c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 049/111] fix: do not mistake the preamble of an APE tag for an
 ID3v1 tag

---
 lofty/src/id3/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/mod.rs b/lofty/src/id3/mod.rs
index f2de7bf..5f551e0 100644
--- a/lofty/src/id3/mod.rs
+++ b/lofty/src/id3/mod.rs
@@ -8,6 +8,7 @@
 pub mod v1;
 pub mod v2;
 
+use crate::ape::constants::APE_PREAMBLE;
 use crate::config::ParsingMode;
 use crate::error::TextDecodingError;
 use crate::id3::v1::error::Id3v1ParseError;
@@ -121,7 +122,8 @@ where
 	let mut header = None;
 
 	// Reader is too small to contain an ID3v2 tag
-	if data.seek(SeekFrom::End(0))? < 128 {
+	let len = data.seek(SeekFrom::End(0))?;
+	if len < 128 {
 		return Ok(ID3FindResults(header, id3v1));
 	}
 
@@ -138,6 +140,21 @@ where
 		return Ok(ID3FindResults(header, id3v1));
 	}
 
+	// The marker could also be a part of the preamble of an APE tag ("APETAGEX")
+	if len >= 131 {
+		data.seek(SeekFrom::Current(-3))?;
+
+		let mut preamble = [0; 8];
+		data.read_exact(&mut preamble)?;
+
+		if &preamble == APE_PREAMBLE {
+			data.seek(SeekFrom::End(0))?;
+			return Ok(ID3FindResults(header, id3v1));
+		}
+
+		data.seek(SeekFrom::Current(-5))?;
+	}
+
 	log::debug!("Found an ID3v1 tag, parsing");
 
 	header = Some(());
-- 
2.43.0


From e162189c0cf6b76d5bf8620079b58f0ef28df93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 050/111] fix: do not lose data when an unsynchronised read is
 interrupted

---
 lofty/src/id3/v2/util/synchsafe.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/id3/v2/util/synchsafe.rs b/lofty/src/id3/v2/util/synchsafe.rs
index 27536ff..d4f9d54 100644
--- a/lofty/src/id3/v2/util/synchsafe.rs
+++ b/lofty/src/id3/v2/util/synchsafe.rs
@@ -111,6 +111,11 @@ impl<R: Read> Read for UnsynchronizedStream<R> {
 			}
 
 			if self.pos >= self.bytes_available {
+				// Anything already read would be lost if the reader fails, leave that to the next call
+				if dest_pos > 0 {
+					break;
+				}
+
 				self.bytes_available = self.reader.read(&mut self.buf)?;
 				self.pos = 0;
 			}
-- 
2.43.0


From a69408ba4d21d352bdd50bdce6452c575170d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 051/111] fix: do not mistake audio for an ID3v2 tag when
 writing one

---
 lofty/src/aac/mod.rs          |  2 +-
 lofty/src/aac/read.rs         | 12 +++++++++
 lofty/src/id3/v2/write/mod.rs | 48 ++++++++++++++++++++++++++++++-----
 lofty/src/mpeg/mod.rs         |  2 +-
 lofty/src/mpeg/read.rs        |  8 ++++++
 5 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/lofty/src/aac/mod.rs b/lofty/src/aac/mod.rs
index d70a06f..2d994d5 100644
--- a/lofty/src/aac/mod.rs
+++ b/lofty/src/aac/mod.rs
@@ -5,7 +5,7 @@
 mod error;
 mod header;
 mod properties;
-mod read;
+pub(crate) mod read;
 
 use crate::id3::v1::tag::Id3v1Tag;
 use crate::id3::v2::tag::Id3v2Tag;
diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index 5e0198f..598cf5e 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -167,6 +167,18 @@ where
 	Ok(file)
 }
 
+/// Searches for the first frame in an untagged stream, returning its offset
+pub(crate) fn find_first_frame<R>(
+	reader: &mut R,
+	parsing_mode: ParsingMode,
+) -> Result<Option<u64>, AacParseError>
+where
+	R: Read + Seek,
+{
+	Ok(find_next_frame(reader, parsing_mode)?
+		.map(|(header, frame_end)| frame_end - u64::from(header.len)))
+}
+
 // TODO: Does a lot of unnecessary seeking
 // Searches for the next frame, comparing it to the following one
 fn find_next_frame<R>(
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index c733e8e..7e68fb1 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -3,12 +3,12 @@ pub(in crate::id3::v2) mod frame;
 
 use super::{Frame, Id3v2TagFlags};
 use crate::config::WriteOptions;
-use crate::error::{FileEncodingError, TagEncodingError, TagParseError};
+use crate::error::{FileEncodingError, FileParseError, TagEncodingError, TagParseError};
 use crate::file::FileType;
 use crate::id3::v2::error::Id3v2EncodingError;
 use crate::id3::v2::tag::conversion::Id3v2TagRef;
 use crate::id3::v2::util::synchsafe::SynchsafeInteger;
-use crate::id3::{FindId3v2Config, find_id3v2};
+use crate::id3::{FindId3v2Config, ID3FindResults, find_id3v2};
 use crate::io::{Truncate, VerifiedFile};
 use crate::macros::try_vec;
 use crate::util::io::FileLike;
@@ -73,12 +73,10 @@ where
 		}
 	}
 
+	let format = file.format();
 	let mut file = file.into_inner();
 
-	// `find_id3v2` will seek us to the end of the tag
-	let mut id3v2_config = FindId3v2Config::NO_READ_TAG;
-	id3v2_config.allowed_junk_window = Some(write_options.parse_options.max_junk_bytes as u64);
-	find_id3v2(&mut file, id3v2_config).map_err(TagParseError::from)?;
+	seek_past_existing_tag(&mut file, format, write_options)?;
 
 	let mut file_bytes = Vec::new();
 	file.read_to_end(&mut file_bytes)?;
@@ -92,6 +90,44 @@ where
 	Ok(())
 }
 
+/// Seeks to the end of the existing ID3v2 tag, or stays at the start of the file if there is none
+fn seek_past_existing_tag<F>(
+	file: &mut F,
+	format: FileType,
+	write_options: WriteOptions,
+) -> Result<(), FileEncodingError>
+where
+	F: FileLike,
+{
+	let mut id3v2_config = FindId3v2Config::NO_READ_TAG;
+
+	let ID3FindResults(header, _) = find_id3v2(file, id3v2_config).map_err(TagParseError::from)?;
+	if header.is_some() {
+		return Ok(());
+	}
+
+	// Only MPEG streams may be preceded by junk, it never extends past the first frame
+	let first_frame_offset = match format {
+		FileType::Mpeg => {
+			crate::mpeg::read::find_first_frame(file).map_err(FileParseError::from)?
+		},
+		FileType::Aac => {
+			crate::aac::read::find_first_frame(file, write_options.parse_options.parsing_mode)
+				.map_err(FileParseError::from)?
+		},
+		_ => return Ok(()),
+	};
+
+	let max_junk_bytes = write_options.parse_options.max_junk_bytes as u64;
+	id3v2_config.allowed_junk_window =
+		Some(first_frame_offset.map_or(max_junk_bytes, |offset| offset.min(max_junk_bytes)));
+
+	file.rewind()?;
+	find_id3v2(file, id3v2_config).map_err(TagParseError::from)?;
+
+	Ok(())
+}
+
 pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 	tag: &mut Id3v2TagRef<'a, I>,
 	write_options: WriteOptions,
diff --git a/lofty/src/mpeg/mod.rs b/lofty/src/mpeg/mod.rs
index 69ceaf3..76af640 100644
--- a/lofty/src/mpeg/mod.rs
+++ b/lofty/src/mpeg/mod.rs
@@ -3,7 +3,7 @@ mod constants;
 pub mod error;
 pub(crate) mod header;
 mod properties;
-mod read;
+pub(crate) mod read;
 
 pub use header::{ChannelMode, Emphasis, Layer, MpegVersion};
 pub use properties::MpegProperties;
diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index 577747a..dd706b9 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -236,6 +236,14 @@ where
 	Ok(file)
 }
 
+/// Searches for the first frame in an untagged stream, returning its offset
+pub(crate) fn find_first_frame<R>(reader: &mut R) -> Result<Option<u64>, MpegParseError>
+where
+	R: Read + Seek,
+{
+	Ok(find_next_frame(reader)?.map(|(_, offset)| offset))
+}
+
 // Searches for the next frame, comparing it to the following one
 fn find_next_frame<R>(reader: &mut R) -> Result<Option<(Header, u64)>, MpegParseError>
 where
-- 
2.43.0


From 4424bf6bb9914f1bad756d202a2646d0cd219cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 052/111] fix: replace all of the duplicate ID3v2 tags of MPEG
 streams

---
 lofty/src/id3/v2/write/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 7e68fb1..db66790 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -103,6 +103,15 @@ where
 
 	let ID3FindResults(header, _) = find_id3v2(file, id3v2_config).map_err(TagParseError::from)?;
 	if header.is_some() {
+		// Duplicate tags are read as one in MPEG streams
+		if matches!(format, FileType::Mpeg | FileType::Aac) {
+			while find_id3v2(file, id3v2_config)
+				.map_err(TagParseError::from)?
+				.0
+				.is_some()
+			{}
+		}
+
 		return Ok(());
 	}
 
-- 
2.43.0


From ddd70395c3ccbe7d81d21ca6db11e1e323740d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 053/111] fix: an ADTS sync at the end of the file does not
 make it unreadable

---
 lofty/src/aac/read.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index 598cf5e..999908f 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -196,7 +196,14 @@ where
 		// Seek back to the start of the frame and read the header
 		reader.seek(SeekFrom::Start(first_adts_frame_start_absolute))?;
 
-		if let Some(first_header) = ADTSHeader::read(reader, parsing_mode)? {
+		let first_header = match ADTSHeader::read(reader, parsing_mode) {
+			Ok(first_header) => first_header,
+			Err(e) if is_io_failure(&e) => return Err(e),
+			// What looked like a frame is cut off by the end of the file
+			Err(_) => return Ok(None),
+		};
+
+		if let Some(first_header) = first_header {
 			let header_len = if first_header.has_crc { 9 } else { 7 };
 
 			match cmp_header(
-- 
2.43.0


From 02770d3a7b8f329fa5284c1c39f9b342bb642766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 054/111] fix: overflows and divisions by zero in the
 properties of short streams

---
 lofty/src/musepack/sv7/properties.rs | 8 +++++---
 lofty/src/musepack/sv8/properties.rs | 5 +++--
 lofty/src/ogg/opus/properties.rs     | 9 ++++++---
 lofty/src/ogg/speex/properties.rs    | 8 ++++++--
 4 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/lofty/src/musepack/sv7/properties.rs b/lofty/src/musepack/sv7/properties.rs
index 8a9460d..f93925b 100644
--- a/lofty/src/musepack/sv7/properties.rs
+++ b/lofty/src/musepack/sv7/properties.rs
@@ -374,14 +374,16 @@ impl MpcSv7Properties {
 		let total_samples;
 		if properties.true_gapless {
 			total_samples = (u64::from(properties.frame_count) * MPC_FRAME_LENGTH)
-				- (MPC_FRAME_LENGTH - u64::from(properties.last_frame_length));
+				- MPC_FRAME_LENGTH.saturating_sub(u64::from(properties.last_frame_length));
 		} else {
 			total_samples =
 				(u64::from(properties.frame_count) * MPC_FRAME_LENGTH) - MPC_DECODER_SYNTH_DELAY;
 		}
 
-		properties.average_bitrate = ((stream_length * 8 * u64::from(properties.sample_freq))
-			/ (total_samples * 1000)) as u32;
+		if total_samples > 0 {
+			properties.average_bitrate = ((stream_length * 8 * u64::from(properties.sample_freq))
+				/ (total_samples * 1000)) as u32;
+		}
 
 		Ok(properties)
 	}
diff --git a/lofty/src/musepack/sv8/properties.rs b/lofty/src/musepack/sv8/properties.rs
index 65b19d8..fe995bb 100644
--- a/lofty/src/musepack/sv8/properties.rs
+++ b/lofty/src/musepack/sv8/properties.rs
@@ -291,11 +291,12 @@ pub(super) fn read(
 		return Ok(properties);
 	}
 
-	let length = (total_samples * 1000).div_round(u64::from(sample_rate));
+	let total_samples = u128::from(total_samples);
+	let length = (total_samples * 1000).div_round(u128::from(sample_rate)) as u64;
 
 	properties.duration = Duration::from_millis(length);
 	properties.average_bitrate =
-		((stream_length * 8 * u64::from(sample_rate)) / (total_samples * 1000)) as u32;
+		((u128::from(stream_length) * 8 * u128::from(sample_rate)) / (total_samples * 1000)) as u32;
 
 	Ok(properties)
 }
diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index 2de2653..f7c4be9 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -144,7 +144,7 @@ where
 			.saturating_sub(u64::from(pre_skip));
 		if total_samples > 0 {
 			// Best case scenario
-			let length = (total_samples * 1000).div_round(48000);
+			let length = (u128::from(total_samples) * 1000).div_round(48000) as u64;
 
 			// Get the stream length by subtracting the length of the header packets
 
@@ -155,8 +155,11 @@ where
 			let stream_len = file_length - header_size as u64;
 
 			properties.duration = Duration::from_millis(length);
-			properties.overall_bitrate = ((file_length * 8) / length) as u32;
-			properties.audio_bitrate = ((stream_len * 8) / length) as u32;
+			// The stream may be shorter than a millisecond
+			if length > 0 {
+				properties.overall_bitrate = ((file_length * 8) / length) as u32;
+				properties.audio_bitrate = ((stream_len * 8) / length) as u32;
+			}
 		} else {
 			log::warn!("Opus: The file contains invalid PCM values, unable to calculate length");
 		}
diff --git a/lofty/src/ogg/speex/properties.rs b/lofty/src/ogg/speex/properties.rs
index fc1fd00..167691d 100644
--- a/lofty/src/ogg/speex/properties.rs
+++ b/lofty/src/ogg/speex/properties.rs
@@ -173,8 +173,12 @@ where
 
 			// Best case scenario
 			if total_samples > 0 {
-				length = (total_samples * 1000).div_round(u64::from(properties.sample_rate));
-				properties.duration = Duration::from_millis(length);
+				let duration_millis = (u128::from(total_samples) * 1000)
+					.div_round(u128::from(properties.sample_rate)) as u64;
+				properties.duration = Duration::from_millis(duration_millis);
+
+				// The stream may be shorter than a millisecond
+				length = duration_millis.max(1);
 			} else {
 				log::warn!(
 					"Speex: The file contains invalid PCM values, unable to calculate length"
-- 
2.43.0


From e1f4f87bbcace9a807f12ea8061c50d75151f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 055/111] fix: options that leave tags out change neither
 whether an APE tagged file can be read nor its properties

---
 lofty/src/ape/tag/read.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/ape/tag/read.rs b/lofty/src/ape/tag/read.rs
index 813ebab..f60d58f 100644
--- a/lofty/src/ape/tag/read.rs
+++ b/lofty/src/ape/tag/read.rs
@@ -120,9 +120,14 @@ pub(crate) fn read_ape_tag<R: Read + Seek>(
 
 	let mut ape_tag = None;
 	if &ape_preamble == APE_PREAMBLE {
+		let end_of_preamble = reader.stream_position()?;
+
 		let ape_header = header::read_ape_header(reader, footer)?;
 		if parse_options.read_tags {
 			ape_tag = Some(read_ape_tag_with_header(reader, ape_header, parse_options)?);
+		} else if footer {
+			// The reader was moved to the start of the items, and callers expect it to be past the footer
+			reader.seek(SeekFrom::Start(end_of_preamble + 24))?;
 		}
 
 		return Ok((ape_tag, Some(ape_header)));
-- 
2.43.0


From b3c122615abb507c4a113f258dec43288324769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 056/111] fix: count the ID3v2 tag of a Musepack file even if
 tags are not read

---
 lofty/src/musepack/read.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lofty/src/musepack/read.rs b/lofty/src/musepack/read.rs
index 2faac94..816e960 100644
--- a/lofty/src/musepack/read.rs
+++ b/lofty/src/musepack/read.rs
@@ -34,7 +34,7 @@ where
 
 	// ID3v2 tags are unsupported in MPC files, but still possible
 	#[allow(unused_variables)]
-	if let ID3FindResults(Some(header), Some(content)) =
+	if let ID3FindResults(Some(header), content) =
 		find_id3v2(reader, find_id3v2_config).map_err(TagParseError::from)?
 	{
 		let Some(new_stream_length) = stream_length.checked_sub(u64::from(header.full_tag_size()))
@@ -44,10 +44,12 @@ where
 
 		stream_length = new_stream_length;
 
-		let reader = &mut &*content;
+		if let Some(content) = content {
+			let reader = &mut &*content;
 
-		let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
-		file.id3v2_tag = Some(id3v2);
+			let id3v2 = parse_id3v2(reader, header, parse_options).map_err(TagParseError::from)?;
+			file.id3v2_tag = Some(id3v2);
+		}
 	}
 
 	// Save the current position, so we can go back and read the properties after the tags
-- 
2.43.0


From 6bc0c13337bf1ad08cec1f355806faecd39133f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 057/111] fix: do not panic on Opus streams with unusual
 channel counts

---
 lofty/src/ogg/opus/properties.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ogg/opus/properties.rs b/lofty/src/ogg/opus/properties.rs
index f7c4be9..6ab1dc5 100644
--- a/lofty/src/ogg/opus/properties.rs
+++ b/lofty/src/ogg/opus/properties.rs
@@ -113,7 +113,8 @@ where
 	let channel_mapping_family = identification_packet_reader.read_u8()?;
 
 	// https://datatracker.ietf.org/doc/html/rfc7845.html#section-5.1.1
-	if (channel_mapping_family == 0 && properties.channels > 2)
+	if properties.channels == 0
+		|| (channel_mapping_family == 0 && properties.channels > 2)
 		|| (channel_mapping_family == 1 && properties.channels > 8)
 	{
 		return Err(FileParseError::message(
@@ -122,8 +123,9 @@ where
 		));
 	}
 
+	// Only families 0 and 1 define the meaning of the channels
 	properties.channel_mask =
-		ChannelMask::from_opus_channels(properties.channels).expect("Channel count is valid");
+		ChannelMask::from_opus_channels(properties.channels).unwrap_or_default();
 
 	let last_page = match find_last_page(data) {
 		Err(e) if is_io_failure(&e) => return Err(e),
-- 
2.43.0


From 6ace3ae639683afc548094681fc7735ba6a8eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 058/111] fix: do not overflow on WAV files of the largest
 declarable size

---
 lofty/src/iff/wav/tag/write.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lofty/src/iff/wav/tag/write.rs b/lofty/src/iff/wav/tag/write.rs
index 1fafbd4..342b0c8 100644
--- a/lofty/src/iff/wav/tag/write.rs
+++ b/lofty/src/iff/wav/tag/write.rs
@@ -42,7 +42,9 @@ where
 	file.read_to_end(file_bytes.get_mut())?;
 
 	// File is lying about its length
-	if file_bytes.get_ref().len() < (original_stream_length + IFF_CHUNK_HEADER_SIZE) as usize {
+	if (file_bytes.get_ref().len() as u64)
+		< u64::from(original_stream_length) + u64::from(IFF_CHUNK_HEADER_SIZE)
+	{
 		return Err(SizeMismatchError.into());
 	}
 
-- 
2.43.0


From 3f943419b5736a7c246eb45c1eadbf1189a68439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 059/111] fix: refuse to rewrite MP4 files whose atoms lie
 about their length, instead of panicking

---
 lofty/src/mp4/ilst/write.rs |  6 +++---
 lofty/src/mp4/write.rs      | 20 ++++++++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index cd23e6a..5eed57b 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -172,7 +172,7 @@ where
 				write_handle.write_atom_size(udta.start, new_udta_size, udta.extended)?;
 
 				let meta_start_pos = meta_start_pos as usize;
-				write_handle.splice(meta_start_pos..meta_start_pos, bytes);
+				write_handle.splice(meta_start_pos..meta_start_pos, bytes)?;
 
 				// TODO: We need to drop the handle at the end of each branch, which is annoying
 				//       This whole function needs to be refactored eventually.
@@ -193,7 +193,7 @@ where
 
 		let mut write_handle = atom_writer.start_write();
 		let udta_pos = moov_data_start as usize;
-		write_handle.splice(udta_pos..udta_pos, bytes);
+		write_handle.splice(udta_pos..udta_pos, bytes)?;
 
 		drop(write_handle);
 	}
@@ -372,7 +372,7 @@ fn save_to_existing(
 
 	// Replace the `ilst` atom
 	let mut write_handle = writer.start_write();
-	write_handle.splice(range, replacement);
+	write_handle.splice(range, replacement)?;
 	drop(write_handle);
 
 	Ok(())
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 877354a..c169d57 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -1,5 +1,5 @@
 use crate::config::ParsingMode;
-use crate::error::FileEncodingError;
+use crate::error::{FileEncodingError, SizeMismatchError};
 use crate::mp4::atom_info::{AtomIdent, AtomInfo, IDENTIFIER_LEN};
 use crate::mp4::error::{AtomParseError, Mp4ParseError};
 use crate::mp4::read::{meta_is_full, skip_atom};
@@ -7,7 +7,7 @@ use crate::util::io::FileLike;
 
 use std::cell::{RefCell, RefMut};
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
-use std::ops::RangeBounds;
+use std::ops::Range;
 
 use byteorder::{BigEndian, WriteBytesExt};
 
@@ -201,12 +201,24 @@ impl AtomWriterCompanion<'_> {
 	}
 
 	/// Replace the contents of the given range
-	pub(super) fn splice<R, I>(&mut self, range: R, replacement: I)
+	///
+	/// # Errors
+	///
+	/// `range` is not within the contents (an atom is lying about its length)
+	pub(super) fn splice<I>(
+		&mut self,
+		range: Range<usize>,
+		replacement: I,
+	) -> Result<(), SizeMismatchError>
 	where
-		R: RangeBounds<usize>,
 		I: IntoIterator<Item = u8>,
 	{
+		if range.start > range.end || range.end > self.contents.get_ref().len() {
+			return Err(SizeMismatchError);
+		}
+
 		self.contents.get_mut().splice(range, replacement);
+		Ok(())
 	}
 
 	/// Write an atom's size
-- 
2.43.0


From 57848cc2baf07d788c94b78e627812ddc57b88bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 060/111] fix: refuse to rewrite an ID3v2 chunk that lies about
 its length, instead of panicking

---
 lofty/src/id3/v2/write/chunk_file.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lofty/src/id3/v2/write/chunk_file.rs b/lofty/src/id3/v2/write/chunk_file.rs
index aa800c6..5b9de15 100644
--- a/lofty/src/id3/v2/write/chunk_file.rs
+++ b/lofty/src/id3/v2/write/chunk_file.rs
@@ -85,6 +85,11 @@ where
 	if let Some(existing_id3_tag) = file_context.existing_id3_tag.clone() {
 		let existing_tag_len = existing_id3_tag.end - existing_id3_tag.start;
 
+		// File is lying about its length
+		if existing_id3_tag.end > file_len {
+			return Err(SizeMismatchError.into());
+		}
+
 		// We can just overwrite tags at the end of the file
 		if file_context.duplicate_id3_tags.is_empty()
 			&& existing_id3_tag.end == file_context.stream_length
@@ -159,6 +164,10 @@ where
 	file.rewind()?;
 	file.read_to_end(file_bytes.get_mut())?;
 
+	if file_context.stream_length > file_bytes.get_ref().len() as u64 {
+		return Err(SizeMismatchError.into());
+	}
+
 	let mut tag_bytes = Vec::new();
 	if !tag.is_empty() {
 		write_id3v2_chunk::<_, B>(tag, write_options, &mut tag_bytes)?;
-- 
2.43.0


From ab3702a5f34878ca2346552cc1473a594ffe024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 061/111] fix: mp4: accept containers that end with a zero
 terminator when writing

---
 lofty/src/mp4/write.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index c169d57..6c1e7e3 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -1,6 +1,6 @@
 use crate::config::ParsingMode;
 use crate::error::{FileEncodingError, SizeMismatchError};
-use crate::mp4::atom_info::{AtomIdent, AtomInfo, IDENTIFIER_LEN};
+use crate::mp4::atom_info::{ATOM_HEADER_LEN, AtomIdent, AtomInfo, IDENTIFIER_LEN};
 use crate::mp4::error::{AtomParseError, Mp4ParseError};
 use crate::mp4::read::{meta_is_full, skip_atom};
 use crate::util::io::FileLike;
@@ -44,6 +44,22 @@ impl ContextualAtom {
 			return Ok(None);
 		}
 
+		// Containers, `udta` in particular, may end with a terminator: a 32-bit integer set to 0
+		if *reader_len < ATOM_HEADER_LEN {
+			let mut terminator = [0; ATOM_HEADER_LEN as usize];
+			reader.read_exact(&mut terminator[..*reader_len as usize])?;
+
+			if terminator.iter().any(|b| *b != 0) {
+				return Err(AtomParseError::message(
+					None,
+					"expected another atom or a terminator",
+				));
+			}
+
+			*reader_len = 0;
+			return Ok(None);
+		}
+
 		let Some(info) = AtomInfo::read(reader, *reader_len, parse_mode)? else {
 			return Ok(None);
 		};
-- 
2.43.0


From 5990ffc12e5b439f2bf630299004e28ae0d7a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 062/111] fix: mp4: honour 64-bit atom sizes and atom bounds
 when reading

---
 lofty/src/mp4/moov.rs             | 12 +++++++-----
 lofty/src/mp4/properties.rs       |  4 ++--
 lofty/src/mp4/read/atom_reader.rs |  6 +++++-
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/lofty/src/mp4/moov.rs b/lofty/src/mp4/moov.rs
index 686fdb7..de48afe 100644
--- a/lofty/src/mp4/moov.rs
+++ b/lofty/src/mp4/moov.rs
@@ -95,6 +95,7 @@ where
 	let mut read = 8;
 	let mut found_meta = false;
 	let mut meta_atom_size = 0;
+	let mut meta_header_size = 0;
 
 	while read < len {
 		let Some(atom) = reader.next()? else {
@@ -104,6 +105,7 @@ where
 		if atom.ident == AtomIdent::Fourcc(*b"meta") {
 			found_meta = true;
 			meta_atom_size = atom.len;
+			meta_header_size = atom.header_size();
 			break;
 		}
 
@@ -120,13 +122,13 @@ where
 	let full_meta_atom = meta_is_full(reader)?;
 
 	if full_meta_atom {
-		read = 12;
+		read = meta_header_size + 4;
 	} else {
-		read = 8;
+		read = meta_header_size;
 	}
 
 	let mut found_ilst = false;
-	let mut ilst_atom_size = 0;
+	let mut ilst_content_size = 0;
 
 	while read < meta_atom_size {
 		let Some(atom) = reader.next()? else {
@@ -135,7 +137,7 @@ where
 
 		if atom.ident == AtomIdent::Fourcc(*b"ilst") {
 			found_ilst = true;
-			ilst_atom_size = atom.len;
+			ilst_content_size = atom.len - atom.header_size();
 			break;
 		}
 
@@ -144,7 +146,7 @@ where
 	}
 
 	if found_ilst {
-		return parse_ilst(reader, parse_options, ilst_atom_size - 8).map(Some);
+		return parse_ilst(reader, parse_options, ilst_content_size).map(Some);
 	}
 
 	Ok(None)
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 51f286c..b72c858 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -510,7 +510,7 @@ impl Minf {
 							where
 								R: Read + Seek,
 							{
-								let mut stsd = try_vec![0; (atom.len - 8) as usize]?;
+								let mut stsd = try_vec![0; (atom.len - atom.header_size()) as usize]?;
 								reader.read_exact(&mut stsd)?;
 								Ok(stsd)
 							}
@@ -1034,7 +1034,7 @@ where
 
 	while let Some(atom) = reader.next_valid()? {
 		if atom.ident == AtomIdent::Fourcc(*b"mdat") {
-			return Ok(atom.len - 8);
+			return Ok(atom.len - atom.header_size());
 		}
 
 		skip_atom(reader, atom.extended, atom.len)?;
diff --git a/lofty/src/mp4/read/atom_reader.rs b/lofty/src/mp4/read/atom_reader.rs
index 2ba7ec7..9ca598d 100644
--- a/lofty/src/mp4/read/atom_reader.rs
+++ b/lofty/src/mp4/read/atom_reader.rs
@@ -171,7 +171,11 @@ where
 			return Ok(0);
 		}
 
-		let r = self.reader.read(buf)?;
+		// Never read past the end of the current bounds
+		let max_len = usize::try_from(self.remaining_size).unwrap_or(usize::MAX);
+		let max_len = core::cmp::min(buf.len(), max_len);
+
+		let r = self.reader.read(&mut buf[..max_len])?;
 		self.remaining_size = self.remaining_size.saturating_sub(r as u64);
 
 		Ok(r)
-- 
2.43.0


From 8ff9cbb1dd6f1295ce4f4df0bb824721cf8eb767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 063/111] fix: bound decompressed ID3v2 frames by the
 allocation limit

---
 lofty/src/id3/v2/frame/read.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index 2fcef85..be92108 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -230,10 +230,40 @@ impl ParsedFrame<'static> {
 	}
 }
 
+/// Decompresses a frame, up to [`GlobalOptions::allocation_limit()`]
+///
+/// The size of a compressed frame says nothing about the size of its content, so a tiny tag could otherwise
+/// exhaust the available memory.
+///
+/// [`GlobalOptions::allocation_limit()`]: crate::config::GlobalOptions::allocation_limit
+#[cfg(feature = "id3v2_compression_support")]
+struct LimitedZlibDecoder<R> {
+	decoder: flate2::read::ZlibDecoder<R>,
+	remaining: usize,
+}
+
+#[cfg(feature = "id3v2_compression_support")]
+impl<R: Read> Read for LimitedZlibDecoder<R> {
+	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+		let read = self.decoder.read(buf)?;
+		self.remaining = self.remaining.checked_sub(read).ok_or_else(|| {
+			std::io::Error::new(
+				std::io::ErrorKind::InvalidInput,
+				crate::util::alloc::AllocationError::LimitExceeded,
+			)
+		})?;
+
+		Ok(read)
+	}
+}
+
 #[cfg(feature = "id3v2_compression_support")]
 #[allow(clippy::unnecessary_wraps)]
-fn handle_compression<R: Read>(reader: R) -> Result<flate2::read::ZlibDecoder<R>, FrameParseError> {
-	Ok(flate2::read::ZlibDecoder::new(reader))
+fn handle_compression<R: Read>(reader: R) -> Result<LimitedZlibDecoder<R>, FrameParseError> {
+	Ok(LimitedZlibDecoder {
+		decoder: flate2::read::ZlibDecoder::new(reader),
+		remaining: unsafe { crate::config::global_options() }.allocation_limit,
+	})
 }
 
 #[cfg(not(feature = "id3v2_compression_support"))]
-- 
2.43.0


From 02d645ddd5d25fdc3ffc1d8950f7a21aa4923c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 064/111] fix: count the allocation limit in bytes

---
 lofty/src/util/alloc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lofty/src/util/alloc.rs b/lofty/src/util/alloc.rs
index ec1b8d3..d8d9764 100644
--- a/lofty/src/util/alloc.rs
+++ b/lofty/src/util/alloc.rs
@@ -50,7 +50,8 @@ impl<T> VecFallibleRepeat<T> for Vec<T> {
 			return Ok(self);
 		}
 
-		if expected_size > unsafe { global_options().allocation_limit } {
+		let expected_bytes = expected_size.saturating_mul(size_of::<T>());
+		if expected_bytes > unsafe { global_options().allocation_limit } {
 			return Err(AllocationError::LimitExceeded);
 		}
 
@@ -100,7 +101,8 @@ pub(crate) trait VecFallibleCapacity<T>: Sized {
 
 impl<T> VecFallibleCapacity<T> for Vec<T> {
 	fn try_with_capacity_stable(capacity: usize) -> Result<Self, AllocationError> {
-		if capacity > unsafe { global_options().allocation_limit } {
+		let capacity_bytes = capacity.saturating_mul(size_of::<T>());
+		if capacity_bytes > unsafe { global_options().allocation_limit } {
 			return Err(AllocationError::LimitExceeded);
 		}
 
-- 
2.43.0


From a4627819a887a05517bc8ffc6f16d2afbc8bf2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 065/111] fix: write empty packets, and no granule position
 before a nil page, when paginating Ogg packets

---
 ogg_pager/src/paginate.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ogg_pager/src/paginate.rs b/ogg_pager/src/paginate.rs
index 4a6f355..3eff435 100644
--- a/ogg_pager/src/paginate.rs
+++ b/ogg_pager/src/paginate.rs
@@ -170,7 +170,7 @@ fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 
 		packet = &packet[bytes_read..];
 
-		if bytes_read <= MAX_WRITTEN_CONTENT_SIZE && packet.is_empty() {
+		if bytes_read < MAX_WRITTEN_CONTENT_SIZE && packet.is_empty() {
 			ctx.flags.packet_finished_on_page = true;
 		}
 
@@ -198,14 +198,18 @@ fn paginate_packet(ctx: &mut PaginateContext, packet: &[u8]) -> Result<()> {
 	//
 	// From <https://xiph.org/ogg/doc/framing.html>:
 	// "Note also that a 'nil' (zero length) packet is not an error; it consists of nothing more than a lacing value of zero in the header."
-	if ctx.current_packet_len != 0
-		&& ctx
-			.current_packet_len
-			.is_multiple_of(255 * MAX_WRITTEN_SEGMENT_COUNT)
+	//
+	// This also covers empty packets, which consist of nothing but that zero-sized segment.
+	if ctx
+		.current_packet_len
+		.is_multiple_of(255 * MAX_WRITTEN_SEGMENT_COUNT)
 	{
 		ctx.flags.packet_finished_on_page = true;
 		let mut nil_content = Vec::new();
 		ctx.flush_page(&mut nil_content);
+
+		ctx.flags.first_page = false;
+		ctx.flags.fresh_packet = false;
 	}
 
 	Ok(())
-- 
2.43.0


From 67cbfb2207da2b4113ae202cdff29ae078e0312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:07 +0000
Subject: [PATCH 066/111] fix: find the frames after an unsynchronised extended
 header in ID3v2.3 tags

---
 lofty/src/id3/v2/header.rs | 62 +++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index a0ed431..1f642f8 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -1,7 +1,7 @@
 use crate::error::FakeTagError;
 use crate::id3::v2::error::{Id3v2HeaderError, Id3v2ParseError};
 use crate::id3::v2::restrictions::TagRestrictions;
-use crate::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
+use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 
 use std::fmt::Display;
 use std::io::Read;
@@ -155,16 +155,19 @@ impl Id3v2Header {
 				// thus subject to unsynchronization
 				Id3v2Version::V3 => {
 					if flags_parsed.unsynchronisation {
-						let mut reader = UnsynchronizedStream::new(bytes);
-						extended_size = reader.read_u32::<BigEndian>()?;
-						read_extended_header(&mut reader, &mut flags_parsed, extended_size)?;
+						let mut reader = UnsynchronizedHeader::new(bytes);
+						let header_size = reader.read_u32::<BigEndian>()?;
+						read_extended_header(&mut reader, &mut flags_parsed, header_size)?;
+
+						// The tag size includes the bytes that were inserted for unsynchronisation
+						extended_size = reader.consumed;
 					} else {
 						extended_size = bytes.read_u32::<BigEndian>()?;
 						read_extended_header(bytes, &mut flags_parsed, extended_size)?;
-					}
 
-					// In ID3v2.3, the size excludes itself
-					extended_size = extended_size.saturating_add(4);
+						// In ID3v2.3, the size excludes itself
+						extended_size = extended_size.saturating_add(4);
+					}
 				},
 				// In ID3v2.4, they seem to be considered one big header (?) so no flags apply to it
 				Id3v2Version::V4 => {
@@ -198,6 +201,51 @@ impl Id3v2Header {
 	}
 }
 
+/// Undoes the unsynchronisation of an extended header
+///
+/// The frames follow the extended header immediately, so unlike [`UnsynchronizedStream`], this will never
+/// read ahead.
+///
+/// [`UnsynchronizedStream`]: crate::id3::v2::util::synchsafe::UnsynchronizedStream
+struct UnsynchronizedHeader<R> {
+	reader: R,
+	consumed: u32,
+	encountered_ff: bool,
+}
+
+impl<R> UnsynchronizedHeader<R> {
+	fn new(reader: R) -> Self {
+		Self {
+			reader,
+			consumed: 0,
+			encountered_ff: false,
+		}
+	}
+}
+
+impl<R: Read> Read for UnsynchronizedHeader<R> {
+	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+		let Some(dest) = buf.get_mut(..1) else {
+			return Ok(0);
+		};
+
+		loop {
+			let read = self.reader.read(dest)?;
+			if read == 0 {
+				return Ok(0);
+			}
+
+			self.consumed = self.consumed.saturating_add(1);
+
+			let skip = self.encountered_ff && dest[0] == 0;
+			self.encountered_ff = dest[0] == 0xFF;
+			if !skip {
+				return Ok(read);
+			}
+		}
+	}
+}
+
 /// Read the extended header that follows its size
 ///
 /// `header_size` is the size of the extended header, excluding the size field itself. All of it will
-- 
2.43.0


From cebf08038d3f807b81eb5355186d1d59f43fb245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:07 +0000
Subject: [PATCH 067/111] fix: read all of the content of ID3v2 frames, and
 their additional information in the order of the flags

---
 lofty/src/id3/v2/frame/read.rs  | 331 +++++++++++++++++++-------------
 lofty/src/id3/v2/write/frame.rs |  29 ++-
 2 files changed, 223 insertions(+), 137 deletions(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index be92108..b67671a 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -79,60 +79,18 @@ impl ParsedFrame<'static> {
 			return Ok(Self::Skip);
 		}
 
-		// Get the encryption method symbol
-		if let Some(enc) = flags.encryption.as_mut() {
-			log::trace!("Reading encryption method symbol");
-
-			if size < 1 {
-				return Err(FrameParseError::undersized(id));
-			}
-
-			match reader.read_u8() {
-				Ok(sym) => *enc = sym,
-				Err(e) => {
-					return Err(FrameParseError::io(Some(id), e));
-				},
-			}
-
-			size -= 1;
-		}
-
-		// Get the group identifier
-		if let Some(group) = flags.grouping_identity.as_mut() {
-			log::trace!("Reading group identifier");
-
-			if size < 1 {
-				return Err(FrameParseError::undersized(id));
-			}
-
-			match reader.read_u8() {
-				Ok(sym) => *group = sym,
-				Err(e) => {
-					return Err(FrameParseError::io(Some(id), e));
-				},
-			}
-
-			size -= 1;
-		}
-
-		// Get the real data length
-		if flags.data_length_indicator.is_some() || flags.compression {
-			log::trace!("Reading data length indicator");
-
-			if size < 4 {
-				return Err(FrameParseError::undersized(id));
-			}
-
-			// For some reason, no one can follow the spec, so while a data length indicator is *written*
-			// the flag **isn't always set**
-			let len = match reader.read_u32::<BigEndian>() {
-				Ok(len) => len.unsynch(),
-				Err(e) => {
-					return Err(FrameParseError::io(Some(id), e));
-				},
-			};
-			flags.data_length_indicator = Some(len);
-			size -= 4;
+		// All additional information is stored in the order of the flags indicating it:
+		//
+		// * ID3v2.3: decompressed size, encryption, group
+		// * ID3v2.4: group, encryption, data length indicator
+		if version == Id3v2Version::V3 {
+			read_data_length(reader, &mut flags, &mut size, &id, version)?;
+			read_encryption_method(reader, &mut flags, &mut size, &id)?;
+			read_group_identifier(reader, &mut flags, &mut size, &id)?;
+		} else {
+			read_group_identifier(reader, &mut flags, &mut size, &id)?;
+			read_encryption_method(reader, &mut flags, &mut size, &id)?;
+			read_data_length(reader, &mut flags, &mut size, &id, version)?;
 		}
 
 		// Frames must have at least 1 byte, *after* all of the additional data flags can provide
@@ -140,69 +98,60 @@ impl ParsedFrame<'static> {
 			return Err(FrameParseError::undersized(id));
 		}
 
+		// ID3v2.3 has no data length indicator, unless the frame is compressed
+		if version == Id3v2Version::V3
+			&& flags.encryption.is_some()
+			&& flags.data_length_indicator.is_none()
+		{
+			flags.data_length_indicator = Some(size);
+		}
+
 		// Restrict the reader to the frame content
-		let mut reader = reader.take(u64::from(size));
+		let mut content = reader.take(u64::from(size));
+		let frame = read_content(&mut content, size, id, flags, version, parse_options)?;
 
-		// It seems like the flags are applied in the order:
-		//
-		// unsynchronization -> compression -> encryption
-		//
-		// Which all have their own needs, so this gets a little messy...
-		match flags {
-			// Possible combinations:
-			//
-			// * unsynchronized + compressed + encrypted
-			// * unsynchronized + compressed
-			// * unsynchronized + encrypted
-			// * unsynchronized
-			FrameFlags {
-				unsynchronisation: true,
-				..
-			} => {
-				let mut unsynchronized_reader = UnsynchronizedStream::new(reader);
-
-				if flags.compression {
-					let mut compression_reader = handle_compression(unsynchronized_reader)?;
-
-					if flags.encryption.is_some() {
-						return handle_encryption(&mut compression_reader, size, id, flags);
-					}
-
-					return parse_frame(
-						&mut compression_reader,
-						size,
-						id,
-						flags,
-						version,
-						parse_options,
-					);
-				}
+		// The next frame starts after *all* of the content, regardless of how much of it was used
+		std::io::copy(&mut content, &mut std::io::sink())?;
 
-				if flags.encryption.is_some() {
-					return handle_encryption(&mut unsynchronized_reader, size, id, flags);
-				}
+		Ok(frame)
+	}
+}
 
-				return parse_frame(
-					&mut unsynchronized_reader,
-					size,
-					id,
-					flags,
-					version,
-					parse_options,
-				);
-			},
-			// Possible combinations:
-			//
-			// * compressed + encrypted
-			// * compressed
-			FrameFlags {
-				compression: true, ..
-			} => {
-				let mut compression_reader = handle_compression(reader)?;
-
-				if flags.encryption.is_some() {
-					return handle_encryption(&mut compression_reader, size, id, flags);
-				}
+fn read_content<R>(
+	reader: &mut R,
+	size: u32,
+	id: FrameId<'static>,
+	flags: FrameFlags,
+	version: Id3v2Version,
+	parse_options: ParseOptions,
+) -> Result<ParsedFrame<'static>, FrameParseError>
+where
+	R: Read,
+{
+	// It seems like the flags are applied in the order:
+	//
+	// compression -> encryption -> unsynchronization
+	//
+	// Which all have their own needs, so this gets a little messy...
+	match flags {
+		// Possible combinations:
+		//
+		// * unsynchronized + compressed + encrypted
+		// * unsynchronized + compressed
+		// * unsynchronized + encrypted
+		// * unsynchronized
+		FrameFlags {
+			unsynchronisation: true,
+			..
+		} => {
+			let mut unsynchronized_reader = UnsynchronizedStream::new(reader);
+
+			if flags.encryption.is_some() {
+				return handle_encryption(&mut unsynchronized_reader, size, id, flags);
+			}
+
+			if flags.compression {
+				let mut compression_reader = handle_compression(unsynchronized_reader)?;
 
 				return parse_frame(
 					&mut compression_reader,
@@ -212,22 +161,135 @@ impl ParsedFrame<'static> {
 					version,
 					parse_options,
 				);
-			},
-			// Possible combinations:
-			//
-			// * encrypted
-			FrameFlags {
-				encryption: Some(_),
-				..
-			} => {
-				return handle_encryption(&mut reader, size, id, flags);
-			},
-			// Everything else that doesn't have special flags
-			_ => {
-				return parse_frame(&mut reader, size, id, flags, version, parse_options);
-			},
-		}
+			}
+
+			parse_frame(
+				&mut unsynchronized_reader,
+				size,
+				id,
+				flags,
+				version,
+				parse_options,
+			)
+		},
+		// Possible combinations:
+		//
+		// * compressed + encrypted
+		// * encrypted
+		FrameFlags {
+			encryption: Some(_),
+			..
+		} => handle_encryption(reader, size, id, flags),
+		// Possible combinations:
+		//
+		// * compressed
+		FrameFlags {
+			compression: true, ..
+		} => {
+			let mut compression_reader = handle_compression(reader)?;
+
+			parse_frame(
+				&mut compression_reader,
+				size,
+				id,
+				flags,
+				version,
+				parse_options,
+			)
+		},
+		// Everything else that doesn't have special flags
+		_ => parse_frame(reader, size, id, flags, version, parse_options),
+	}
+}
+
+fn read_encryption_method(
+	reader: &mut (impl Read + ?Sized),
+	flags: &mut FrameFlags,
+	size: &mut u32,
+	id: &FrameId<'static>,
+) -> Result<(), FrameParseError> {
+	let Some(enc) = flags.encryption.as_mut() else {
+		return Ok(());
+	};
+
+	log::trace!("Reading encryption method symbol");
+
+	if *size < 1 {
+		return Err(FrameParseError::undersized(id.clone()));
 	}
+
+	match reader.read_u8() {
+		Ok(sym) => *enc = sym,
+		Err(e) => {
+			return Err(FrameParseError::io(Some(id.clone()), e));
+		},
+	}
+
+	*size -= 1;
+
+	Ok(())
+}
+
+fn read_group_identifier(
+	reader: &mut (impl Read + ?Sized),
+	flags: &mut FrameFlags,
+	size: &mut u32,
+	id: &FrameId<'static>,
+) -> Result<(), FrameParseError> {
+	let Some(group) = flags.grouping_identity.as_mut() else {
+		return Ok(());
+	};
+
+	log::trace!("Reading group identifier");
+
+	if *size < 1 {
+		return Err(FrameParseError::undersized(id.clone()));
+	}
+
+	match reader.read_u8() {
+		Ok(sym) => *group = sym,
+		Err(e) => {
+			return Err(FrameParseError::io(Some(id.clone()), e));
+		},
+	}
+
+	*size -= 1;
+
+	Ok(())
+}
+
+// Get the real data length
+fn read_data_length(
+	reader: &mut (impl Read + ?Sized),
+	flags: &mut FrameFlags,
+	size: &mut u32,
+	id: &FrameId<'static>,
+	version: Id3v2Version,
+) -> Result<(), FrameParseError> {
+	if flags.data_length_indicator.is_none() && !flags.compression {
+		return Ok(());
+	}
+
+	log::trace!("Reading data length indicator");
+
+	if *size < 4 {
+		return Err(FrameParseError::undersized(id.clone()));
+	}
+
+	// For some reason, no one can follow the spec, so while a data length indicator is *written*
+	// the flag **isn't always set**
+	let len = match reader.read_u32::<BigEndian>() {
+		// Not synchsafe in ID3v2.3
+		Ok(len) if version == Id3v2Version::V3 => len,
+		Ok(len) => len.unsynch(),
+		Err(e) => {
+			return Err(FrameParseError::io(Some(id.clone()), e));
+		},
+	};
+	flags.data_length_indicator = Some(len);
+	*size -= 4;
+
+	Ok(())
 }
 
 /// Decompresses a frame, up to [`GlobalOptions::allocation_limit()`]
@@ -283,7 +345,18 @@ fn handle_encryption<R: Read>(
 	}
 
 	let mut content = try_vec![0; size as usize]?;
-	if let Err(e) = reader.read_exact(&mut content) {
+	let result = if flags.unsynchronisation {
+		// The size includes the bytes that were inserted for unsynchronisation
+		std::io::copy(
+			&mut reader.take(u64::from(size)),
+			&mut content.as_mut_slice(),
+		)
+		.map(|read| content.truncate(read as usize))
+	} else {
+		reader.read_exact(&mut content)
+	};
+
+	if let Err(e) = result {
 		return Err(FrameParseError::io(Some(id), e));
 	}
 
diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index f95b61b..5f541c0 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -306,13 +306,13 @@ where
 {
 	// The content is always written as-is, regardless of how it was stored originally
 	flags.unsynchronisation = false;
-	flags.compression = false;
 
 	if flags.encryption.is_some() {
 		write_encrypted(writer, name, value, flags, write_options)?;
 		return Ok(());
 	}
 
+	flags.compression = false;
 	flags.data_length_indicator = None;
 
 	let len = value.len() as u32;
@@ -359,8 +359,11 @@ where
 	if let Some(mut len) = flags.data_length_indicator
 		&& len > 0
 	{
+		// ID3v2.3 only stores the length of compressed frames
+		let write_len = !write_options.use_id3v23 || flags.compression;
+
 		// Method symbol + data length indicator
-		let mut extra_len = 1 + 4;
+		let mut extra_len = if write_len { 1 + 4 } else { 1 };
 		if flags.grouping_identity.is_some() {
 			extra_len += 1;
 		}
@@ -372,15 +375,25 @@ where
 			flags,
 			write_options,
 		)?;
-		if !write_options.use_id3v23 {
+
+		// The additional information is written in the order of the flags indicating it
+		if write_options.use_id3v23 {
+			if write_len {
+				writer.write_u32::<BigEndian>(len)?;
+			}
+			writer.write_u8(method_symbol)?;
+			if let Some(group) = flags.grouping_identity {
+				writer.write_u8(group)?;
+			}
+		} else {
 			len = len.synch()?;
-		}
 
-		writer.write_u8(method_symbol)?;
-		if let Some(group) = flags.grouping_identity {
-			writer.write_u8(group)?;
+			if let Some(group) = flags.grouping_identity {
+				writer.write_u8(group)?;
+			}
+			writer.write_u8(method_symbol)?;
+			writer.write_u32::<BigEndian>(len)?;
 		}
-		writer.write_u32::<BigEndian>(len)?;
 		writer.write_all(value)?;
 
 		return Ok(());
-- 
2.43.0


From 67b015042a34b40d9a4bae3714b21ccba9078d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 068/111] fix: end the URL of WXXX frames at its terminator

---
 lofty/src/id3/v2/items/extended_url_frame.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/extended_url_frame.rs b/lofty/src/id3/v2/items/extended_url_frame.rs
index 5376a5a..e7170f4 100644
--- a/lofty/src/id3/v2/items/extended_url_frame.rs
+++ b/lofty/src/id3/v2/items/extended_url_frame.rs
@@ -113,7 +113,10 @@ impl<'a> ExtendedUrlFrame<'a> {
 			.content;
 			let content = decode_text(
 				reader,
-				TextDecodeOptions::new().encoding(TextEncoding::Latin1),
+				// Anything following a terminator is to be ignored
+				TextDecodeOptions::new()
+					.encoding(TextEncoding::Latin1)
+					.terminated(true),
 			)?
 			.content;
 
-- 
2.43.0


From 41308f5a5b41ba3fa5ff482405c0964f38dd4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 069/111] fix: account for 64-bit sizes, and atoms following
 `minf`, when looking for the MP4 audio track

---
 lofty/src/mp4/properties.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index b72c858..babc895 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -308,9 +308,9 @@ where
 		mdhd = None;
 		minf = None;
 
-		reader.seek(SeekFrom::Start(mdia.start + 8))?;
+		reader.seek(SeekFrom::Start(mdia.start + mdia.header_size()))?;
 
-		let mut read = 8;
+		let mut read = mdia.header_size();
 		while read < mdia.len {
 			let Some(atom) = reader.next()? else { break };
 
@@ -341,7 +341,10 @@ where
 
 						skip_atom(reader, atom.extended, atom.len - 12)?;
 					},
-					b"minf" => minf = Some(atom),
+					b"minf" => {
+						skip_atom(reader, atom.extended, atom.len)?;
+						minf = Some(atom)
+					},
 					_ => {
 						skip_atom(reader, atom.extended, atom.len)?;
 					},
@@ -494,7 +497,7 @@ impl Minf {
 			let mut stsd_data = None;
 			let mut stts = None;
 
-			let mut read = 8;
+			let mut read = stbl.header_size();
 			while read < stbl.len {
 				let Some(atom) = reader.next()? else { break };
 
@@ -683,7 +686,7 @@ where
 	// We need the mdhd and minf atoms from the audio track
 	let AudioTrak { mdhd, minf } = find_audio_trak(reader, traks)?;
 
-	reader.seek(SeekFrom::Start(mdhd.start + 8))?;
+	reader.seek(SeekFrom::Start(mdhd.start + mdhd.header_size()))?;
 	let Mdhd {
 		timescale,
 		duration,
-- 
2.43.0


From 50b903fd5181e65ce7cd277e320cf5bfbf26847c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:02 +0000
Subject: [PATCH 070/111] fix: respect the allocation limit for ID3v2 frames
 that are read from the stream directly

---
 lofty/src/id3/v2/frame/read.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/read.rs b/lofty/src/id3/v2/frame/read.rs
index b67671a..a280f31 100644
--- a/lofty/src/id3/v2/frame/read.rs
+++ b/lofty/src/id3/v2/frame/read.rs
@@ -8,6 +8,7 @@ use crate::id3::v2::tag::ATTACHED_PICTURE_ID;
 use crate::id3::v2::util::synchsafe::{SynchsafeInteger, UnsynchronizedStream};
 use crate::id3::v2::{BinaryFrame, FrameFlags, FrameHeader, FrameId, Id3v2TagFlags};
 use crate::macros::try_vec;
+use crate::util::alloc::AllocationError;
 
 use std::borrow::Cow;
 use std::io::Read;
@@ -106,6 +107,11 @@ impl ParsedFrame<'static> {
 			flags.data_length_indicator = Some(size);
 		}
 
+		// No item may exceed the limit, whether it is allocated at once or not
+		if size as usize > unsafe { crate::config::global_options() }.allocation_limit {
+			return Err(AllocationError::LimitExceeded.into());
+		}
+
 		// Restrict the reader to the frame content
 		let mut content = reader.take(u64::from(size));
 		let frame = read_content(&mut content, size, id, flags, version, parse_options)?;
@@ -311,7 +317,7 @@ impl<R: Read> Read for LimitedZlibDecoder<R> {
 		self.remaining = self.remaining.checked_sub(read).ok_or_else(|| {
 			std::io::Error::new(
 				std::io::ErrorKind::InvalidInput,
-				crate::util::alloc::AllocationError::LimitExceeded,
+				AllocationError::LimitExceeded,
 			)
 		})?;
 
-- 
2.43.0


From 06ef82a7b7dd99c3a203bf05ba08596a15153e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 071/111] fix: write the work title of a generic tag to ID3v2
 as a user text frame

It has no frame of its own, and the frame 'WORK' that was made for it
is refused by the writer, so that the tag could not be saved.
---
 lofty/src/id3/v2/tag/conversion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 5100472..398ea28 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -135,7 +135,6 @@ pub(crate) fn from_tag<'a>(
 			| ItemKey::InternetRadioStationName
 			| ItemKey::InternetRadioStationOwner
 			| ItemKey::Remixer
-			| ItemKey::Work
 			| ItemKey::Movement
 			| ItemKey::FileOwner
 			| ItemKey::CopyrightMessage
@@ -157,6 +156,7 @@ pub(crate) fn from_tag<'a>(
 			ItemKey::TrackArtists
 			| ItemKey::AlbumArtists
 			| ItemKey::Director
+			| ItemKey::Work
 			| ItemKey::AcoustId
 			| ItemKey::AcoustIdFingerprint
 			| ItemKey::CatalogNumber
-- 
2.43.0


From 4bc77236052ad408f0e888c2540c50052dc352e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 072/111] fix: write all items of a generic tag that have a
 TXXX description to ID3v2

The MusicBrainz release, release group and track IDs, and the color were
dropped.
---
 lofty/src/id3/v2/tag/conversion.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 398ea28..6881ee2 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -329,9 +329,8 @@ pub(crate) fn from_tag<'a>(
 
 			// Anything else
 			_ => {
-				if let Some(mapped) = item_key.map_key(TagType::Id3v2)
-					&& mapped.len() == 4
-				{
+				let mapped = item_key.map_key(TagType::Id3v2)?;
+				if mapped.len() == 4 {
 					let id = FrameId::new(mapped).ok()?;
 
 					if id.as_str().starts_with('T') {
@@ -343,8 +342,18 @@ pub(crate) fn from_tag<'a>(
 						let (value, _) = take_item_text_and_description(item)?;
 						return Some(new_url_frame(id, value));
 					}
+
+					return None;
 				}
 
+				// All other keys are the descriptions of TXXX frames
+				let (value, _) = take_item_text_and_description(item)?;
+				ctx.txxx_frames
+					.entry(mapped)
+					.and_modify(|current| extend_text(current, &value))
+					.or_insert(value);
+
+				// Collected at the end
 				None
 			},
 		}
-- 
2.43.0


From f4474abebbb81bebdd4e4025ea93b16352b980c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 073/111] fix: write the movement number and total of a generic
 tag to ID3v2

They are read from MVIN frames, and were dropped when converted back.
---
 lofty/src/id3/v2/tag/conversion.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 6881ee2..112afc8 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -284,6 +284,14 @@ pub(crate) fn from_tag<'a>(
 				ctx.disc_total = parse_number(&item);
 				None
 			},
+			ItemKey::MovementNumber => {
+				ctx.movement_number = parse_number(&item);
+				None
+			},
+			ItemKey::MovementTotal => {
+				ctx.movement_total = parse_number(&item);
+				None
+			},
 
 			ItemKey::MusicBrainzRecordingId => {
 				let (recording_id, _) = take_item_text_and_description(item)?;
@@ -380,6 +388,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: Option<u32>,
 		disc_number: Option<u32>,
 		disc_total: Option<u32>,
+		movement_number: Option<u32>,
+		movement_total: Option<u32>,
 	}
 
 	// The frames need to be unique, while being written in a predictable order
@@ -416,6 +426,8 @@ pub(crate) fn from_tag<'a>(
 		track_total: None,
 		disc_number: None,
 		disc_total: None,
+		movement_number: None,
+		movement_total: None,
 	};
 
 	let mut frames = UniqueFrames {
@@ -472,6 +484,14 @@ pub(crate) fn from_tag<'a>(
 		frames.insert(disc_frame);
 	}
 
+	if let Some(movement_frame) = new_number_pair_frame(
+		FrameId::Valid(Cow::Borrowed("MVIN")),
+		ctx.movement_number,
+		ctx.movement_total,
+	) {
+		frames.insert(movement_frame);
+	}
+
 	frames.frames
 }
 
-- 
2.43.0


From 0455701b79ed3bf0362141815bcf668f3232a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 074/111] fix: read the movement total of an APE tag as such

It was taken for the movement number.
---
 lofty/src/ape/tag/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lofty/src/ape/tag/mod.rs b/lofty/src/ape/tag/mod.rs
index 824823e..c6393f6 100644
--- a/lofty/src/ape/tag/mod.rs
+++ b/lofty/src/ape/tag/mod.rs
@@ -555,7 +555,8 @@ impl SplitTag for ApeTag {
 					*item = ApeItem::EMPTY;
 					false // Item consumed
 				},
-				(ItemKey::MovementNumber | ItemKey::MovementTotal, ItemValue::Text(val))
+				// Unlike the others, the total has a key of its own
+				(ItemKey::MovementNumber, ItemValue::Text(val))
 					if split_pair(
 						val,
 						&mut tag,
-- 
2.43.0


From 007e318dac288853f6a0d20828b9bcb941e520a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:07 +0000
Subject: [PATCH 075/111] fix: keep the MusicBrainz recording ID when remapping
 a tag to ID3v2

It is written to a UFID frame, but could neither be inserted into an
ID3v2 tag, nor be kept when another tag was turned into one.
---
 lofty/src/tag/item.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lofty/src/tag/item.rs b/lofty/src/tag/item.rs
index dbedb30..9d59747 100644
--- a/lofty/src/tag/item.rs
+++ b/lofty/src/tag/item.rs
@@ -1160,6 +1160,11 @@ impl TagItem {
 			return VALID_ITEMKEYS.contains(&self.item_key);
 		}
 
+		// Stored in a UFID frame, which no key is mapped to
+		if tag_type == TagType::Id3v2 && self.item_key == ItemKey::MusicBrainzRecordingId {
+			return true;
+		}
+
 		self.item_key.map_key(tag_type).is_some()
 	}
 }
-- 
2.43.0


From 587644aec3a796a3e4aa6c85528d7c3c21163760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:30 +0000
Subject: [PATCH 076/111] fix: allow the podcast flag of a generic tag to be
 written to ID3v2

The text frame made for it was refused by the writer, so that the tag
could not be saved.
---
 lofty/src/id3/v2/frame/content.rs | 11 +++++++++++
 lofty/src/id3/v2/write/frame.rs   |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/frame/content.rs b/lofty/src/id3/v2/frame/content.rs
index 9361854..b454462 100644
--- a/lofty/src/id3/v2/frame/content.rs
+++ b/lofty/src/id3/v2/frame/content.rs
@@ -67,6 +67,17 @@ pub(super) fn parse_content<R: Read>(
 		"GRP1" | "MVNM" | "MVIN" => TextInformationFrame::parse(reader, id, flags, version)
 			.transpose()?
 			.map(Frame::Text),
+		// PCST (Podcast flag), which is either a 4 byte integer or a text
+		"PCST" => BinaryFrame::parse(reader, id.clone(), flags).map(|frame| {
+			if frame.data.len() != 4
+				&& let Ok(Some(text)) =
+					TextInformationFrame::parse(&mut &frame.data[..], id, flags, version)
+			{
+				return Frame::Text(text);
+			}
+
+			Frame::Binary(frame)
+		}),
 		i if i.starts_with('W') => UrlLinkFrame::parse(reader, id, flags)
 			.transpose()?
 			.map(Frame::Url),
diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 5f541c0..9682f40 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -274,7 +274,7 @@ fn verify_frame(frame: &Frame<'_>) -> Result<(), FrameEncodingError> {
 		| ("UFID", Frame::UniqueFileIdentifier(_))
 		| ("POPM", Frame::Popularimeter(_))
 		| ("TIPL" | "TMCL", Frame::KeyValue { .. })
-		| ("WFED" | "GRP1" | "MVNM" | "MVIN", Frame::Text { .. })
+		| ("WFED" | "GRP1" | "MVNM" | "MVIN" | "PCST", Frame::Text { .. })
 		| ("TDEN" | "TDOR" | "TDRC" | "TDRL" | "TDTG", Frame::Timestamp(_))
 		| ("RVA2", Frame::RelativeVolumeAdjustment(_))
 		| ("OWNE", Frame::Ownership(_))
-- 
2.43.0


From eded84d23ea5a1b441bf14c4aa45b6849efd332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 077/111] fix: Use an encoding able to represent all involved
 people lists when merging them

---
 lofty/src/id3/v2/tag.rs         | 15 ++++++++++++++-
 lofty/src/id3/v2/write/frame.rs |  9 ++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 06d0d69..292be82 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -944,17 +944,30 @@ impl MergeTag for SplitTagRemainder {
 				};
 
 				let Frame::KeyValue(KeyValueFrame {
-					key_value_pairs, ..
+					encoding: new_encoding,
+					key_value_pairs,
+					..
 				}) = frame
 				else {
 					unreachable!("Frames validated before this point");
 				};
 
 				if let Frame::KeyValue(KeyValueFrame {
+					encoding,
 					key_value_pairs: existing,
 					..
 				}) = &mut tipl_frame
 				{
+					// The existing encoding can only be retained if it is able to
+					// represent the new values
+					if *encoding == TextEncoding::Latin1
+						&& !key_value_pairs
+							.iter()
+							.all(|(_, value)| TextEncoding::verify_latin1(value))
+					{
+						*encoding = new_encoding;
+					}
+
 					existing.to_mut().extend(key_value_pairs.into_owned());
 				}
 
diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index 9682f40..f5e280a 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -5,6 +5,7 @@ use crate::id3::v2::tag::GenresIter;
 use crate::id3::v2::util::synchsafe::SynchsafeInteger;
 use crate::id3::v2::{Frame, FrameId, Id3v2Version, KeyValueFrame, TextInformationFrame};
 use crate::tag::items::Timestamp;
+use crate::util::text::TextEncoding;
 
 use std::borrow::Cow;
 use std::io::Write;
@@ -204,10 +205,16 @@ where
 					continue;
 				};
 
-				let ipls_frame;
+				let ipls_frame: &mut TextInformationFrame<'_>;
 				match ipls {
 					Some(ref mut frame) => {
 						ipls_frame = frame;
+
+						// The frames share a single encoding once merged, which has to be
+						// able to represent both
+						if ipls_frame.encoding == TextEncoding::Latin1 {
+							ipls_frame.encoding = encoding.to_id3v23();
+						}
 					},
 					None => {
 						ipls = Some(TextInformationFrame::new(
-- 
2.43.0


From d14febd0d3acb022aee287ca220f54706de4873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:24 +0000
Subject: [PATCH 078/111] fix: allow involved people to be set on and remapped
 to an ID3v2 tag

The roles are written to a TIPL frame, but the keys were treated as
unsupported by Tag::push(), Tag::insert() and Tag::re_map().
---
 lofty/src/tag/item.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lofty/src/tag/item.rs b/lofty/src/tag/item.rs
index 9d59747..e012322 100644
--- a/lofty/src/tag/item.rs
+++ b/lofty/src/tag/item.rs
@@ -1160,9 +1160,15 @@ impl TagItem {
 			return VALID_ITEMKEYS.contains(&self.item_key);
 		}
 
-		// Stored in a UFID frame, which no key is mapped to
-		if tag_type == TagType::Id3v2 && self.item_key == ItemKey::MusicBrainzRecordingId {
-			return true;
+		if tag_type == TagType::Id3v2 {
+			use crate::id3::v2::util::mappings::TIPL_MAPPINGS;
+
+			// Stored in UFID and TIPL frames, which no keys are mapped to
+			if self.item_key == ItemKey::MusicBrainzRecordingId
+				|| TIPL_MAPPINGS.iter().any(|(key, _)| *key == self.item_key)
+			{
+				return true;
+			}
 		}
 
 		self.item_key.map_key(tag_type).is_some()
-- 
2.43.0


From fcc9a4d8721565534f2e62dfc6f9fc01aa28d22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 079/111] fix: skip ADTS frames that are shorter than their
 header

A frame with a length of zero was found again and again.
---
 lofty/src/aac/read.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lofty/src/aac/read.rs b/lofty/src/aac/read.rs
index 999908f..7c959b6 100644
--- a/lofty/src/aac/read.rs
+++ b/lofty/src/aac/read.rs
@@ -206,6 +206,12 @@ where
 		if let Some(first_header) = first_header {
 			let header_len = if first_header.has_crc { 9 } else { 7 };
 
+			// The length includes the header, a frame that ends before it would be found again
+			if u32::from(first_header.len) < header_len {
+				pos = reader.stream_position()?;
+				continue;
+			}
+
 			match cmp_header(
 				reader,
 				header_len,
-- 
2.43.0


From f6d890bab46b4199a7d5fdec8953dffc3937cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:13 +0000
Subject: [PATCH 080/111] fix: read the channel information of WavPack files

---
 lofty/src/wavpack/properties.rs | 106 +++++++++++++++++---------------
 1 file changed, 55 insertions(+), 51 deletions(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index ab6e742..e3b1222 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -145,19 +145,36 @@ where
 		let sample_rate_idx = ((flags >> 23) & 0xF) as usize;
 		properties.sample_rate = SAMPLE_RATES[sample_rate_idx];
 
+		let is_initial_block = flags & FLAG_INITIAL_BLOCK == FLAG_INITIAL_BLOCK;
+		let is_final_block = flags & FLAG_FINAL_BLOCK == FLAG_FINAL_BLOCK;
+
+		// https://web.archive.org/web/20150424062034/https://www.wavpack.com/file_format.txt:
+		//
+		// A flag in the header indicates whether the block is the first or the last in the
+		// sequence (for simple mono or stereo files both of these would always be set).
+		if is_initial_block && is_final_block {
+			let is_mono = flags & FLAG_MONO > 0;
+			properties.channels = if is_mono { 1 } else { 2 };
+			properties.channel_mask = if is_mono { ChannelMask::mono() } else { ChannelMask::stereo() };
+		}
+
 		// In the case of non-standard sample rates and DSD audio, we need to actually read the
-		// block to get the sample rate
-		if sample_rate_idx == 15 || flags & FLAG_DSD == FLAG_DSD {
+		// block to get the sample rate. The channels of anything other than simple mono or stereo
+		// files are only described in the initial block.
+		let needs_metadata = sample_rate_idx == 15
+			|| flags & FLAG_DSD == FLAG_DSD
+			|| (is_initial_block && !is_final_block);
+		if needs_metadata || is_initial_block {
 			let mut block_contents = try_vec![0; (block_header.block_size - 24) as usize]?;
-			reader.read_exact(&mut block_contents)?;
-
-			if let Err(e) = get_extended_meta_info(parse_mode, &block_contents, &mut properties)
-			{
-				if parse_mode == ParsingMode::Strict {
-					return Err(e);
-				}
-
-				break
+			let read_result = reader.read_exact(&mut block_contents).map_err(WavPackParseError::from);
+			let meta_result = read_result.and_then(|()| {
+				get_extended_meta_info(parse_mode, &block_contents, &mut properties)
+			});
+
+			match meta_result {
+				Err(e) if parse_mode == ParsingMode::Strict || is_io_failure(&e) => return Err(e),
+				Err(_) if needs_metadata => break,
+				_ => {},
 			}
 
 			// A sample rate index of 15 indicates a custom sample rate, which should have been found
@@ -171,7 +188,7 @@ where
 			}
 		}
 
-		if flags & FLAG_INITIAL_BLOCK == FLAG_INITIAL_BLOCK {
+		if is_initial_block {
 			if block_header.version < MIN_STREAM_VERSION
 				|| block_header.version > MAX_STREAM_VERSION
 			{
@@ -187,19 +204,6 @@ where
 
 			properties.version = block_header.version;
 			properties.lossless = flags & FLAG_HYBRID_COMPRESSION == 0;
-
-
-			// https://web.archive.org/web/20150424062034/https://www.wavpack.com/file_format.txt:
-			//
-			// A flag in the header indicates whether the block is the first or the last in the
-			// sequence (for simple mono or stereo files both of these would always be set).
-			//
-			// We already checked if `FLAG_INITIAL_BLOCK` is set
-			if flags & FLAG_FINAL_BLOCK > 0 {
-				let is_mono = flags & FLAG_MONO > 0;
-				properties.channels = if is_mono { 1 } else { 2 };
-				properties.channel_mask = if is_mono { ChannelMask::mono() } else { ChannelMask::stereo() };
-			}
 		}
 
 		// Just skip any block with no samples
@@ -208,7 +212,7 @@ where
 			continue;
 		}
 
-		if flags & FLAG_FINAL_BLOCK == FLAG_FINAL_BLOCK {
+		if is_final_block {
 			break;
 		}
 
@@ -365,55 +369,55 @@ fn get_extended_meta_info(
 				properties.sample_rate = properties.sample_rate.wrapping_mul(rate_multiplier);
 			},
 			ID_MULTICHANNEL => {
-				if size <= 1 {
-					return Err(WavPackParseError::message(
-						"unable to extract channel information",
-					));
-				}
-
 				properties.channels = u16::from(reader.read_u8()?);
 
-				// size - (id length + channel length)
-				let s = size - 2;
-				match s {
-					0 => {
+				// size - channel length
+				size -= 1;
+				match size {
+					1 => {
 						let channel_mask = reader.read_u8()?;
 						size -= 1;
 						properties.channel_mask = ChannelMask(u32::from(channel_mask));
 					},
-					1 => {
+					2 => {
 						let channel_mask = reader.read_u16::<LittleEndian>()?;
 						size -= 2;
 						properties.channel_mask = ChannelMask(u32::from(channel_mask));
 					},
-					2 => {
+					3 => {
 						let channel_mask = reader.read_u24::<LittleEndian>()?;
 						size -= 3;
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
-					3 => {
-						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 4;
-						properties.channel_mask = ChannelMask(channel_mask);
-					},
 					4 => {
-						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
-						properties.channels += 1;
-
-						let channel_mask = reader.read_u24::<LittleEndian>()?;
+						let channel_mask = reader.read_u32::<LittleEndian>()?;
 						size -= 4;
-
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
-					5 => {
+					// The channel count no longer fits in a single byte:
+					//
+					// Lower 8 bits of (channels - 1) (1, already read)
+					// Lower 8 bits of (streams - 1) (1)
+					// Upper 4 bits of both, with the streams in the upper nibble (1)
+					// Channel mask (3 or 4)
+					5 | 6 => {
+						let _streams = reader.read_u8()?;
 						properties.channels |= u16::from(reader.read_u8()? & 0xF) << 8;
 						properties.channels += 1;
+						size -= 2;
 
-						let channel_mask = reader.read_u32::<LittleEndian>()?;
-						size -= 5;
+						let channel_mask;
+						if size == 3 {
+							channel_mask = reader.read_u24::<LittleEndian>()?;
+						} else {
+							channel_mask = reader.read_u32::<LittleEndian>()?;
+						}
+						size = 0;
 
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
+					// No channel mask
+					0 => {},
 					_ => {
 						return Err(WavPackParseError::message(
 							"encountered invalid channel info size",
-- 
2.43.0


From 257f99c86c9293634d9dedb124c3921f42ea62ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 081/111] fix: derive the channel count from the MPEG-4 channel
 configuration

---
 lofty/src/aac/properties.rs | 10 +++++-----
 lofty/src/mp4/mod.rs        |  2 +-
 lofty/src/mp4/properties.rs | 12 +++++++++++-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/lofty/src/aac/properties.rs b/lofty/src/aac/properties.rs
index 40c0b6e..e535a3d 100644
--- a/lofty/src/aac/properties.rs
+++ b/lofty/src/aac/properties.rs
@@ -1,5 +1,5 @@
 use crate::aac::header::ADTSHeader;
-use crate::mp4::AudioObjectType;
+use crate::mp4::{AudioObjectType, channels_from_configuration};
 use crate::mpeg::header::MpegVersion;
 use crate::properties::{ChannelMask, FileProperties};
 
@@ -106,14 +106,14 @@ pub(super) fn read_properties(
 	properties.version = first_frame.version;
 	properties.audio_object_type = first_frame.audio_object_ty;
 	properties.sample_rate = first_frame.sample_rate;
-	properties.channels = first_frame.channels;
+	properties.channels = channels_from_configuration(first_frame.channels);
 
-	match ChannelMask::from_mp4_channels(properties.channels) {
+	match ChannelMask::from_mp4_channels(first_frame.channels) {
 		Some(mask) => properties.channel_mask = Some(mask),
 		None => {
 			log::warn!(
-				"Unable to create channel mask, invalid channel count: {}",
-				properties.channels
+				"Unable to create channel mask, invalid channel configuration: {}",
+				first_frame.channels
 			);
 		},
 	}
diff --git a/lofty/src/mp4/mod.rs b/lofty/src/mp4/mod.rs
index 2e41681..f3cd707 100644
--- a/lofty/src/mp4/mod.rs
+++ b/lofty/src/mp4/mod.rs
@@ -29,7 +29,7 @@ pub use ilst::advisory_rating::AdvisoryRating;
 pub use ilst::atom::{Atom, AtomData};
 pub use ilst::data_type::DataType;
 
-pub(crate) use properties::SAMPLE_RATES;
+pub(crate) use properties::{SAMPLE_RATES, channels_from_configuration};
 
 /// An MP4 file
 #[derive(LoftyFile)]
diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index babc895..492e05e 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -776,6 +776,16 @@ pub(crate) const SAMPLE_RATES: [u32; 15] = [
 	96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350, 0, 0,
 ];
 
+// https://wiki.multimedia.cx/index.php?title=MPEG-4_Audio#Channel_Configurations
+pub(crate) fn channels_from_configuration(channel_configuration: u8) -> u8 {
+	match channel_configuration {
+		7 | 12 | 14 => 8,
+		11 => 7,
+		13 => 24,
+		_ => channel_configuration,
+	}
+}
+
 fn mp4a_properties<R>(
 	stsd: &mut AtomReader<R>,
 	properties: &mut Mp4Properties,
@@ -904,7 +914,7 @@ where
 				// The channel configuration isn't always set, at least when testing with
 				// the Audio Lossless Coding reference software
 				if channel_conf > 0 {
-					properties.channels = Some(channel_conf);
+					properties.channels = Some(channels_from_configuration(channel_conf));
 				}
 
 				// We just check for ALS here, might extend it for more codes eventually
-- 
2.43.0


From 1c2cd1267157cf514662e74ef9134c5bb77b46a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 082/111] fix: read the fields of MP4 audio specific configs at
 their bit positions

---
 lofty/src/mp4/properties.rs | 85 ++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 35 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 492e05e..19a2945 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -856,56 +856,36 @@ where
 				// if (frequency index == 15)
 				//     24 bits: frequency
 				// 4 bits: channel configuration
-				let byte_a = stsd.read_u8()?;
-				let byte_b = stsd.read_u8()?;
+				let mut config = AudioSpecificConfigReader::new(stsd);
 
-				let mut object_type = byte_a >> 3;
-				let mut frequency_index = ((byte_a & 0x07) << 1) | (byte_b >> 7);
-				let mut channel_conf = (byte_b >> 3) & 0x0F;
-
-				let mut extended_object_type = false;
+				let mut object_type = config.read_bits(5)? as u8;
 				if object_type == 31 {
-					extended_object_type = true;
+					object_type = 32 + config.read_bits(6)? as u8;
+				}
 
-					object_type = 32 + ((byte_a & 7) | (byte_b >> 5));
-					frequency_index = (byte_b >> 1) & 0x0F;
+				let frequency_index = config.read_bits(4)? as u8;
+				let mut explicit_sample_rate = 0;
+				if frequency_index == 0x0F {
+					explicit_sample_rate = config.read_bits(24)?;
 				}
 
+				let channel_conf = config.read_bits(4)? as u8;
+
 				properties.extended_audio_object_type = Some(
 					AudioObjectType::try_from(object_type)
 						.map_err(|_| AtomParseError::message(None, "invalid audio object type"))?,
 				);
 
 				match frequency_index {
-					// 15 means the sample rate is stored in the next 24 bits
+					// 15 means the sample rate is stored explicitly
 					0x0F => {
-						let sample_rate;
-						let explicit_sample_rate = stsd.read_u24()?;
-						if extended_object_type {
-							sample_rate = explicit_sample_rate >> 1;
-							channel_conf = ((explicit_sample_rate >> 4) & 0x0F) as u8;
-						} else {
-							sample_rate = explicit_sample_rate << 1;
-							let byte_c = stsd.read_u8()?;
-
-							channel_conf =
-								((explicit_sample_rate & 0x80) as u8 | (byte_c >> 1)) & 0x0F;
-						}
-
 						// Just use the sample rate we already read above if this is invalid
-						if sample_rate > 0 {
-							properties.sample_rate = Some(sample_rate);
+						if explicit_sample_rate > 0 {
+							properties.sample_rate = Some(explicit_sample_rate);
 						}
 					},
 					i if i < SAMPLE_RATES.len() as u8 => {
 						properties.sample_rate = Some(SAMPLE_RATES[i as usize]);
-
-						if extended_object_type {
-							let byte_c = stsd.read_u8()?;
-							channel_conf = (byte_b & 1) | (byte_c & 0xE0);
-						} else {
-							channel_conf = (byte_b >> 3) & 0x0F;
-						}
 					},
 					// Keep the sample rate we read above
 					_ => {},
@@ -919,10 +899,13 @@ where
 
 				// We just check for ALS here, might extend it for more codes eventually
 				if object_type == 36 {
-					let mut ident = [0; 5];
+					// The ALS config starts at the next byte boundary, following 5 fill bits
+					config.read_bits(5)?;
+
+					let mut ident = [0; 4];
 					stsd.read_exact(&mut ident)?;
 
-					if &ident == b"\0ALS\0" {
+					if &ident == b"ALS\0" {
 						properties.sample_rate = Some(stsd.read_u32()?);
 
 						// Sample count
@@ -1058,6 +1041,38 @@ where
 	))
 }
 
+/// The fields of an `AudioSpecificConfig` aren't byte aligned
+struct AudioSpecificConfigReader<'a, R> {
+	reader: &'a mut R,
+	byte: u8,
+	bits_left: u8,
+}
+
+impl<'a, R: Read> AudioSpecificConfigReader<'a, R> {
+	fn new(reader: &'a mut R) -> Self {
+		Self {
+			reader,
+			byte: 0,
+			bits_left: 0,
+		}
+	}
+
+	fn read_bits(&mut self, count: u8) -> Result<u32, AtomParseError> {
+		let mut value = 0;
+		for _ in 0..count {
+			if self.bits_left == 0 {
+				self.byte = self.reader.read_u8()?;
+				self.bits_left = 8;
+			}
+
+			self.bits_left -= 1;
+			value = (value << 1) | u32::from((self.byte >> self.bits_left) & 1);
+		}
+
+		Ok(value)
+	}
+}
+
 struct Descriptor {
 	tag: u8,
 	_size: u32,
-- 
2.43.0


From 550933a9127c94342254c03646539b798d9996fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 083/111] fix: skip unsupported MP4 sample entries in full

---
 lofty/src/mp4/properties.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 19a2945..ae0e0c2 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -585,6 +585,8 @@ where
 				return Err(AtomParseError::message(None, "unexpected freeform atom"));
 			};
 
+			let entry_end = atom.start.saturating_add(atom.len);
+
 			// Skipping 8 bytes
 			// Reserved (6)
 			// Data reference index (2)
@@ -612,14 +614,13 @@ where
 			// 16.16 fixed point number
 			properties.sample_rate = Some(reader.read_u32()? >> 16);
 
-			let mut offset = reader.stream_position()?;
 			if stsd_version == 1 {
 				// Skipping 16 bytes
 				// Samples per packet (4)
 				// Bytes per packet (4)
 				// Bytes per frame (4)
 				// Bytes per sample (4)
-				offset = reader.seek(SeekFrom::Current(16))?;
+				reader.seek(SeekFrom::Current(16))?;
 			} else if stsd_version == 2 {
 				let extension_struct_size = reader.read_u32()?;
 
@@ -632,7 +633,7 @@ where
 				// Bytes per audio packet (4)
 				// LPCM frames per audio packet (4)
 				// Struct size (variable)
-				offset = reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
+				reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
 			}
 
 			match descriptor_format {
@@ -649,8 +650,7 @@ where
 				// Special case to detect encrypted files
 				b"drms" => {
 					properties.drm_protected = true;
-					skip_atom(reader, false, offset - atom.start)
-						.map_err(|e| e.with_ident(atom.ident))?;
+					reader.seek(SeekFrom::Start(entry_end))?;
 					continue;
 				},
 				_ => {
@@ -658,7 +658,7 @@ where
 						"Found unsupported sample entry: {:?}",
 						descriptor_format.escape_ascii().to_string()
 					);
-					skip_atom(reader, false, offset - atom.start)?;
+					reader.seek(SeekFrom::Start(entry_end))?;
 					continue;
 				},
 			}
-- 
2.43.0


From 2583ce9dc2cd61b27418f5b3caf270626cc1ff6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 084/111] fix: read version 2 MP4 sample entries

---
 lofty/src/mp4/properties.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index ae0e0c2..1ab2f7b 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -555,6 +555,9 @@ where
 	const MIN_SUPPORTED_ENTRY_VERSION: u16 = 0;
 	const MAX_SUPPORTED_ENTRY_VERSION: u16 = 2;
 
+	// The size of a version 2 sample description, up to (and including) the LPCM frame count
+	const STSD_V2_STRUCT_SIZE: u32 = 72;
+
 	fn read_inner<R>(
 		reader: &mut AtomReader<R>,
 		properties: &mut Mp4Properties,
@@ -622,18 +625,24 @@ where
 				// Bytes per sample (4)
 				reader.seek(SeekFrom::Current(16))?;
 			} else if stsd_version == 2 {
-				let extension_struct_size = reader.read_u32()?;
+				// The size of the entire sample description, excluding any extensions
+				let struct_size = reader.read_u32()?;
+
+				// The fields above only have placeholder values in this version
+				let sample_rate = f64::from_bits(reader.read_u64()?);
+				properties.sample_rate = Some(sample_rate as u32);
+				properties.channels = Some(reader.read_u32()? as u8);
 
-				// Skipping (at least) 32 bytes
-				// Sample rate 64 (8)
-				// Channel count (4)
+				// Skipping (at least) 20 bytes
 				// Reserved (4)
 				// Bits per channel (4)
 				// Format specific flags (4)
 				// Bytes per audio packet (4)
 				// LPCM frames per audio packet (4)
-				// Struct size (variable)
-				reader.seek(SeekFrom::Current(32 + i64::from(extension_struct_size)))?;
+				// Future fields (variable)
+				reader.seek(SeekFrom::Current(
+					20 + i64::from(struct_size.saturating_sub(STSD_V2_STRUCT_SIZE)),
+				))?;
 			}
 
 			match descriptor_format {
-- 
2.43.0


From ef6a3e15853f6c9e55dbbb86dbc3cb63cfdf60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 085/111] fix: don't underflow on `dfLa` atoms that are too
 short

---
 lofty/src/mp4/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 1ab2f7b..4e9875b 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -1011,7 +1011,7 @@ where
 	// Flags (3)
 	stsd.seek(SeekFrom::Current(4))?;
 
-	if dfla.len - 12 < 18 {
+	if dfla.len < 12 + 18 {
 		// The atom isn't long enough to hold a STREAMINFO block, also not worth an error.
 		return Ok(());
 	}
-- 
2.43.0


From fd16d4b3cba8f9ac72951968ccad9a9ac4955bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 086/111] fix: find VBRI headers of mono and MPEG-2 files

---
 lofty/src/mpeg/read.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lofty/src/mpeg/read.rs b/lofty/src/mpeg/read.rs
index dd706b9..31bd2a5 100644
--- a/lofty/src/mpeg/read.rs
+++ b/lofty/src/mpeg/read.rs
@@ -15,6 +15,9 @@ use std::io::{Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, ReadBytesExt};
 
+// VBRI headers always start 32 bytes after the first frame's header
+const VBRI_HEADER_OFFSET: u64 = 4 + 32;
+
 pub(super) fn read_from<R>(
 	reader: &mut R,
 	parse_options: ParseOptions,
@@ -219,7 +222,18 @@ where
 		let mut xing_reader = [0; 32];
 		reader.read_exact(&mut xing_reader)?;
 
-		let xing_header = VbrHeader::read(&mut &xing_reader[..])?;
+		let mut xing_header = VbrHeader::read(&mut &xing_reader[..])?;
+		if xing_header.is_none() {
+			// Unlike Xing, the position of a VBRI header doesn't depend on the side information
+			reader.seek(SeekFrom::Start(first_frame_offset + VBRI_HEADER_OFFSET))?;
+			match reader.read_exact(&mut xing_reader) {
+				Ok(()) if xing_reader.starts_with(b"VBRI") => {
+					xing_header = VbrHeader::read(&mut &xing_reader[..])?;
+				},
+				Err(e) if is_io_failure(&e) => return Err(e.into()),
+				_ => {},
+			}
+		}
 
 		let file_length = reader.stream_len_hack()?;
 
-- 
2.43.0


From c541581694d147984b6c14b1b9f5284599636cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 087/111] fix: calculate the length of MPEG Layer I frames in
 slots

---
 lofty/src/mpeg/header.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lofty/src/mpeg/header.rs b/lofty/src/mpeg/header.rs
index 3235738..37abac9 100644
--- a/lofty/src/mpeg/header.rs
+++ b/lofty/src/mpeg/header.rs
@@ -311,8 +311,11 @@ impl Header {
 
 		header.data_start = SIDE_INFORMATION_SIZES[version_index][header.channel_mode as usize] + 4;
 		header.samples = SAMPLES[layer_index][version_index];
-		header.len =
-			(u32::from(header.samples) * header.bitrate * 125 / header.sample_rate) + padding;
+		header.len = match header.layer {
+			// Layer I frames consist of 4 byte slots
+			Layer::Layer1 => (12 * header.bitrate * 1000 / header.sample_rate) * 4 + padding,
+			_ => (u32::from(header.samples) * header.bitrate * 125 / header.sample_rate) + padding,
+		};
 
 		Some(header)
 	}
-- 
2.43.0


From a35b81750f9f56d6af8004b2d9764f0216466d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:53 +0000
Subject: [PATCH 088/111] fix: count all frames of APE files with a final frame
 of one block

---
 lofty/src/ape/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/ape/properties.rs b/lofty/src/ape/properties.rs
index 4435848..f0382a5 100644
--- a/lofty/src/ape/properties.rs
+++ b/lofty/src/ape/properties.rs
@@ -252,7 +252,7 @@ fn get_duration_bitrate(
 ) {
 	let mut total_samples = u64::from(final_frame_blocks);
 
-	if total_samples > 1 {
+	if total_frames > 1 {
 		total_samples += u64::from(blocks_per_frame) * u64::from(total_frames - 1)
 	}
 
-- 
2.43.0


From ceba74e0f83129041bb2c4bb46f0c9dc856ef371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:15 +0000
Subject: [PATCH 089/111] fix: read the properties of ALAC streams with any
 other atoms in `stsd`

---
 lofty/src/mp4/properties.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lofty/src/mp4/properties.rs b/lofty/src/mp4/properties.rs
index 4e9875b..97753db 100644
--- a/lofty/src/mp4/properties.rs
+++ b/lofty/src/mp4/properties.rs
@@ -940,10 +940,8 @@ fn alac_properties<R>(
 where
 	R: Read + Seek,
 {
-	// With ALAC, we can expect the length to be exactly 88 (80 here since we removed the size and identifier)
-	if stsd.len() != 80 {
-		return Ok(());
-	}
+	// Header (8) + version and flags (4) + ALAC specific config (24)
+	const MIN_ALAC_ATOM_LEN: u64 = 36;
 
 	// Unlike the "mp4a" atom, we cannot read the data that immediately follows it
 	// For ALAC, we have to skip the first "alac" atom entirely, and read the one that
@@ -952,7 +950,7 @@ where
 		return Ok(());
 	};
 
-	if alac.ident != AtomIdent::Fourcc(*b"alac") {
+	if alac.ident != AtomIdent::Fourcc(*b"alac") || alac.len < MIN_ALAC_ATOM_LEN {
 		return Ok(());
 	}
 
-- 
2.43.0


From 018c63bc56853756dfcf31d1124c6dd6394f2610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:15 +0000
Subject: [PATCH 090/111] fix: identify Ogg files with long identification
 packets

---
 lofty/src/file/file_type.rs | 10 +++++++---
 lofty/src/probe.rs          | 10 +++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index e1b95c9..f2e2f8f 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -358,11 +358,15 @@ impl FileType {
 				None
 			},
 			79 if buf.len() >= 36 && &buf[..4] == b"OggS" => {
-				if &buf[29..35] == b"vorbis" {
+				// The content of the page follows the segment table, which may have more than one
+				// entry if the identification packet is long enough
+				let content = &buf[std::cmp::min(27 + buf[26] as usize, buf.len())..];
+
+				if content.starts_with(b"\x01vorbis") {
 					return Some(Self::Vorbis);
-				} else if &buf[28..36] == b"OpusHead" {
+				} else if content.starts_with(b"OpusHead") {
 					return Some(Self::Opus);
-				} else if &buf[28..36] == b"Speex   " {
+				} else if content.starts_with(b"Speex   ") {
 					return Some(Self::Speex);
 				}
 
diff --git a/lofty/src/probe.rs b/lofty/src/probe.rs
index 15cd1b4..7a65c9e 100644
--- a/lofty/src/probe.rs
+++ b/lofty/src/probe.rs
@@ -320,12 +320,12 @@ impl<R: Read + Seek> Probe<R> {
 
 	#[allow(clippy::shadow_unrelated)]
 	fn guess_inner(&mut self, max_junk_bytes: usize) -> std::io::Result<Option<FileType>> {
-		// temporary buffer for storing 36 bytes
-		// (36 is just a guess as to how long the data for estimating the file type might be)
-		let mut buf = [0; 36];
+		// temporary buffer for storing 40 bytes
+		// (40 is just a guess as to how long the data for estimating the file type might be)
+		let mut buf = [0; 40];
 
 		let starting_position = self.inner.stream_position()?;
-		// Read (up to) 36 bytes
+		// Read (up to) 40 bytes
 		let buf_len = std::io::copy(
 			&mut self.inner.by_ref().take(buf.len() as u64),
 			&mut Cursor::new(&mut buf[..]),
@@ -345,7 +345,7 @@ impl<R: Read + Seek> Probe<R> {
 			}
 		}
 
-		// Guess the file type by using these 36 bytes
+		// Guess the file type by using these 40 bytes
 		let Some(file_type_guess) = FileType::from_buffer_inner(&buf[..buf_len]) else {
 			return Ok(None);
 		};
-- 
2.43.0


From 56697a47c96fb638e241b4a4168d5e8e3fc186e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 091/111] fix: forget the channel mask of earlier WavPack
 blocks when there is none

---
 lofty/src/wavpack/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/wavpack/properties.rs b/lofty/src/wavpack/properties.rs
index e3b1222..bf6231a 100644
--- a/lofty/src/wavpack/properties.rs
+++ b/lofty/src/wavpack/properties.rs
@@ -417,7 +417,7 @@ fn get_extended_meta_info(
 						properties.channel_mask = ChannelMask(channel_mask);
 					},
 					// No channel mask
-					0 => {},
+					0 => properties.channel_mask = ChannelMask(0),
 					_ => {
 						return Err(WavPackParseError::message(
 							"encountered invalid channel info size",
-- 
2.43.0


From 0517126840510681d8a75631e61224920b9d4066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:51 +0000
Subject: [PATCH 092/111] fix: find the last MPEG frame when its header crosses
 a search window

---
 lofty/src/mpeg/properties.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lofty/src/mpeg/properties.rs b/lofty/src/mpeg/properties.rs
index 4e8ceb8..17dcb81 100644
--- a/lofty/src/mpeg/properties.rs
+++ b/lofty/src/mpeg/properties.rs
@@ -131,6 +131,8 @@ pub(super) fn read_properties<R>(
 where
 	R: Read + Seek,
 {
+	const FRAME_HEADER_SIZE: u64 = 4;
+
 	let first_frame_header = first_frame.0;
 	let first_frame_offset = first_frame.1;
 
@@ -205,6 +207,11 @@ where
 			// No frame sync found, continue further back in the file
 			_ => {},
 		}
+
+		// The header may overlap with the part that was already searched
+		if pos > 0 {
+			pos += FRAME_HEADER_SIZE - 1;
+		}
 	}
 
 	let Some(last_frame_header) = last_frame else {
-- 
2.43.0


From fa20e2ebb6af751401fb112b46262c2073bddc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:11 +0000
Subject: [PATCH 093/111] fix: read the flags of ID3v2 extended headers in the
 layout of their version

---
 lofty/src/id3/v2/header.rs | 39 +++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/lofty/src/id3/v2/header.rs b/lofty/src/id3/v2/header.rs
index 1f642f8..6bc5b92 100644
--- a/lofty/src/id3/v2/header.rs
+++ b/lofty/src/id3/v2/header.rs
@@ -157,13 +157,13 @@ impl Id3v2Header {
 					if flags_parsed.unsynchronisation {
 						let mut reader = UnsynchronizedHeader::new(bytes);
 						let header_size = reader.read_u32::<BigEndian>()?;
-						read_extended_header(&mut reader, &mut flags_parsed, header_size)?;
+						read_extended_header_v3(&mut reader, &mut flags_parsed, header_size)?;
 
 						// The tag size includes the bytes that were inserted for unsynchronisation
 						extended_size = reader.consumed;
 					} else {
 						extended_size = bytes.read_u32::<BigEndian>()?;
-						read_extended_header(bytes, &mut flags_parsed, extended_size)?;
+						read_extended_header_v3(bytes, &mut flags_parsed, extended_size)?;
 
 						// In ID3v2.3, the size excludes itself
 						extended_size = extended_size.saturating_add(4);
@@ -172,7 +172,7 @@ impl Id3v2Header {
 				// In ID3v2.4, they seem to be considered one big header (?) so no flags apply to it
 				Id3v2Version::V4 => {
 					extended_size = bytes.read_u32::<BigEndian>()?.unsynch();
-					read_extended_header(
+					read_extended_header_v4(
 						bytes,
 						&mut flags_parsed,
 						extended_size.saturating_sub(4),
@@ -246,11 +246,35 @@ impl<R: Read> Read for UnsynchronizedHeader<R> {
 	}
 }
 
-/// Read the extended header that follows its size
+/// Read the ID3v2.3 extended header that follows its size
 ///
 /// `header_size` is the size of the extended header, excluding the size field itself. All of it will
 /// be consumed.
-fn read_extended_header<R: Read>(
+fn read_extended_header_v3<R: Read>(
+	reader: &mut R,
+	flags: &mut Id3v2TagFlags,
+	header_size: u32,
+) -> Result<(), Id3v2ParseError> {
+	if header_size < 2 {
+		return Err(Id3v2HeaderError::BadExtendedHeaderSize.into());
+	}
+
+	let reader = &mut reader.take(u64::from(header_size));
+
+	// The presence of a CRC is the only flag, we care about neither its value nor the padding size
+	let extended_flags = reader.read_u16::<BigEndian>()?;
+	flags.crc = extended_flags & 0x8000 == 0x8000;
+
+	std::io::copy(reader, &mut std::io::sink())?;
+
+	Ok(())
+}
+
+/// Read the ID3v2.4 extended header that follows its size
+///
+/// `header_size` is the size of the extended header, excluding the size field itself. All of it will
+/// be consumed.
+fn read_extended_header_v4<R: Read>(
 	reader: &mut R,
 	flags: &mut Id3v2TagFlags,
 	header_size: u32,
@@ -268,6 +292,11 @@ fn read_extended_header<R: Read>(
 
 	// The only flags we care about here are the CRC and restrictions
 
+	// "Tag is an update" has no data, but it does have a length byte
+	if extended_flags & 0x40 == 0x40 {
+		let _data_length = reader.read_u8()?;
+	}
+
 	if extended_flags & 0x20 == 0x20 {
 		flags.crc = true;
 
-- 
2.43.0


From a385ab9d69880e33c20d3c0def70fc920cd2b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:11 +0000
Subject: [PATCH 094/111] fix: do not append a footer to ID3v2.3 tags

---
 lofty/src/id3/v2/write/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index db66790..50513dc 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -154,8 +154,8 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 		log::debug!("Using ID3v2.3");
 	}
 
-	let has_footer = tag.flags.footer;
-	// The extended header is only supported in ID3v2.4
+	// Footers and the extended header are only supported in ID3v2.4
+	let has_footer = !is_id3v23 && tag.flags.footer;
 	let needs_crc = !is_id3v23 && tag.flags.crc;
 	let has_restrictions = !is_id3v23 && tag.flags.restrictions.is_some();
 
@@ -244,6 +244,11 @@ fn create_tag_header(
 	// The frames are never written unsynchronised
 	flags.unsynchronisation = false;
 
+	// Footers were introduced in ID3v2.4
+	if is_id3v23 {
+		flags.footer = false;
+	}
+
 	let mut header = Cursor::new(Vec::new());
 
 	header.write_all(b"ID3")?;
-- 
2.43.0


From a7a73e7ce8e919d4647e8b4b5e82fc48e33c8c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:43 +0000
Subject: [PATCH 095/111] fix: read whether an APE tag is read only

---
 lofty/src/ape/tag/header.rs | 11 ++++++++++-
 lofty/src/ape/tag/read.rs   |  5 ++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/lofty/src/ape/tag/header.rs b/lofty/src/ape/tag/header.rs
index bdc1520..51205c5 100644
--- a/lofty/src/ape/tag/header.rs
+++ b/lofty/src/ape/tag/header.rs
@@ -11,8 +11,11 @@ use byteorder::{LittleEndian, ReadBytesExt};
 pub(crate) struct ApeHeader {
 	pub(crate) size: u32,
 	pub(crate) item_count: u32,
+	pub(crate) read_only: bool,
 }
 
+// Bit 0 of the flags
+const READ_ONLY_FLAG: u32 = 1;
 // Bit 31 of the flags
 const HAS_HEADER_FLAG: u32 = 1 << 31;
 
@@ -43,6 +46,8 @@ where
 
 	// Version 1 doesn't include a header, and it is optional in version 2
 	let has_header = !footer || flags & HAS_HEADER_FLAG == HAS_HEADER_FLAG;
+	// The flags were introduced in version 2
+	let read_only = version == 2000 && flags & READ_ONLY_FLAG == READ_ONLY_FLAG;
 	if version == 2000 && has_header {
 		size = size.saturating_add(32);
 	}
@@ -51,5 +56,9 @@ where
 		return Err(SizeMismatchError.into());
 	}
 
-	Ok(ApeHeader { size, item_count })
+	Ok(ApeHeader {
+		size,
+		item_count,
+		read_only,
+	})
 }
diff --git a/lofty/src/ape/tag/read.rs b/lofty/src/ape/tag/read.rs
index f60d58f..05c05b1 100644
--- a/lofty/src/ape/tag/read.rs
+++ b/lofty/src/ape/tag/read.rs
@@ -68,7 +68,10 @@ where
 		Ok(item)
 	}
 
-	let mut tag = ApeTag::default();
+	let mut tag = ApeTag {
+		read_only: header.read_only,
+		..ApeTag::default()
+	};
 	let mut remaining_size = header.size;
 
 	for _ in 0..header.item_count {
-- 
2.43.0


From b31e2c8e826043ab8c59d60feac6dbcf7bbfce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:20 +0000
Subject: [PATCH 096/111] fix: keep the custom resolvers usable after a panic
 of one of their callers

A panic while the resolvers were locked (registering a name twice, asking for an unregistered
type, or a panic in a resolver's own code) poisoned the lock. From then on FileType::from_ext()
returned None for every extension, custom files were no longer detected and looking up a
resolver panicked, in every thread. A resolver that called back into the library deadlocked.
---
 lofty/src/file/file_type.rs |  8 +++-----
 lofty/src/probe.rs          |  9 +++------
 lofty/src/resolve.rs        | 26 +++++++++++++++++++++-----
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/lofty/src/file/file_type.rs b/lofty/src/file/file_type.rs
index f2e2f8f..be93621 100644
--- a/lofty/src/file/file_type.rs
+++ b/lofty/src/file/file_type.rs
@@ -1,5 +1,5 @@
 use crate::config::global_options;
-use crate::resolve::CUSTOM_RESOLVERS;
+use crate::resolve::registered_resolvers;
 use crate::tag::{TagSupport, TagType};
 
 use std::ffi::OsStr;
@@ -189,10 +189,8 @@ impl FileType {
 
 		// Give custom resolvers priority
 		if unsafe { global_options().use_custom_resolvers }
-			&& let Some((ty, _)) = CUSTOM_RESOLVERS
-				.lock()
-				.ok()?
-				.iter()
+			&& let Some((ty, _)) = registered_resolvers()
+				.into_iter()
 				.find(|(_, f)| f.extension() == Some(ext.as_str()))
 		{
 			return Some(Self::Custom(ty));
diff --git a/lofty/src/probe.rs b/lofty/src/probe.rs
index 7a65c9e..5811715 100644
--- a/lofty/src/probe.rs
+++ b/lofty/src/probe.rs
@@ -16,7 +16,7 @@ use crate::musepack::MpcFile;
 use crate::ogg::opus::OpusFile;
 use crate::ogg::speex::SpeexFile;
 use crate::ogg::vorbis::VorbisFile;
-use crate::resolve::CUSTOM_RESOLVERS;
+use crate::resolve::registered_resolvers;
 use crate::wavpack::WavPackFile;
 
 use std::fs::File;
@@ -334,11 +334,8 @@ impl<R: Read + Seek> Probe<R> {
 		self.inner.seek(SeekFrom::Start(starting_position))?;
 
 		// Give custom resolvers priority
-		if unsafe { global_options().use_custom_resolvers }
-			&& let Ok(lock) = CUSTOM_RESOLVERS.lock()
-		{
-			#[allow(clippy::significant_drop_in_scrutinee)]
-			for resolve in lock.values() {
+		if unsafe { global_options().use_custom_resolvers } {
+			for (_, resolve) in registered_resolvers() {
 				if let ret @ Some(_) = resolve.guess(&buf[..buf_len]) {
 					return Ok(ret);
 				}
diff --git a/lofty/src/resolve.rs b/lofty/src/resolve.rs
index 9fd9981..65fe085 100644
--- a/lofty/src/resolve.rs
+++ b/lofty/src/resolve.rs
@@ -9,7 +9,7 @@ use crate::tag::{TagSupport, TagType};
 use std::collections::HashMap;
 use std::io::{Read, Seek};
 use std::marker::PhantomData;
-use std::sync::{Arc, LazyLock, Mutex};
+use std::sync::{Arc, LazyLock, Mutex, MutexGuard, PoisonError};
 
 /// A custom file resolver
 ///
@@ -35,11 +35,28 @@ pub trait FileResolver: Send + Sync + AudioFile {
 // Just broken out to its own type to make `CUSTOM_RESOLVER`'s type shorter :)
 type ResolverMap = HashMap<&'static str, &'static dyn ObjectSafeFileResolver>;
 
-pub(crate) static CUSTOM_RESOLVERS: LazyLock<Arc<Mutex<ResolverMap>>> =
+static CUSTOM_RESOLVERS: LazyLock<Arc<Mutex<ResolverMap>>> =
 	LazyLock::new(Default::default);
 
+// No panic can leave the map half modified, so a poisoned lock is as good as any other. A caller that
+// ran into one of the documented panics must not take the resolvers away from everybody else.
+fn custom_resolvers() -> MutexGuard<'static, ResolverMap> {
+	CUSTOM_RESOLVERS
+		.lock()
+		.unwrap_or_else(PoisonError::into_inner)
+}
+
+// For the methods of the resolvers, which aren't our code and may call back into it, to be called without
+// the lock being held
+pub(crate) fn registered_resolvers() -> Vec<(&'static str, &'static dyn ObjectSafeFileResolver)> {
+	custom_resolvers()
+		.iter()
+		.map(|(name, resolver)| (*name, *resolver))
+		.collect()
+}
+
 pub(crate) fn lookup_resolver(name: &'static str) -> &'static dyn ObjectSafeFileResolver {
-	let res = CUSTOM_RESOLVERS.lock().unwrap();
+	let res = custom_resolvers();
 
 	if let Some(resolver) = res.get(name).copied() {
 		return resolver;
@@ -110,9 +127,8 @@ impl<T: FileResolver> ObjectSafeFileResolver for GhostlyResolver<T> {
 /// # Panics
 ///
 /// * Attempting to register an existing name or type
-/// * See [`Mutex::lock`]
 pub fn register_custom_resolver<T: FileResolver + 'static>(name: &'static str) {
-	let mut res = CUSTOM_RESOLVERS.lock().unwrap();
+	let mut res = custom_resolvers();
 	assert!(
 		res.iter().all(|(n, _)| *n != name),
 		"Resolver `{}` already exists!",
-- 
2.43.0


From 2f63cc40adac23d71d74aef9b656c7f027da75d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 097/111] fix: do not write ID3v2 tags without any frames

---
 lofty/src/id3/v2/tag/conversion.rs | 2 +-
 lofty/src/id3/v2/write/mod.rs      | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lofty/src/id3/v2/tag/conversion.rs b/lofty/src/id3/v2/tag/conversion.rs
index 112afc8..bb085f1 100644
--- a/lofty/src/id3/v2/tag/conversion.rs
+++ b/lofty/src/id3/v2/tag/conversion.rs
@@ -557,7 +557,7 @@ impl<'a, I: Iterator<Item = Frame<'a>> + 'a> Id3v2TagRef<'a, I> {
 		writer: &mut W,
 		write_options: WriteOptions,
 	) -> Result<(), Id3v2EncodingError> {
-		let temp = write::create_tag(self, write_options)?;
+		let temp = write::create_tag(self, write_options, true)?;
 		writer.write_all(&temp)?;
 
 		Ok(())
diff --git a/lofty/src/id3/v2/write/mod.rs b/lofty/src/id3/v2/write/mod.rs
index 50513dc..ab9b944 100644
--- a/lofty/src/id3/v2/write/mod.rs
+++ b/lofty/src/id3/v2/write/mod.rs
@@ -52,7 +52,7 @@ where
 		tag.flags.footer = false;
 	}
 
-	let id3v2 = create_tag(tag, write_options).map_err(TagEncodingError::from)?;
+	let id3v2 = create_tag(tag, write_options, false).map_err(TagEncodingError::from)?;
 	if iff_format {
 		match file.format() {
 			FileType::Wav => {
@@ -140,6 +140,7 @@ where
 pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 	tag: &mut Id3v2TagRef<'a, I>,
 	write_options: WriteOptions,
+	allow_empty: bool,
 ) -> Result<Vec<u8>, Id3v2EncodingError> {
 	let frames = &mut tag.frames;
 	let mut peek = frames.peekable();
@@ -170,6 +171,10 @@ pub(super) fn create_tag<'a, I: Iterator<Item = Frame<'a>> + 'a>(
 	}
 
 	let mut len = id3v2.get_ref().len() - header_len;
+	if len == 0 && !allow_empty {
+		// A tag in a file must have at least one frame, this has none that the version supports
+		return Ok(Vec::new());
+	}
 
 	// https://mutagen-specs.readthedocs.io/en/latest/id3/id3v2.4.0-structure.html#padding:
 	//
-- 
2.43.0


From 61278f1c40b7c1214c0bdfa53b3d5889ccd4ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:09 +0000
Subject: [PATCH 098/111] fix: detect files that start with several ID3v2 tags

---
 lofty/src/probe.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/lofty/src/probe.rs b/lofty/src/probe.rs
index 5811715..8ace0f9 100644
--- a/lofty/src/probe.rs
+++ b/lofty/src/probe.rs
@@ -372,7 +372,10 @@ impl<R: Read + Seek> Probe<R> {
 					b"fLaC" => Ok(Some(FileType::Flac)),
 					b"MPCK" | [b'M', b'P', b'+', ..] => Ok(Some(FileType::Mpc)),
 					// Search for a frame sync, which may be preceded by junk
-					_ => self.check_mpeg_or_aac(max_junk_bytes),
+					_ => {
+						self.skip_duplicate_id3v2_tags()?;
+						self.check_mpeg_or_aac(max_junk_bytes)
+					},
 				};
 
 				// before returning any result for a file type, seek back to the front
@@ -397,6 +400,29 @@ impl<R: Read + Seek> Probe<R> {
 		}
 	}
 
+	/// Skips any further ID3v2 tags, MPEG and AAC files are allowed to start with several of them
+	fn skip_duplicate_id3v2_tags(&mut self) -> std::io::Result<()> {
+		loop {
+			let position = self.inner.stream_position()?;
+
+			let mut header = [0; 10];
+			let header_len = std::io::copy(
+				&mut self.inner.by_ref().take(header.len() as u64),
+				&mut Cursor::new(&mut header[..]),
+			)? as usize;
+
+			let Some(FileTypeGuessResult::MaybePrecededById3(id3_len)) =
+				FileType::from_buffer_inner(&header[..header_len])
+			else {
+				self.inner.seek(SeekFrom::Start(position))?;
+				return Ok(());
+			};
+
+			log::debug!("Probe: Duplicate ID3v2 tag detected, skipping {id3_len} bytes");
+			self.inner.seek(SeekFrom::Current(i64::from(id3_len)))?;
+		}
+	}
+
 	/// Searches for an MPEG/AAC frame sync, which may be preceded by junk bytes
 	fn check_mpeg_or_aac(&mut self, max_junk_bytes: usize) -> std::io::Result<Option<FileType>> {
 		{
-- 
2.43.0


From 0dc6c47e71bce0994e1acf6b89bcf849b13a0133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:13 +0000
Subject: [PATCH 099/111] fix: find leading APE tags behind several ID3v2 tags

---
 lofty/src/ape/tag/write.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lofty/src/ape/tag/write.rs b/lofty/src/ape/tag/write.rs
index 78d2347..903e58f 100644
--- a/lofty/src/ape/tag/write.rs
+++ b/lofty/src/ape/tag/write.rs
@@ -9,6 +9,7 @@ use crate::error::{
 	FileEncodingError, FileParseError, SizeMismatchError, TagEncodingError, TagParseError,
 	TooMuchDataError,
 };
+use crate::file::FileType;
 use crate::id3::{FindId3v2Config, find_id3v1, find_id3v2, find_lyrics3v2};
 use crate::io::VerifiedFile;
 use crate::tag::item::ItemValueRef;
@@ -29,9 +30,10 @@ where
 	I: Iterator<Item = ApeItemRef<'a>>,
 	F: FileLike,
 {
+	let format = file.format();
 	let mut file = file.into_inner();
 
-	let mut original_tags = find_existing_ape_tags(&mut file, write_options)?;
+	let mut original_tags = find_existing_ape_tags(&mut file, format, write_options)?;
 
 	// Preserve any metadata marked as read only
 	let tag;
@@ -59,13 +61,20 @@ struct ApeTags {
 
 fn find_existing_ape_tags<F>(
 	file: &mut F,
+	format: FileType,
 	write_options: WriteOptions,
 ) -> Result<ApeTags, FileParseError>
 where
 	F: FileLike,
 {
-	// We don't actually need the ID3v2 tag, but reading it will seek to the end of it if it exists
-	find_id3v2(file, FindId3v2Config::NO_READ_TAG).map_err(TagParseError::from)?;
+	// We don't actually need the ID3v2 tag, but reading it will seek to the end of it if it exists.
+	// MPEG files may have duplicate tags.
+	while find_id3v2(file, FindId3v2Config::NO_READ_TAG)
+		.map_err(TagParseError::from)?
+		.0
+		.is_some()
+		&& format == FileType::Mpeg
+	{}
 
 	// We have to check the APE tag for any read only items first
 	let mut read_only = None;
-- 
2.43.0


From 40bb4995d6aa48b34c2e01bd0ca90be384f0022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:02 +0000
Subject: [PATCH 100/111] fix: store the date set on an ID3v2 tag as a
 timestamp

Id3v2Tag::set_date inserted a text frame, which Id3v2Tag::date does not see, next to the timestamp frame
that was there before.
---
 lofty/src/id3/v2/tag.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/tag.rs b/lofty/src/id3/v2/tag.rs
index 292be82..19a10a6 100644
--- a/lofty/src/id3/v2/tag.rs
+++ b/lofty/src/id3/v2/tag.rs
@@ -491,7 +491,9 @@ impl Accessor for Id3v2Tag {
 	}
 
 	fn set_date(&mut self, value: Timestamp) {
-		self.insert(Frame::text(Cow::Borrowed("TDRC"), value.to_string()));
+		// Dates that could not be parsed are kept as text frames, which aren't equal to timestamp frames
+		let _ = self.remove(&RECORDING_TIME_ID);
+		self.insert(new_timestamp_frame(RECORDING_TIME_ID, value));
 	}
 
 	fn remove_date(&mut self) {
-- 
2.43.0


From c530f141d01773db215be5422bd573c94d1e2b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:39 +0000
Subject: [PATCH 101/111] fix: keep the order of the remaining items when
 removing one

Removing an item from Vorbis comments, an ilst or an ID3v2 tag swapped the others around, so that another item with
several values could get a different first value.
---
 lofty/src/id3/v2/frame/list.rs | 16 ++++++----------
 lofty/src/mp4/ilst/mod.rs      | 16 ++++++----------
 lofty/src/ogg/tag.rs           | 16 ++++++----------
 3 files changed, 18 insertions(+), 30 deletions(-)

diff --git a/lofty/src/id3/v2/frame/list.rs b/lofty/src/id3/v2/frame/list.rs
index cf16f10..32f3595 100644
--- a/lofty/src/id3/v2/frame/list.rs
+++ b/lofty/src/id3/v2/frame/list.rs
@@ -326,17 +326,13 @@ impl<'a> FrameList<'a> {
 	/// assert!(tag.is_empty());
 	/// ```
 	pub fn remove(&mut self, id: &FrameId<'_>) -> impl Iterator<Item = Frame<'a>> {
-		// TODO: drain_filter
-		let mut split_idx = 0_usize;
+		// The remaining frames have to keep their order, as only the first frame of an ID is visible to `get`
+		let (removed, remaining): (Vec<_>, Vec<_>) = std::mem::take(self.0.to_mut())
+			.into_iter()
+			.partition(|frame| frame.id() == id);
 
-		for read_idx in 0..self.0.len() {
-			if self.0[read_idx].id() == id {
-				self.0.to_mut().swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
-
-		self.0.to_mut().drain(..split_idx)
+		*self.0.to_mut() = remaining;
+		removed.into_iter()
 	}
 
 	/// Removes a certain [`PictureType`]
diff --git a/lofty/src/mp4/ilst/mod.rs b/lofty/src/mp4/ilst/mod.rs
index cd5b3db..400c3e6 100644
--- a/lofty/src/mp4/ilst/mod.rs
+++ b/lofty/src/mp4/ilst/mod.rs
@@ -272,17 +272,13 @@ impl Ilst {
 		&'a mut self,
 		ident: &AtomIdent<'_>,
 	) -> impl Iterator<Item = Atom<'static>> + use<'a> {
-		// TODO: drain_filter
-		let mut split_idx = 0_usize;
-
-		for read_idx in 0..self.atoms.len() {
-			if &self.atoms[read_idx].ident == ident {
-				self.atoms.swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
+		// The remaining atoms have to keep their order, as only the first atom of an ident is visible to `get`
+		let (removed, remaining): (Vec<_>, Vec<_>) = std::mem::take(&mut self.atoms)
+			.into_iter()
+			.partition(|atom| &atom.ident == ident);
 
-		self.atoms.drain(..split_idx)
+		self.atoms = remaining;
+		removed.into_iter()
 	}
 
 	/// Retain atoms based on the predicate
diff --git a/lofty/src/ogg/tag.rs b/lofty/src/ogg/tag.rs
index b20e1c7..cc9fba4 100644
--- a/lofty/src/ogg/tag.rs
+++ b/lofty/src/ogg/tag.rs
@@ -303,17 +303,13 @@ impl VorbisComments {
 	/// }
 	/// ```
 	pub fn remove<'a>(&'a mut self, key: &str) -> impl Iterator<Item = String> + use<'a> {
-		// TODO: drain_filter
-		let mut split_idx = 0_usize;
+		// The remaining items have to keep their order, as only the first item of a key is visible to `get`
+		let (removed, remaining): (Vec<_>, Vec<_>) = std::mem::take(&mut self.items)
+			.into_iter()
+			.partition(|(k, _)| k.eq_ignore_ascii_case(key));
 
-		for read_idx in 0..self.items.len() {
-			if self.items[read_idx].0.eq_ignore_ascii_case(key) {
-				self.items.swap(split_idx, read_idx);
-				split_idx += 1;
-			}
-		}
-
-		self.items.drain(..split_idx).map(|(_, v)| v)
+		self.items = remaining;
+		removed.into_iter().map(|(_, v)| v)
 	}
 }
 
-- 
2.43.0


From e25e84308db893d181a72cfbb0d97285b5053db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:39 +0000
Subject: [PATCH 102/111] fix: replace and remove all RIFF INFO items of a key

Only the first of several items was replaced or removed, so that the value just set was hidden behind
another old one, and a removed one was still there.
---
 lofty/src/iff/wav/tag/mod.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lofty/src/iff/wav/tag/mod.rs b/lofty/src/iff/wav/tag/mod.rs
index 219cf9b..c68d7c7 100644
--- a/lofty/src/iff/wav/tag/mod.rs
+++ b/lofty/src/iff/wav/tag/mod.rs
@@ -100,10 +100,9 @@ impl RiffInfoList {
 		};
 
 		if valid_fourcc(fourcc) {
+			// Files can contain the same item multiple times
 			self.items
-				.iter()
-				.position(|(k, _)| k.eq_ignore_ascii_case(key.as_str()))
-				.map(|p| self.items.remove(p));
+				.retain(|(k, _)| !k.eq_ignore_ascii_case(key.as_str()));
 			self.items.push((key, value))
 		}
 	}
@@ -113,16 +112,18 @@ impl RiffInfoList {
 	/// This will case-insensitively remove an item with the key, returning it
 	/// if it exists.
 	pub fn remove(&mut self, key: &str) -> Option<String> {
-		if let Some((_, value)) = self
-			.items
-			.iter()
-			.position(|(k, _)| k.eq_ignore_ascii_case(key))
-			.map(|p| self.items.remove(p))
-		{
-			return Some(value);
-		}
+		// Files can contain the same item multiple times
+		let mut removed = None;
+		self.items.retain_mut(|(k, value)| {
+			if !k.eq_ignore_ascii_case(key) {
+				return true;
+			}
 
-		None
+			removed.get_or_insert_with(|| std::mem::take(value));
+			false
+		});
+
+		removed
 	}
 }
 
-- 
2.43.0


From 7f8139ea40ede7c9a4b1ab520317bd2c9290aea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:54 +0000
Subject: [PATCH 103/111] fix: keep the icon of a Vorbis comment when its
 replacement is refused

---
 lofty/src/ogg/picture_storage.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lofty/src/ogg/picture_storage.rs b/lofty/src/ogg/picture_storage.rs
index 3e60a86..c58579c 100644
--- a/lofty/src/ogg/picture_storage.rs
+++ b/lofty/src/ogg/picture_storage.rs
@@ -24,6 +24,12 @@ pub trait OggPictureStorage: private::Sealed {
 		picture: Picture,
 		information: Option<PictureInformation>,
 	) -> Result<Option<(Picture, PictureInformation)>, PictureParseError> {
+		// Do this first, so a picture is not replaced by one that gets refused
+		let info = match information {
+			Some(pic_info) => pic_info,
+			None => PictureInformation::from_picture(&picture)?,
+		};
+
 		let ret = match picture.pic_type {
 			PictureType::Icon | PictureType::OtherIcon => self
 				.pictures()
@@ -33,11 +39,6 @@ pub trait OggPictureStorage: private::Sealed {
 			_ => None,
 		};
 
-		let info = match information {
-			Some(pic_info) => pic_info,
-			None => PictureInformation::from_picture(&picture)?,
-		};
-
 		self.pictures_mut().push((picture, info));
 
 		Ok(ret)
-- 
2.43.0


From fd8cb6b54bffa0dc59dbb73f578c01612975f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:20 +0000
Subject: [PATCH 104/111] fix: update the offsets of MP4 fragment random access
 tables

---
 lofty/src/mp4/ilst/write.rs | 49 +++++++++++++++++++++++++++++++++++++
 lofty/src/mp4/write.rs      |  1 +
 2 files changed, 50 insertions(+)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 5eed57b..4a8d8f7 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -551,6 +551,55 @@ fn update_offsets(
 		}
 	}
 
+	// 32-bit or 64-bit offsets, depending on the version
+	for tfra in writer
+		.find_contextual_atoms(*b"mfra")
+		.flat_map(|mfra| mfra.find_all_children(*b"tfra", true))
+	{
+		log::trace!("Found `tfra` atom");
+
+		write_handle.seek(SeekFrom::Start(tfra.start + tfra.header_size()))?;
+
+		let version = write_handle.read_u8()?;
+
+		// Skip the flags (3) and the track ID (4)
+		write_handle.seek(SeekFrom::Current(7))?;
+
+		// The sizes of the `traf`, `trun` and sample numbers that follow each offset
+		let lengths = write_handle.read_u32::<BigEndian>()?;
+		let numbers_len = (0..3)
+			.map(|i| i64::from((lengths >> (i * 2)) & 0b11) + 1)
+			.sum::<i64>();
+
+		let count = write_handle.read_u32::<BigEndian>()?;
+		for _ in 0..count {
+			let read_offset = if version == 1 {
+				// Skip the time (8)
+				write_handle.seek(SeekFrom::Current(8))?;
+				write_handle.read_u64::<BigEndian>()?
+			} else {
+				// Skip the time (4)
+				write_handle.seek(SeekFrom::Current(4))?;
+				u64::from(write_handle.read_u32::<BigEndian>()?)
+			};
+
+			if read_offset >= ilst_offset {
+				let new_offset = read_offset.wrapping_add_signed(difference);
+				if version == 1 {
+					write_handle.seek(SeekFrom::Current(-8))?;
+					write_handle.write_u64::<BigEndian>(new_offset)?;
+				} else {
+					write_handle.seek(SeekFrom::Current(-4))?;
+					write_handle.write_u32::<BigEndian>(new_offset as u32)?;
+				}
+
+				log::trace!("Updated offset from {read_offset} to {new_offset}");
+			}
+
+			write_handle.seek(SeekFrom::Current(numbers_len))?;
+		}
+	}
+
 	drop(write_handle);
 
 	Ok(())
diff --git a/lofty/src/mp4/write.rs b/lofty/src/mp4/write.rs
index 6c1e7e3..28ab11b 100644
--- a/lofty/src/mp4/write.rs
+++ b/lofty/src/mp4/write.rs
@@ -26,6 +26,7 @@ const IMPORTANT_CONTAINERS: &[[u8; 4]] = &[
 		*b"udta",
 		*b"moof",
 			*b"traf",
+		*b"mfra",
 		*b"trak",
 			*b"mdia",
 				*b"minf",
-- 
2.43.0


From d21a0fbdf59d729b2b42f20dc0b6d9e5cba574f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:26 +0000
Subject: [PATCH 105/111] fix: avoid an overflow when updating 64-bit MP4
 offsets

---
 lofty/src/mp4/ilst/write.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lofty/src/mp4/ilst/write.rs b/lofty/src/mp4/ilst/write.rs
index 4a8d8f7..2ecfbfd 100644
--- a/lofty/src/mp4/ilst/write.rs
+++ b/lofty/src/mp4/ilst/write.rs
@@ -501,11 +501,11 @@ fn update_offsets(
 			}
 
 			write_handle.seek(SeekFrom::Current(-8))?;
-			write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
+			write_handle.write_u64::<BigEndian>(read_offset.wrapping_add_signed(difference))?;
 
 			log::trace!(
 				"Updated offset from {read_offset} to {}",
-				((read_offset as i64) + difference) as u64
+				read_offset.wrapping_add_signed(difference)
 			);
 		}
 	}
@@ -542,11 +542,11 @@ fn update_offsets(
 			}
 
 			write_handle.seek(SeekFrom::Current(-8))?;
-			write_handle.write_u64::<BigEndian>((read_offset as i64 + difference) as u64)?;
+			write_handle.write_u64::<BigEndian>(read_offset.wrapping_add_signed(difference))?;
 
 			log::trace!(
 				"Updated offset from {read_offset} to {}",
-				((read_offset as i64) + difference) as u64
+				read_offset.wrapping_add_signed(difference)
 			);
 		}
 	}
-- 
2.43.0


From cdfaf9ef75b9f97d187da00be151ade447fe441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:23 +0000
Subject: [PATCH 106/111] fix: write the year of ID3v2.3 tags with four digits

---
 lofty/src/id3/v2/write/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/write/frame.rs b/lofty/src/id3/v2/write/frame.rs
index f5e280a..2ae9be3 100644
--- a/lofty/src/id3/v2/write/frame.rs
+++ b/lofty/src/id3/v2/write/frame.rs
@@ -121,7 +121,7 @@ where
 					new_frames.push(Frame::Text(TextInformationFrame::new(
 						FrameId::Valid("TYER".into()),
 						f.encoding.to_id3v23(),
-						year.to_string(),
+						format!("{year:04}"),
 					)));
 
 					if let (Some(month), Some(day)) = (timestamp.month, timestamp.day) {
-- 
2.43.0


From dc8e4b0f16bd7472085580a13efc0bbfb34b96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:01 +0000
Subject: [PATCH 107/111] fix: read ilst data atoms with 64-bit sizes

---
 lofty/src/mp4/ilst/read.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lofty/src/mp4/ilst/read.rs b/lofty/src/mp4/ilst/read.rs
index a07f9ea..a0cccec 100644
--- a/lofty/src/mp4/ilst/read.rs
+++ b/lofty/src/mp4/ilst/read.rs
@@ -5,7 +5,7 @@ use crate::config::{ParseOptions, ParsingMode};
 use crate::error::NotEnoughDataError;
 use crate::id3::v1::constants::GENRES;
 use crate::macros::try_vec;
-use crate::mp4::atom_info::{ATOM_HEADER_LEN, AtomInfo};
+use crate::mp4::atom_info::AtomInfo;
 use crate::mp4::error::AtomParseError;
 use crate::mp4::ilst::atom::AtomDataStorage;
 use crate::mp4::ilst::error::IlstParseError;
@@ -257,13 +257,15 @@ where
 			break;
 		};
 
-		if next_atom.len < 16 {
+		// Header, type indicator, and locale
+		let min_data_len = next_atom.header_size() + 8;
+		if next_atom.len < min_data_len {
 			log::warn!(
-				"Expected data atom to be at least 16 bytes, got {}. Stopping",
+				"Expected data atom to be at least {min_data_len} bytes, got {}. Stopping",
 				next_atom.len
 			);
 			if parsing_mode == ParsingMode::Strict {
-				return Err(NotEnoughDataError::new(Some(16)).into());
+				return Err(NotEnoughDataError::new(Some(min_data_len as usize)).into());
 			}
 
 			break;
@@ -291,7 +293,7 @@ where
 
 		let Some(data_type) = parse_type_indicator(reader, parsing_mode)? else {
 			log::warn!("Skipping atom with unknown type set");
-			let remaining_atom_len = next_atom.len - (ATOM_HEADER_LEN + 1);
+			let remaining_atom_len = next_atom.len - (next_atom.header_size() + 1);
 
 			reader.seek(SeekFrom::Current(remaining_atom_len as i64))?;
 			pos += remaining_atom_len;
@@ -301,7 +303,7 @@ where
 		// We don't care about the locale
 		reader.seek(SeekFrom::Current(4))?;
 
-		let content_len = (next_atom.len - 16) as usize;
+		let content_len = (next_atom.len - min_data_len) as usize;
 		if content_len > 0 {
 			let mut content = try_vec![0; content_len]?;
 			reader.read_exact(&mut content)?;
-- 
2.43.0


From cadc3aa6d1e73dba1b45bb0125bcbcf3b675f641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:15 +0000
Subject: [PATCH 108/111] fix: read negative one-byte integers of ilst atoms

---
 lofty/src/mp4/ilst/read.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/mp4/ilst/read.rs b/lofty/src/mp4/ilst/read.rs
index a0cccec..ee1d9a4 100644
--- a/lofty/src/mp4/ilst/read.rs
+++ b/lofty/src/mp4/ilst/read.rs
@@ -361,7 +361,7 @@ fn parse_uint(bytes: &[u8]) -> Result<u32, AtomParseError> {
 
 fn parse_int(bytes: &[u8]) -> Result<i32, AtomParseError> {
 	match bytes.len() {
-		1 => Ok(i32::from(bytes[0])),
+		1 => Ok(i32::from(bytes[0] as i8)),
 		2 => Ok(i32::from(i16::from_be_bytes([bytes[0], bytes[1]]))),
 		3 => {
 			let pad = if bytes[0] & 0x80 != 0 { 0xFF } else { 0x00 };
-- 
2.43.0


From 270386d04162812d08f218bc709b1405c9980eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:45 +0000
Subject: [PATCH 109/111] fix: read freeform atom names with 64-bit sizes

---
 lofty/src/mp4/atom_info.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lofty/src/mp4/atom_info.rs b/lofty/src/mp4/atom_info.rs
index a46c4b8..6068d65 100644
--- a/lofty/src/mp4/atom_info.rs
+++ b/lofty/src/mp4/atom_info.rs
@@ -298,6 +298,7 @@ where
 	let Some(AtomInfo {
 		ident: AtomIdent::Fourcc(fourcc),
 		len,
+		extended,
 		..
 	}) = AtomInfo::read_inner(data, *reader_size, parse_mode, true)?
 	else {
@@ -318,8 +319,10 @@ where
 		));
 	}
 
-	if len < 12 {
-		return Err(NotEnoughDataError::new(Some(12)).into());
+	// Header, version (1), and flags (3)
+	let min_chunk_len: u64 = if extended { 20 } else { 12 };
+	if len < min_chunk_len {
+		return Err(NotEnoughDataError::new(Some(min_chunk_len as usize)).into());
 	}
 
 	if len > *reader_size {
@@ -330,8 +333,8 @@ where
 	// Flags (3)
 	data.seek(SeekFrom::Current(4))?;
 
-	// Already read the size (4) + identifier (4) + version/flags (4)
-	let mut content = try_vec![0; (len - 12) as usize]?;
+	// Already read the size (4 or 12) + identifier (4) + version/flags (4)
+	let mut content = try_vec![0; (len - min_chunk_len) as usize]?;
 	data.read_exact(&mut content)?;
 
 	*reader_size -= len;
-- 
2.43.0


From 7c86932af5f8bceef1f7e27bca1f40b5697ba085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:47 +0000
Subject: [PATCH 110/111] fix: declare the encoding that SYLT frames are
 written with

The text of an ID3v2.3 frame is converted to UTF-16, but the frame still claimed the original encoding.
---
 lofty/src/id3/v2/items/sync_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lofty/src/id3/v2/items/sync_text.rs b/lofty/src/id3/v2/items/sync_text.rs
index 301ee7f..2e04034 100644
--- a/lofty/src/id3/v2/items/sync_text.rs
+++ b/lofty/src/id3/v2/items/sync_text.rs
@@ -300,7 +300,7 @@ impl SynchronizedTextFrame<'_> {
 			encoding = encoding.to_id3v23();
 		}
 
-		let mut data = vec![self.encoding as u8];
+		let mut data = vec![encoding as u8];
 
 		data.write_all(&self.language)?;
 		data.write_u8(self.timestamp_format as u8)?;
-- 
2.43.0


From 89183295e13f975ded9b74bbf37ef39b96abc0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:47 +0000
Subject: [PATCH 111/111] fix: always write the MIME type of a GEOB frame as
 Latin-1

---
 lofty/src/id3/v2/items/encapsulated_object.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lofty/src/id3/v2/items/encapsulated_object.rs b/lofty/src/id3/v2/items/encapsulated_object.rs
index 8e21167..9df8221 100644
--- a/lofty/src/id3/v2/items/encapsulated_object.rs
+++ b/lofty/src/id3/v2/items/encapsulated_object.rs
@@ -116,11 +116,12 @@ impl GeneralEncapsulatedObject<'_> {
 
 		let mut bytes = vec![encoding as u8];
 
-		if let Some(ref mime_type) = self.mime_type {
-			bytes.extend(mime_type.as_bytes())
-		}
-
-		bytes.push(0);
+		let mime_type = self.mime_type.as_deref();
+		bytes.extend(&*TextEncoding::Latin1.encode(
+			mime_type.unwrap_or(""),
+			true,
+			write_options.lossy_text_encoding,
+		)?);
 
 		let file_name = self.file_name.as_deref();
 		bytes.extend(&*encoding.encode(
-- 
2.43.0

