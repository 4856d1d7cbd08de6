//! Tag contents as data: what a step of a history writes, how lofty is asked to hold it, and a canonical
//! textual form in which two tags are compared.

use crate::dissect::Kind;
use crate::media::Fmt;
use crate::rng::{Rng, hash_bytes};
use lofty::TextEncoding;
use lofty::ape::{ApeItem, ApeTag};
use lofty::config::WriteOptions;
use lofty::error::FileEncodingError;
use lofty::id3::v1::Id3v1Tag;
use lofty::id3::v2::*;
use lofty::iff::aiff::{AiffTextChunks, Comment as AiffComment};
use lofty::iff::wav::RiffInfoList;
use lofty::mp4::{Atom, AtomData, AtomIdent, DataType, Ilst};
use lofty::ogg::{OggPictureStorage, tag::VorbisComments};
use lofty::picture::{MimeType, Picture, PictureInformation, PictureType};
use lofty::tag::items::Timestamp;
use lofty::tag::{Accessor, ItemKey, ItemValue, Tag, TagExt, TagItem, TagType};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::collections::HashMap;

// ---------------------------------------------------------------------------------------------
// text and binary values

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Txt {
	Lit(String),
	/// `n` characters of class `c` (0 ASCII, 1 Latin-1, 2 BMP, 3 any plane)
	Gen { g: u64, n: u32, c: u8 },
	/// Several values in one field, separated as ID3v2.4 and APEv2 do
	Multi { m: Vec<Txt> },
}

impl Txt {
	pub fn get(&self) -> String {
		match self {
			Txt::Lit(s) if s.is_empty() => "x".into(),
			Txt::Lit(s) => s.clone(),
			Txt::Multi { m } => m.iter().map(Txt::get).collect::<Vec<_>>().join("\0"),
			Txt::Gen { g, n, c } => {
				let mut r = Rng::new(crate::rng::mix(&[0x7478, *g]));
				let mut s = String::new();
				let n = &(*n).clamp(1, 400_000);
				for i in 0..*n {
					let last = i + 1 == *n;
					let ch = loop {
						let ch = match c {
							0 => r.range(0x20, 0x7E) as u32,
							1 => {
								if r.chance(1, 2) {
									r.range(0x20, 0x7E) as u32
								} else {
									r.range(0xA1, 0xFF) as u32
								}
							},
							2 => match r.below(3) {
								0 => r.range(0x20, 0x7E) as u32,
								1 => r.range(0xA1, 0x7FF) as u32,
								_ => r.range(0x4E00, 0x9FFF) as u32,
							},
							_ => match r.below(4) {
								0 => r.range(0x20, 0x7E) as u32,
								1 => r.range(0xA1, 0x17F) as u32,
								2 => r.range(0x3041, 0x30FF) as u32,
								_ => r.range(0x1F300, 0x1F64F) as u32,
							},
						};
						// no outer blanks (formats may trim) and no separators formats give a meaning to
						if (i == 0 || last) && ch == 0x20 {
							continue;
						}
						if ch == 0x2F || ch == 0x3B || ch == 0x28 || ch == 0x29 {
							continue;
						}
						break ch;
					};
					s.push(char::from_u32(ch).unwrap_or('x'));
				}
				// not the marker of an ID3v1 tag
				s.replace("TAG", "tag")
			},
		}
	}
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Blob {
	Hex(String),
	/// `n` bytes of kind `k` (0 random, 1 many 0xFF, 2 zero)
	Gen { b: u64, n: u32, k: u8 },
	/// The content of a frame with fields of its own
	Part { part: Box<crate::parts::PartSpec> },
}

impl Blob {
	pub fn get(&self) -> Vec<u8> {
		match self {
			Blob::Hex(s) => s
				.as_bytes()
				.chunks_exact(2)
				.map(|c| {
					std::str::from_utf8(c)
						.ok()
						.and_then(|c| u8::from_str_radix(c, 16).ok())
						.unwrap_or(0)
				})
				.collect(),
			Blob::Part { part } => part.bytes(),
			Blob::Gen { b, n, k } => {
				let mut r = Rng::new(crate::rng::mix(&[0x626c, *b]));
				let n = (*n).min(40_000_000) as usize;
				match k {
					0 => r.bytes(n),
					1 => {
						let mut v = r.bytes(n);
						for x in &mut v {
							if *x & 3 == 0 {
								*x = 0xFF;
							} else if *x & 3 == 1 {
								*x = 0;
							}
						}
						v
					},
					_ => vec![0; n],
				}
			},
		}
	}
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PicSpec {
	/// 0 png, 1 jpeg, 2 gif, 3 bmp
	pub mime: u8,
	pub ty: u8,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub desc: Option<Txt>,
	pub data: Blob,
}

impl PicSpec {
	pub fn build(&self) -> Picture {
		let (magic, mime): (&[u8], MimeType) = match self.mime % 4 {
			0 => (b"\x89PNG\x0D\x0A\x1A\x0A", MimeType::Png),
			1 => (b"\xFF\xD8\xFF\xE0\0\x10JF", MimeType::Jpeg),
			2 => (b"GIF89a\0\0", MimeType::Gif),
			_ => (b"BM\0\0\0\0\0\0", MimeType::Bmp),
		};
		let mut d = magic.to_vec();
		d.extend_from_slice(&self.data.get());
		let mut b = Picture::unchecked(d)
			.pic_type(PictureType::from_u8(self.ty % 21))
			.mime_type(mime);
		if let Some(t) = &self.desc {
			b = b.description(t.get());
		}
		b.build()
	}
}

// ---------------------------------------------------------------------------------------------
// tag specifications

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FrameSpec {
	Text { id: String, enc: u8, v: Txt },
	UserText { enc: u8, d: Txt, v: Txt },
	Url { id: String, v: Txt },
	UserUrl { enc: u8, d: Txt, v: Txt },
	Comment { enc: u8, lang: String, d: Txt, v: Txt },
	Lyrics { enc: u8, lang: String, d: Txt, v: Txt },
	Pic { enc: u8, p: PicSpec },
	Popm { email: Txt, rating: u8, counter: u64 },
	KeyValue { id: String, enc: u8, kv: Vec<(Txt, Txt)> },
	Rva2 { ident: Txt, ch: Vec<(u8, i16, u8)> },
	Ufid { owner: Txt, id: Blob },
	Owne { enc: u8, price: Txt, date: String, seller: Txt },
	Etco { ms: bool, ev: Vec<(u8, u32)> },
	Priv { owner: Txt, d: Blob },
	Time { id: String, enc: u8, t: Vec<u16> },
	/// Genres: names, ID3v1 indices, `RX` and `CR`
	Genre { enc: u8, list: Vec<String> },
	Chap { id: Txt, a: [u32; 4], kids: Vec<FrameSpec> },
	Ctoc { id: Txt, top: bool, ord: bool, entries: Vec<Txt>, kids: Vec<FrameSpec> },
	Bin { id: String, d: Blob },
	/// An encrypted frame: opaque content with its method, group and data length
	Enc { id: String, d: Blob, method: u8, group: Option<u8> },
	/// A frame that cannot be written
	Odd { w: u8 },
	/// A frame with header flags: 1 tag alter, 2 file alter, 4 read only, 8 grouping
	Flagged { fl: u8, group: u8, f: Box<FrameSpec> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum TagSpec {
	/// `head`: 1 CRC, 2 footer, 4 experimental, 8 restrictions (in the upper byte)
	Id3v2 {
		frames: Vec<FrameSpec>,
		#[serde(default, skip_serializing_if = "is_zero")]
		head: u16,
	},
	Id3v1 { title: Option<Txt>, artist: Option<Txt>, album: Option<Txt>, year: Option<u16>, comment: Option<Txt>, track: Option<u8>, genre: Option<u8> },
	/// key, kind (0 text, 1 locator, 2 binary), read only
	Ape {
		items: Vec<ApeSpec>,
		/// the tag as a whole is marked as read only
		#[serde(default)]
		ro: bool,
	},
	Vorbis { vendor: Txt, items: Vec<(String, Txt)>, pics: Vec<PicSpec> },
	Ilst { atoms: Vec<AtomSpec> },
	Riff { items: Vec<(String, Txt)> },
	Aiff { name: Option<Txt>, author: Option<Txt>, copyright: Option<Txt>, anno: Vec<Txt>, comments: Vec<(u32, u16, Txt)> },
	/// The format-independent tag, stored as `kind`
	Generic { kind: Kind, items: Vec<(u8, Txt)>, pics: Vec<PicSpec> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ApeSpec {
	pub key: String,
	pub v: ApeVal,
	#[serde(default)]
	pub ro: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ApeVal {
	Text(Txt),
	Loc(Txt),
	Bin(Blob),
	Pic(PicSpec),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct AtomSpec {
	/// A fourcc of Latin-1 characters, or `mean:name` of a freeform identifier
	pub id: String,
	pub data: Vec<DataSpec>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum DataSpec {
	Utf8(Txt),
	Utf16(Txt),
	Int(i32),
	Uint(u32),
	Bool,
	Raw(u32, Blob),
	Pic(PicSpec),
}

pub fn kind_type(k: Kind) -> Option<TagType> {
	Some(match k {
		Kind::Id3v2 => TagType::Id3v2,
		Kind::Id3v1 => TagType::Id3v1,
		Kind::Ape => TagType::Ape,
		Kind::Vorbis => TagType::VorbisComments,
		Kind::Ilst => TagType::Mp4Ilst,
		Kind::Riff => TagType::RiffInfo,
		Kind::AiffText => TagType::AiffText,
		Kind::Lyrics3 => return None,
	})
}

pub fn type_kind(t: TagType) -> Option<Kind> {
	Some(match t {
		TagType::Id3v2 => Kind::Id3v2,
		TagType::Id3v1 => Kind::Id3v1,
		TagType::Ape => Kind::Ape,
		TagType::VorbisComments => Kind::Vorbis,
		TagType::Mp4Ilst => Kind::Ilst,
		TagType::RiffInfo => Kind::Riff,
		TagType::AiffText => Kind::AiffText,
		_ => return None,
	})
}

/// Tags lofty documents as writable for a format
pub fn writable(f: Fmt) -> &'static [Kind] {
	match f {
		Fmt::Mp3 => &[Kind::Id3v2, Kind::Id3v1, Kind::Ape],
		Fmt::Aac => &[Kind::Id3v2, Kind::Id3v1],
		Fmt::Ape => &[Kind::Ape, Kind::Id3v1],
		Fmt::Wv => &[Kind::Ape, Kind::Id3v1],
		Fmt::Mpc7 | Fmt::Mpc8 => &[Kind::Ape],
		Fmt::Wav => &[Kind::Id3v2, Kind::Riff],
		Fmt::Aiff => &[Kind::Id3v2, Kind::AiffText],
		Fmt::Flac | Fmt::OggVorbis | Fmt::OggOpus | Fmt::OggSpeex => &[Kind::Vorbis],
		Fmt::Mp4 => &[Kind::Ilst],
	}
}

/// Tags lofty can read (and therefore remove) but not write
pub fn readable_only(f: Fmt) -> &'static [Kind] {
	match f {
		Fmt::Ape | Fmt::Flac => &[Kind::Id3v2],
		Fmt::Mpc7 | Fmt::Mpc8 => &[Kind::Id3v2, Kind::Id3v1],
		_ => &[],
	}
}

pub fn enc(e: u8) -> TextEncoding {
	match e % 4 {
		0 => TextEncoding::Latin1,
		1 => TextEncoding::UTF16,
		2 => TextEncoding::UTF16BE,
		_ => TextEncoding::UTF8,
	}
}

fn lang(s: &str) -> [u8; 3] {
	let mut l = *b"eng";
	if s.len() == 3 {
		l.copy_from_slice(s.as_bytes());
	}
	l
}

fn fid(s: &str) -> FrameId<'static> {
	if s.len() != 4 {
		return FrameId::new("XXXX").unwrap();
	}
	FrameId::new(s.to_string()).unwrap_or_else(|_| FrameId::new("XXXX").unwrap())
}

const CHANNELS: [ChannelType; 9] = [
	ChannelType::Other,
	ChannelType::MasterVolume,
	ChannelType::FrontRight,
	ChannelType::FrontLeft,
	ChannelType::BackRight,
	ChannelType::BackLeft,
	ChannelType::FrontCentre,
	ChannelType::BackCentre,
	ChannelType::Subwoofer,
];

const EVENTS: [EventType; 6] = [
	EventType::Padding,
	EventType::EndOfInitialSilence,
	EventType::IntroStart,
	EventType::MainPartStart,
	EventType::OutroStart,
	EventType::OutroEnd,
];

fn stamp(t: &[u16]) -> Timestamp {
	let g = |i: usize| t.get(i).map(|v| *v as u8);
	Timestamp {
		year: t.first().copied().unwrap_or(2000),
		month: g(1),
		day: g(2),
		hour: g(3),
		minute: g(4),
		second: g(5),
	}
}

const TEXT_IDS: &[&str] = &["TIT2", "TPE1", "TALB", "TPE2", "TCOM", "TIT1", "TENC", "TCOP", "TPUB", "TRCK", "TBPM", "TSRC"];
const URL_IDS: &[&str] = &["WOAF", "WCOM", "WOAR", "WPUB"];
const TIME_IDS: &[&str] = &["TDRC", "TDRL", "TDEN", "TDOR", "TDTG"];
const KV_IDS: &[&str] = &["TIPL", "TMCL"];

/// Identifiers outside the list (a minimiser's doing) fall back to its first entry
fn one_of(id: &str, list: &[&'static str]) -> FrameId<'static> {
	FrameId::new(list.iter().find(|x| **x == id).copied().unwrap_or(list[0])).unwrap()
}

impl FrameSpec {
	pub fn build(&self) -> Frame<'static> {
		match self {
			FrameSpec::Text { id, enc: e, v } => Frame::Text(TextInformationFrame::new(one_of(id, TEXT_IDS), enc(*e), v.get())),
			FrameSpec::UserText { enc: e, d, v } => Frame::UserText(ExtendedTextFrame::new(enc(*e), d.get(), v.get())),
			FrameSpec::Url { id, v } => Frame::Url(UrlLinkFrame::new(one_of(id, URL_IDS), v.get())),
			FrameSpec::UserUrl { enc: e, d, v } => Frame::UserUrl(ExtendedUrlFrame::new(enc(*e), d.get(), v.get())),
			FrameSpec::Comment { enc: e, lang: l, d, v } => Frame::Comment(CommentFrame::new(enc(*e), lang(l), d.get(), v.get())),
			FrameSpec::Lyrics { enc: e, lang: l, d, v } => {
				Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(enc(*e), lang(l), d.get(), v.get()))
			},
			FrameSpec::Pic { enc: e, p } => Frame::Picture(AttachedPictureFrame::new(enc(*e), Cow::Owned(p.build()))),
			FrameSpec::Popm { email, rating, counter } => Frame::Popularimeter(PopularimeterFrame::new(email.get(), *rating, *counter)),
			FrameSpec::KeyValue { id, enc: e, kv } => {
				let v: Vec<(Cow<'static, str>, Cow<'static, str>)> =
					kv.iter().map(|(a, b)| (a.get().into(), b.get().into())).collect();
				Frame::KeyValue(KeyValueFrame::new(one_of(id, KV_IDS), enc(*e), Cow::Owned(v)))
			},
			FrameSpec::Rva2 { ident, ch } => {
				let mut m = HashMap::new();
				for (t, v, bits) in ch {
					let t = CHANNELS[*t as usize % 9];
					let peak = if *bits == 0 {
						None
					} else {
						Some((0..(u16::from(*bits) + 7) / 8).map(|i| i as u8 + 1).collect())
					};
					m.insert(
						t,
						ChannelInformation {
							channel_type: t,
							volume_adjustment: *v,
							bits_representing_peak: *bits,
							peak_volume: peak,
						},
					);
				}
				Frame::RelativeVolumeAdjustment(RelativeVolumeAdjustmentFrame::new(ident.get(), Cow::Owned(m)))
			},
			FrameSpec::Ufid { owner, id } => Frame::UniqueFileIdentifier(UniqueFileIdentifierFrame::new(owner.get(), id.get())),
			FrameSpec::Owne { enc: e, price, date, seller } => {
				Frame::Ownership(OwnershipFrame::new(enc(*e), price.get(), date.clone(), seller.get()))
			},
			FrameSpec::Etco { ms, ev } => {
				let f = if *ms { TimestampFormat::MS } else { TimestampFormat::MPEG };
				let v: Vec<Event> = ev
					.iter()
					.map(|(t, s)| Event {
						event_type: EVENTS[*t as usize % EVENTS.len()],
						timestamp: *s,
					})
					.collect();
				Frame::EventTimingCodes(EventTimingCodesFrame::new(f, Cow::Owned(v)))
			},
			FrameSpec::Priv { owner, d } => Frame::Private(PrivateFrame::new(owner.get(), d.get())),
			FrameSpec::Time { id, enc: e, t } => Frame::Timestamp(TimestampFrame::new(one_of(id, TIME_IDS), enc(*e), stamp(t))),
			FrameSpec::Genre { enc: e, list } => Frame::Text(TextInformationFrame::new(FrameId::new("TCON").unwrap(), enc(*e), list.join("\0"))),
			FrameSpec::Chap { id, a, kids } => Frame::Chapter(ChapterFrame::new(id.get(), a[0]..a[1], a[2]..a[3], list(kids))),
			FrameSpec::Ctoc { id, top, ord, entries, kids } => {
				let e: Vec<Cow<'static, str>> = entries.iter().map(|x| x.get().into()).collect();
				let fl = CtocFlags {
					top_level: *top,
					ordered: *ord,
				};
				Frame::TableOfContents(ChapterTableOfContentsFrame::new(id.get(), fl, Cow::Owned(e), list(kids)))
			},
			FrameSpec::Bin { d: Blob::Part { part }, .. } => Frame::Binary(BinaryFrame::new(fid(part.id()), part.bytes())),
			FrameSpec::Bin { id, d } => Frame::Binary(BinaryFrame::new(fid(id), d.get())),
			FrameSpec::Enc { id, d, method, group } => {
				let mut data = d.get();
				if data.is_empty() {
					data.push(1);
				}
				let flags = FrameFlags {
					encryption: Some((*method).max(0x81)),
					grouping_identity: *group,
					data_length_indicator: Some(data.len() as u32),
					..FrameFlags::default()
				};
				let mut fr = Frame::Binary(BinaryFrame::new(fid(id), data));
				fr.set_flags(flags);
				fr
			},
			FrameSpec::Odd { w } => odd(*w),
			FrameSpec::Flagged { fl, group, f } => {
				let mut fr = f.build();
				let mut flags = FrameFlags::default();
				flags.tag_alter_preservation = fl & 1 != 0;
				flags.file_alter_preservation = fl & 2 != 0;
				flags.read_only = fl & 4 != 0;
				if fl & 8 != 0 {
					flags.grouping_identity = Some(*group);
				}
				fr.set_flags(flags);
				fr
			},
		}
	}
}

/// Kinds of frames lofty refuses to write
pub const ODD: u8 = 12;

fn odd(w: u8) -> Frame<'static> {
	const WIDE: &str = "\u{65E5}\u{672C}";
	let l1 = TextEncoding::Latin1;
	match w % ODD {
		0 => Frame::Text(TextInformationFrame::new(fid("TIT2"), l1, WIDE)),
		1 => Frame::UserText(ExtendedTextFrame::new(l1, WIDE, "v")),
		2 => Frame::Comment(CommentFrame::new(TextEncoding::UTF8, [b'1', b' ', 0xFF], "d", "v")),
		3 => Frame::Ownership(OwnershipFrame::new(l1, "USD1", "12", "s")),
		4 => Frame::Url(UrlLinkFrame::new(fid("WCOM"), WIDE)),
		5 => Frame::KeyValue(KeyValueFrame::new(
			fid("TIPL"),
			l1,
			Cow::Owned(vec![(Cow::Borrowed("k"), Cow::Borrowed(WIDE))]),
		)),
		6 | 7 => {
			let mut fr = Frame::Binary(BinaryFrame::new(fid("XODD"), vec![1, 2, 3]));
			fr.set_flags(FrameFlags {
				encryption: Some(if w == 6 { 0x10 } else { 0x90 }),
				data_length_indicator: if w == 6 { Some(3) } else { None },
				..FrameFlags::default()
			});
			fr
		},
		8 => {
			let e: Vec<Cow<'static, str>> = (0..300).map(|i| format!("c{i}").into()).collect();
			Frame::TableOfContents(ChapterTableOfContentsFrame::new("toc", CtocFlags { top_level: false, ordered: false }, Cow::Owned(e), FrameList::new()))
		},
		9 => Frame::Chapter(ChapterFrame::new("ch", 0..1, 0..1, {
			let mut l = FrameList::new();
			l.insert(odd(0));
			l
		})),
		10 => Frame::Text(TextInformationFrame::new(fid("TIT2"), l1, "x\u{100}")),
		_ => Frame::UnsynchronizedText(UnsynchronizedTextFrame::new(l1, *b"eng", WIDE, "x")),
	}
}

fn list(k: &[FrameSpec]) -> FrameList<'static> {
	let mut l = FrameList::new();
	for f in k {
		l.insert(f.build());
	}
	l
}

pub const GENERIC_KEYS: &[ItemKey] = &[
	ItemKey::TrackTitle,
	ItemKey::TrackArtist,
	ItemKey::AlbumTitle,
	ItemKey::Comment,
	ItemKey::Genre,
	ItemKey::AlbumArtist,
	ItemKey::Composer,
	ItemKey::CopyrightMessage,
	ItemKey::EncodedBy,
	ItemKey::Label,
	ItemKey::Lyrics,
	ItemKey::Publisher,
	ItemKey::Conductor,
	ItemKey::Remixer,
	ItemKey::Isrc,
	ItemKey::TrackSubtitle,
];

fn is_zero(x: &u16) -> bool {
	*x == 0
}

fn head_flags(h: u16) -> Id3v2TagFlags {
	Id3v2TagFlags {
		crc: h & 1 != 0,
		footer: h & 2 != 0,
		experimental: h & 4 != 0,
		restrictions: (h & 8 != 0).then(|| TagRestrictions::from_byte((h >> 8) as u8)),
		..Id3v2TagFlags::default()
	}
}

/// The flags of a tag that say something about it
pub fn head_line(f: Id3v2TagFlags) -> Option<String> {
	let f = Id3v2TagFlags { unsynchronisation: false, ..f };
	(f != Id3v2TagFlags::default()).then(|| format!("HEAD crc={} footer={} exp={} {:?}", f.crc, f.footer, f.experimental, f.restrictions))
}

impl TagSpec {
	pub fn kind(&self) -> Kind {
		match self {
			TagSpec::Id3v2 { .. } => Kind::Id3v2,
			TagSpec::Id3v1 { .. } => Kind::Id3v1,
			TagSpec::Ape { .. } => Kind::Ape,
			TagSpec::Vorbis { .. } => Kind::Vorbis,
			TagSpec::Ilst { .. } => Kind::Ilst,
			TagSpec::Riff { .. } => Kind::Riff,
			TagSpec::Aiff { .. } => Kind::AiffText,
			TagSpec::Generic { kind, .. } => *kind,
		}
	}

	pub fn build(&self) -> AnyTag {
		match self {
			TagSpec::Id3v2 { frames, head } => {
				let mut t = Id3v2Tag::new();
				t.set_flags(head_flags(*head));
				let mut frames = frames.clone();
				// there is one top-level table of contents at most
				one_top(&mut frames, &mut false);
				// and one date of a kind: in ID3v2.3 they are taken apart and cannot be told from each other
				let mut dates = Vec::new();
				frames.retain(|f| first_date(f, &mut dates));
				for f in frames {
					t.insert(f.build());
				}
				AnyTag::Id3v2(t)
			},
			TagSpec::Id3v1 { title, artist, album, year, comment, track, genre } => {
				let mut t = Id3v1Tag::new();
				let g = |x: &Option<Txt>| x.as_ref().map(Txt::get);
				t.title = g(title);
				t.artist = g(artist);
				t.album = g(album);
				t.comment = g(comment);
				t.year = *year;
				t.track_number = *track;
				t.genre = *genre;
				AnyTag::Id3v1(t)
			},
			TagSpec::Ape { items, ro } => {
				let mut t = ApeTag::new();
				t.read_only = *ro;
				for i in items {
					let (key, v) = match &i.v {
						ApeVal::Text(x) => (i.key.clone(), ItemValue::Text(x.get())),
						ApeVal::Loc(x) => (i.key.clone(), ItemValue::Locator(x.get())),
						ApeVal::Bin(x) => (i.key.clone(), ItemValue::Binary(x.get())),
						ApeVal::Pic(p) => {
							let p = p.build();
							let k = p.pic_type().as_ape_key().unwrap_or("Cover Art (Other)").to_string();
							(k, ItemValue::Binary(p.as_ape_bytes()))
						},
					};
					if let Ok(mut it) = ApeItem::new(key, v) {
						it.read_only = i.ro;
						t.push(it);
					}
				}
				AnyTag::Ape(t)
			},
			TagSpec::Vorbis { vendor, items, pics } => {
				let mut t = VorbisComments::new();
				t.set_vendor(vendor.get());
				for (k, v) in items {
					t.push(k.clone(), v.get());
				}
				for p in pics {
					let _ = t.insert_picture(p.build(), Some(PictureInformation::default()));
				}
				AnyTag::Vorbis(t)
			},
			TagSpec::Ilst { atoms } => {
				let mut t = Ilst::new();
				for a in atoms {
					let id = match a.id.split_once(':') {
						Some((m, n)) => AtomIdent::Freeform {
							mean: Cow::Owned(m.to_string()),
							name: Cow::Owned(n.to_string()),
						},
						None => {
							let mut f = *b"XXXX";
							for (i, c) in a.id.chars().take(4).enumerate() {
								f[i] = c as u32 as u8;
							}
							AtomIdent::Fourcc(f)
						},
					};
					let mut data = Vec::new();
					for d in &a.data {
						data.push(match d {
							DataSpec::Utf8(s) => AtomData::UTF8(s.get()),
							DataSpec::Utf16(s) => AtomData::UTF16(s.get()),
							DataSpec::Int(i) => AtomData::SignedInteger(*i),
							DataSpec::Uint(i) => AtomData::UnsignedInteger(*i),
							DataSpec::Bool => AtomData::Bool(true),
							DataSpec::Raw(c, b) => AtomData::Unknown {
								code: DataType::from(*c),
								data: b.get(),
							},
							DataSpec::Pic(p) => {
								let mut p = p.build();
								p.set_pic_type(PictureType::Other);
								p.set_description(None);
								AtomData::Picture(p)
							},
						});
					}
					if let Some(a) = Atom::from_collection(id, data) {
						t.replace_atom(a);
					}
				}
				AnyTag::Ilst(t)
			},
			TagSpec::Riff { items } => {
				let mut t = RiffInfoList::new();
				for (k, v) in items {
					t.insert(k.clone(), v.get());
				}
				AnyTag::Riff(t)
			},
			TagSpec::Aiff { name, author, copyright, anno, comments } => {
				let g = |x: &Option<Txt>| x.as_ref().map(Txt::get);
				let mut t = AiffTextChunks::new();
				t.name = g(name);
				t.author = g(author);
				if let Some(c) = g(copyright) {
					t.set_copyright(c);
				}
				if !anno.is_empty() {
					t.annotations = Some(anno.iter().map(Txt::get).collect());
				}
				if !comments.is_empty() {
					t.comments = Some(
						comments
							.iter()
							.map(|(a, b, c)| AiffComment {
								timestamp: *a,
								marker_id: *b,
								text: c.get(),
							})
							.collect(),
					);
				}
				AnyTag::Aiff(t)
			},
			TagSpec::Generic { kind, items, pics } => {
				let mut t = Tag::new(kind_type(*kind).unwrap_or(TagType::Id3v2));
				for (k, v) in items {
					let key = GENERIC_KEYS[*k as usize % GENERIC_KEYS.len()];
					t.insert(TagItem::new(key, ItemValue::Text(v.get())));
				}
				for p in pics {
					t.push_picture(p.build());
				}
				AnyTag::Generic(t)
			},
		}
	}
}

// ---------------------------------------------------------------------------------------------
// tags as lofty values

#[derive(Clone)]
pub enum AnyTag {
	Id3v2(Id3v2Tag),
	Id3v1(Id3v1Tag),
	Ape(ApeTag),
	Vorbis(VorbisComments),
	Ilst(Ilst),
	Riff(RiffInfoList),
	Aiff(AiffTextChunks),
	Generic(Tag),
}

pub fn abbr(s: String) -> String {
	if s.len() <= 160 {
		return s;
	}
	let mut cut = 100;
	while !s.is_char_boundary(cut) {
		cut -= 1;
	}
	format!("{}...[{}:{:016x}]", &s[..cut], s.len(), hash_bytes(s.as_bytes()))
}

pub fn bin(d: &[u8]) -> String {
	format!("{}:{:016x}", d.len(), hash_bytes(d))
}

pub fn canon_pic(p: &Picture) -> String {
	format!(
		"pic {:?} {:?} {:?} {}",
		p.pic_type(),
		p.mime_type(),
		p.description().map(|d| abbr(d.to_string())),
		bin(p.data())
	)
}

/// What is left of frames once they were stored as ID3v2.3 and read again. The date frames of a tag
/// (and not those of a chapter) are put together again.
pub fn all_for_v23(all: Vec<Frame<'static>>, tag: bool) -> Vec<Frame<'static>> {
	let mut out = Vec::new();
	let mut people: Option<(TextEncoding, Vec<(String, String)>)> = None;
	let mut date = None;
	for f in all {
		if V24_ONLY.contains(&f.id_str()) {
			continue;
		}
		match for_v23(f) {
			Frame::KeyValue(k) => {
				let p = people.get_or_insert((k.encoding, Vec::new()));
				if p.0 == TextEncoding::Latin1 {
					p.0 = k.encoding;
				}
				p.1.extend(k.key_value_pairs.iter().map(|(a, b)| (a.to_string(), b.to_string())));
			},
			Frame::Timestamp(mut t) if t.id().as_str() == "TDOR" => {
				t.timestamp = Timestamp { year: t.timestamp.year, ..Timestamp::default() };
				out.push(Frame::Timestamp(t));
			},
			Frame::Timestamp(mut t) => {
				let s = t.timestamp;
				let day = s.month.zip(s.day);
				let time = s.hour.zip(s.minute);
				t.timestamp = Timestamp { year: s.year, ..Timestamp::default() };
				if !tag {
					let (e, flags) = (t.encoding, t.flags());
					out.push(Frame::Timestamp(t));
					for (id, v) in [("TDAT", day.map(|(m, d)| (d, m))), ("TIME", time)] {
						if let Some((a, b)) = v {
							let mut x = Frame::Text(TextInformationFrame::new(FrameId::new(id).unwrap(), e, format!("{a:02}{b:02}")));
							x.set_flags(flags);
							out.push(x);
						}
					}
					continue;
				}
				if let Some((m, d)) = day {
					t.timestamp.month = Some(m);
					t.timestamp.day = Some(d);
					if let Some((h, m)) = time {
						t.timestamp.hour = Some(h);
						t.timestamp.minute = Some(m);
					}
				}
				t.set_flags(FrameFlags::default());
				date = Some(Frame::Timestamp(t));
			},
			f => out.push(f),
		}
	}
	if let Some((e, kv)) = people {
		let kv: Vec<(Cow<'static, str>, Cow<'static, str>)> = kv.into_iter().map(|(a, b)| (a.into(), b.into())).collect();
		out.push(Frame::KeyValue(KeyValueFrame::new(FrameId::new("TIPL").unwrap(), e, Cow::Owned(kv))));
	}
	out.extend(date);
	out
}

/// The frames that came with ID3v2.4
const V24_ONLY: &[&str] = &[
	"ASPI", "EQU2", "RVA2", "SEEK", "SIGN", "TDEN", "TDRL", "TDTG", "TMOO", "TPRO", "TSOA", "TSOP", "TSOT", "TSST",
];

/// The frame with an encoding that ID3v2.3 has
pub fn for_v23(mut f: Frame<'static>) -> Frame<'static> {
	let e = match &mut f {
		Frame::Picture(p) => &mut p.encoding,
		Frame::Comment(c) => &mut c.encoding,
		Frame::UnsynchronizedText(c) => &mut c.encoding,
		Frame::Text(t) => &mut t.encoding,
		Frame::UserText(t) => &mut t.encoding,
		Frame::UserUrl(t) => &mut t.encoding,
		Frame::KeyValue(t) => &mut t.encoding,
		Frame::Timestamp(t) => &mut t.encoding,
		Frame::Ownership(o) => &mut o.encoding,
		Frame::Chapter(c) => {
			let all: Vec<_> = c.children.iter().cloned().collect();
			c.children.retain(|_| false);
			for k in all_for_v23(all, false) {
				c.children.insert(k);
			}
			return f;
		},
		Frame::TableOfContents(c) => {
			let all: Vec<_> = c.children.iter().cloned().collect();
			c.children.retain(|_| false);
			for k in all_for_v23(all, false) {
				c.children.insert(k);
			}
			return f;
		},
		_ => return f,
	};
	if matches!(e, TextEncoding::UTF8 | TextEncoding::UTF16BE) {
		*e = TextEncoding::UTF16;
	}
	f
}

pub fn canon_frame(f: &Frame<'_>) -> String {
	let flags = f.flags();
	let enc = flags.encryption.is_some();
	let head = format!(
		"{} {}{}{} g{:?} c{} e{:?} u{} d{:?}",
		f.id_str(),
		flags.tag_alter_preservation as u8,
		flags.file_alter_preservation as u8,
		flags.read_only as u8,
		flags.grouping_identity,
		// how an unencrypted frame was stored is not part of its content
		u8::from(enc && flags.compression),
		flags.encryption,
		0, // how it was stored
		enc && flags.data_length_indicator.is_some(),
	);
	let body = match f {
		Frame::Picture(p) => format!("{:?} {}", p.encoding, canon_pic(&p.picture)),
		Frame::Private(p) => format!("{} {}", p.owner, bin(&p.private_data)),
		Frame::UniqueFileIdentifier(p) => format!("{} {}", p.owner, bin(&p.identifier)),
		Frame::Binary(b) => format!("{}{}", bin(&b.data), crate::parts::view_of(f)),
		Frame::RelativeVolumeAdjustment(r) => {
			let mut v: Vec<String> = r.channels.values().map(|c| format!("{c:?}")).collect();
			v.sort();
			format!("{} {v:?}", r.identification)
		},
		Frame::Chapter(c) => {
			let k = kids(&c.children);
			format!("{} {:?} {:?} {k:?}", c.id, c.times, c.offsets)
		},
		Frame::TableOfContents(c) => {
			let k = kids(&c.children);
			format!("{} {:?} {:?} {k:?}", c.id, c.flags, c.entries)
		},
		Frame::Comment(c) => format!("{:?} {:?} {:?} {:?}", c.encoding, c.language, c.description, c.content),
		Frame::UnsynchronizedText(c) => format!("{:?} {:?} {:?} {:?}", c.encoding, c.language, c.description, c.content),
		// how several genres are put together depends on the version
		Frame::Text(t) if t.id().as_str() == "TCON" => format!("{:?} {:?}", t.encoding, genres(t)),
		Frame::Text(t) => format!("{:?} {:?}", t.encoding, t.value),
		Frame::UserText(t) => format!("{:?} {:?} {:?}", t.encoding, t.description, t.content),
		Frame::Url(t) => format!("{:?}", t.url()),
		Frame::UserUrl(t) => format!("{:?} {:?} {:?}", t.encoding, t.description, t.content),
		Frame::KeyValue(t) => format!("{:?} {:?}", t.encoding, t.key_value_pairs),
		Frame::Timestamp(t) => format!("{:?} {}", t.encoding, t.timestamp),
		Frame::Popularimeter(p) => format!("{} {} {}", p.email, p.rating, p.counter),
		Frame::Ownership(o) => format!("{:?} {:?} {:?} {:?}", o.encoding, o.price_paid, o.date_of_purchase, o.seller),
		Frame::EventTimingCodes(e) => format!("{:?} {:?}", e.timestamp_format, e.events),
		o => format!("{o:?}"),
	};
	abbr(format!("{head} | {body}"))
}

pub fn genres(f: &TextInformationFrame<'_>) -> Vec<String> {
	let mut t = Id3v2Tag::new();
	t.insert(Frame::Text(TextInformationFrame::new(FrameId::new("TCON").unwrap(), f.encoding, f.value.to_string())));
	t.genres().into_iter().flatten().map(str::to_string).collect()
}

thread_local! {
	static NO_NESTED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Tags are compared without the pictures of their chapters meanwhile
pub fn without_nested_pictures<R>(f: impl FnOnce() -> R) -> R {
	struct Off(bool);
	impl Drop for Off {
		fn drop(&mut self) {
			NO_NESTED.set(self.0);
		}
	}
	let _off = Off(NO_NESTED.replace(true));
	f()
}

fn kids(l: &FrameList<'_>) -> Vec<String> {
	let hide = NO_NESTED.get();
	l.iter().filter(|f| !hide || !matches!(f, Frame::Picture(_))).map(canon_frame).collect()
}

fn canon_value(v: &ItemValue) -> String {
	match v {
		ItemValue::Text(t) => abbr(format!("T {t:?}")),
		ItemValue::Locator(t) => abbr(format!("L {t:?}")),
		ItemValue::Binary(b) => format!("B {}", bin(b)),
	}
}

pub fn canon_generic(t: &Tag) -> Vec<String> {
	let mut v: Vec<String> = t
		.items()
		.map(|i| format!("{:?} {} {:?} {}", i.key(), i.description(), i.lang(), canon_value(i.value())))
		.collect();
	v.extend(t.pictures().iter().map(canon_pic));
	v
}

impl AnyTag {
	pub fn kind(&self) -> Option<Kind> {
		Some(match self {
			AnyTag::Id3v2(_) => Kind::Id3v2,
			AnyTag::Id3v1(_) => Kind::Id3v1,
			AnyTag::Ape(_) => Kind::Ape,
			AnyTag::Vorbis(_) => Kind::Vorbis,
			AnyTag::Ilst(_) => Kind::Ilst,
			AnyTag::Riff(_) => Kind::Riff,
			AnyTag::Aiff(_) => Kind::AiffText,
			AnyTag::Generic(t) => type_kind(t.tag_type())?,
		})
	}

	pub fn canon(&self) -> Vec<String> {
		match self {
			AnyTag::Id3v2(t) => {
				let s: &[Frame<'_>] = t;
				head_line(*t.flags()).into_iter().chain(s.iter().map(canon_frame)).collect()
			},
			AnyTag::Id3v1(t) => {
				let mut v = Vec::new();
				for (n, x) in [("title", &t.title), ("artist", &t.artist), ("album", &t.album), ("comment", &t.comment)] {
					if let Some(x) = x {
						v.push(format!("{n} {x:?}"));
					}
				}
				if let Some(y) = t.year {
					v.push(format!("year {y}"));
				}
				if let Some(y) = t.track_number {
					v.push(format!("track {y}"));
				}
				if let Some(y) = t.genre {
					v.push(format!("genre {y}"));
				}
				v
			},
			AnyTag::Ape(t) => t
				.read_only
				.then(|| "HEAD read only".into())
				.into_iter()
				.chain(t.into_iter().map(|i| format!("{} {} {}", i.key(), i.read_only, canon_value(i.value()))))
				.collect(),
			AnyTag::Vorbis(t) => {
				let mut v = vec![abbr(format!("vendor {:?}", t.vendor()))];
				v.extend(t.items().map(|(k, x)| abbr(format!("{k}={x:?}"))));
				v.extend(
					t.pictures()
						.iter()
						.map(|(p, i)| format!("{} {i:?}", canon_pic(p))),
				);
				v
			},
			AnyTag::Ilst(t) => t
				.into_iter()
				.filter_map(|a| {
					let d: Vec<String> = a
						.data()
						.filter_map(|d| match d {
							AtomData::Picture(p) => Some(canon_pic(p)),
							// a value without data holds nothing
							AtomData::Unknown { data, .. } if data.is_empty() => None,
							AtomData::UTF8(t) | AtomData::UTF16(t) if t.is_empty() => None,
							AtomData::Unknown { code, data } => Some(format!("{code:?} {}", bin(data))),
							d => Some(abbr(format!("{d:?}"))),
						})
						.collect();
					(!d.is_empty()).then(|| format!("{:?} {d:?}", a.ident()))
				})
				.collect(),
			AnyTag::Riff(t) => t.into_iter().map(|(k, v)| abbr(format!("{k}={v:?}"))).collect(),
			AnyTag::Aiff(t) => {
				let mut v = Vec::new();
				for (n, x) in [("name", t.name.as_deref()), ("author", t.author.as_deref()), ("copyright", t.copyright())] {
					if let Some(x) = x {
						v.push(abbr(format!("{n} {x:?}")));
					}
				}
				for a in t.annotations.iter().flatten() {
					v.push(abbr(format!("anno {a:?}")));
				}
				for c in t.comments.iter().flatten() {
					v.push(abbr(format!("comment {} {} {:?}", c.timestamp, c.marker_id, c.text)));
				}
				v
			},
			AnyTag::Generic(t) => canon_generic(t),
		}
	}

	/// The content of a tag that went through lofty's format-independent tag: its generic items, and the
	/// frames that have no generic counterpart
	pub fn loose(&self) -> Vec<String> {
		use lofty::tag::SplitTag;
		let mut v = match self.concrete() {
			AnyTag::Id3v2(t) => {
				let (rest, g) = t.split_tag();
				let mut v: Vec<String> = rest.iter().map(canon_frame).collect();
				v.extend(canon_generic(&g));
				v
			},
			t => t.canon(),
		};
		v.sort();
		v
	}

	/// The format's own tag that a generic tag is stored as
	pub fn concrete(&self) -> AnyTag {
		match self {
			AnyTag::Generic(t) => {
				let c = t.clone();
				match t.tag_type() {
					TagType::Id3v2 => AnyTag::Id3v2(c.into()),
					TagType::Id3v1 => AnyTag::Id3v1(c.into()),
					TagType::Ape => AnyTag::Ape(c.into()),
					TagType::VorbisComments => {
						let pics = c.pictures().to_vec();
						let mut v: VorbisComments = c.into();
						// pictures whose dimensions cannot be told are written all the same
						if v.pictures().len() < pics.len() {
							while !v.pictures().is_empty() {
								v.remove_picture(0);
							}
							for p in pics {
								let i = PictureInformation::from_picture(&p).unwrap_or_default();
								let _ = v.insert_picture(p, Some(i));
							}
						}
						AnyTag::Vorbis(v)
					},
					TagType::Mp4Ilst => AnyTag::Ilst(c.into()),
					TagType::RiffInfo => AnyTag::Riff(c.into()),
					TagType::AiffText => AnyTag::Aiff(c.into()),
					_ => self.clone(),
				}
			},
			o => o.clone(),
		}
	}

	pub fn to_generic(&self) -> Tag {
		match self.clone() {
			AnyTag::Id3v2(t) => t.into(),
			AnyTag::Id3v1(t) => t.into(),
			AnyTag::Ape(t) => t.into(),
			AnyTag::Vorbis(t) => t.into(),
			AnyTag::Ilst(t) => t.into(),
			AnyTag::Riff(t) => t.into(),
			AnyTag::Aiff(t) => t.into(),
			AnyTag::Generic(t) => t,
		}
	}

	pub fn is_empty(&self) -> bool {
		match self {
			AnyTag::Id3v2(t) => t.is_empty(),
			AnyTag::Id3v1(t) => t.is_empty(),
			AnyTag::Ape(t) => t.is_empty(),
			AnyTag::Vorbis(t) => t.is_empty(),
			AnyTag::Ilst(t) => t.is_empty(),
			AnyTag::Riff(t) => t.is_empty(),
			AnyTag::Aiff(t) => t.is_empty(),
			AnyTag::Generic(t) => t.is_empty(),
		}
	}

	pub fn save_to<F: lofty::io::FileLike>(&self, f: &mut F, o: WriteOptions) -> Result<(), FileEncodingError> {
		match self {
			AnyTag::Id3v2(t) => t.save_to(f, o),
			AnyTag::Id3v1(t) => t.save_to(f, o),
			AnyTag::Ape(t) => t.save_to(f, o),
			AnyTag::Vorbis(t) => t.save_to(f, o),
			AnyTag::Ilst(t) => t.save_to(f, o),
			AnyTag::Riff(t) => t.save_to(f, o),
			AnyTag::Aiff(t) => t.save_to(f, o),
			AnyTag::Generic(t) => t.save_to(f, o),
		}
	}

	pub fn dump_to(&self, w: &mut Vec<u8>, o: WriteOptions) -> Result<(), String> {
		let r = match self {
			AnyTag::Id3v2(t) => t.dump_to(w, o).map_err(|e| format!("{e:?}")),
			AnyTag::Id3v1(t) => t.dump_to(w, o).map_err(|e| format!("{e:?}")),
			AnyTag::Ape(t) => t.dump_to(w, o).map_err(|e| format!("{e:?}")),
			AnyTag::Vorbis(t) => t.dump_to(w, o).map_err(|e| format!("{e:?}")),
			AnyTag::Ilst(t) => t.dump_to(w, o).map_err(|e| format!("{e:?}")),
			AnyTag::Riff(t) => t.dump_to(w, o).map_err(|e| format!("{e:?}")),
			AnyTag::Aiff(t) => t.dump_to(w, o).map_err(|e| format!("{e:?}")),
			AnyTag::Generic(t) => t.dump_to(w, o).map_err(|e| format!("{e:?}")),
		};
		r.map(|_| ())
	}

	pub fn set_title(&mut self, s: String) {
		match self {
			AnyTag::Id3v2(t) => t.set_title(s),
			AnyTag::Id3v1(t) => t.set_title(s),
			AnyTag::Ape(t) => t.set_title(s),
			AnyTag::Vorbis(t) => t.set_title(s),
			AnyTag::Ilst(t) => t.set_title(s),
			AnyTag::Riff(t) => t.set_title(s),
			AnyTag::Aiff(t) => t.set_title(s),
			AnyTag::Generic(t) => t.set_title(s),
		}
	}

	pub fn clear(&mut self) {
		match self {
			AnyTag::Id3v2(t) => t.clear(),
			AnyTag::Id3v1(t) => t.clear(),
			AnyTag::Ape(t) => t.clear(),
			AnyTag::Vorbis(t) => t.clear(),
			AnyTag::Ilst(t) => t.clear(),
			AnyTag::Riff(t) => t.clear(),
			AnyTag::Aiff(t) => t.clear(),
			AnyTag::Generic(t) => t.clear(),
		}
	}
}

// ---------------------------------------------------------------------------------------------
// generators

pub struct GenOpts {
	pub v23: bool,
	/// Upper bound for big values
	pub big: u32,
}

fn txt(r: &mut Rng, g: &GenOpts, c: u8) -> Txt {
	let n = 1 + r.size(u64::from(g.big), &[1, 29, 30, 31, 126, 127, 128, 254, 255, 256, 1023, 1024, 4096]) as u32;
	txt_n(r, n, c)
}

fn multi(r: &mut Rng, g: &GenOpts, c: u8) -> Txt {
	let mut m: Vec<Txt> = (0..1 + r.below(3)).map(|_| short(r, c)).collect();
	m.insert(r.usize(m.len() + 1), txt(r, g, c));
	Txt::Multi { m }
}

fn txt_n(r: &mut Rng, n: u32, c: u8) -> Txt {
	if r.chance(1, 12) {
		return Txt::Lit((*r.pick(&["a", "APETAGEX", "Tag", "ID3", "LYRICS200", "3DI", "x=y", "100%"])).to_string());
	}
	Txt::Gen { g: r.below(1 << 20), n, c }
}

fn short(r: &mut Rng, c: u8) -> Txt {
	let n = 1 + r.below(20) as u32;
	Txt::Gen { g: r.below(1 << 20), n, c }
}

fn blob(r: &mut Rng, g: &GenOpts) -> Blob {
	Blob::Gen {
		b: r.below(1 << 20),
		n: r.size(u64::from(g.big), &[0, 1, 127, 128, 255, 256, 1024]) as u32,
		k: r.below(3) as u8,
	}
}

pub fn pic(r: &mut Rng, g: &GenOpts, cls: Option<u8>) -> PicSpec {
	PicSpec {
		mime: r.below(4) as u8,
		ty: r.below(21) as u8,
		desc: match cls {
			Some(c) if r.chance(1, 2) => Some(short(r, c)),
			_ => None,
		},
		data: blob(r, g),
	}
}

/// Encoding and the character class it can represent
fn enc_for(r: &mut Rng, _: &GenOpts) -> (u8, u8) {
	match r.below(4) {
		0 => (0, r.below(2) as u8),
		1 => (1, r.below(4) as u8),
		2 => (2, r.below(4) as u8),
		_ => (3, r.below(4) as u8),
	}
}

pub fn gen_frame(r: &mut Rng, g: &GenOpts, depth: u32) -> FrameSpec {
	let (e, c) = enc_for(r, g);
	let langs = ["eng", "deu", "XXX", "fra"];
	let f = match r.below(if depth < 2 { 22 } else { 9 }) {
		0..=3 => FrameSpec::Text {
			id: (*r.pick(TEXT_IDS)).into(),
			enc: e,
			v: if r.chance(1, 6) { multi(r, g, c) } else { txt(r, g, c) },
		},
		4 => FrameSpec::UserText { enc: e, d: short(r, c), v: if r.chance(1, 8) { multi(r, g, c) } else { txt(r, g, c) } },
		5 => FrameSpec::Url {
			id: (*r.pick(URL_IDS)).into(),
			v: txt(r, g, 0),
		},
		6 => FrameSpec::UserUrl { enc: e, d: short(r, c), v: txt(r, g, 0) },
		7 => FrameSpec::Comment { enc: e, lang: (*r.pick(&langs)).into(), d: short(r, c), v: txt(r, g, c) },
		8 => FrameSpec::Priv { owner: short(r, 0), d: blob(r, g) },
		9 => FrameSpec::Lyrics { enc: e, lang: (*r.pick(&langs)).into(), d: short(r, c), v: txt(r, g, c) },
		10 | 11 => FrameSpec::Pic { enc: e, p: pic(r, g, Some(c)) },
		12 => FrameSpec::Popm { email: short(r, 0), rating: r.below(256) as u8, counter: [0, 1, 255, 256, 1 << 32, u64::MAX][r.usize(6)] },
		13 => FrameSpec::KeyValue {
			id: (*r.pick(KV_IDS)).into(),
			enc: e,
			kv: (0..1 + r.below(3)).map(|_| (short(r, c), short(r, c))).collect(),
		},
		14 => FrameSpec::Rva2 {
			ident: short(r, 0),
			ch: {
				let n = 1 + r.below(4);
				(0..n)
					.map(|_| (r.below(9) as u8, r.u64() as i16, *r.pick(&[0u8, 8, 16, 24])))
					.collect()
			},
		},
		15 => FrameSpec::Ufid { owner: short(r, 0), id: Blob::Gen { b: r.below(1 << 20), n: r.below(64) as u32, k: 1 } },
		16 => FrameSpec::Time {
			id: (*r.pick(TIME_IDS)).into(),
			enc: e,
			t: {
				let n = 1 + r.usize(6);
				let full = [
					1000 + r.below(9000) as u16,
					1 + r.below(12) as u16,
					1 + r.below(28) as u16,
					r.below(24) as u16,
					r.below(60) as u16,
					r.below(60) as u16,
				];
				full[..n].to_vec()
			},
		},
		20 | 21 => FrameSpec::Genre {
			enc: e,
			list: {
				const G: [&str; 12] = ["Rock", "17", "RX", "CR", "Ambient dub", "0", "191", "Hip-Hop", "200", "R", "999", "Jazz+Funk"];
				(0..1 + r.below(4)).map(|_| (*r.pick(&G)).to_string()).collect()
			},
		},
		17 if depth < 2 => FrameSpec::Chap {
			id: short(r, 0),
			a: [r.u64() as u32, r.u64() as u32, u32::MAX, u32::MAX],
			kids: (0..r.below(3)).map(|_| gen_frame(r, g, depth + 1)).collect(),
		},
		18 if depth < 2 => FrameSpec::Ctoc {
			id: short(r, 0),
			top: r.chance(1, 2),
			ord: r.chance(1, 2),
			entries: (0..r.below(4)).map(|_| short(r, 0)).collect(),
			kids: (0..r.below(3)).map(|_| gen_frame(r, g, depth + 1)).collect(),
		},
		19 => match r.below(5) {
			0 => FrameSpec::Owne { enc: e, price: Txt::Lit("USD9.99".into()), date: "20240131".into(), seller: short(r, c) },
			1 => FrameSpec::Etco {
				ms: r.chance(1, 2),
				ev: (0..1 + r.below(3)).map(|i| (1 + r.below(5) as u8, i as u32 * 1000)).collect(),
			},
			_ if r.chance(2, 3) => {
				let part = crate::parts::generate(r, e, c);
				FrameSpec::Bin { id: part.id().into(), d: Blob::Part { part: Box::new(part) } }
			},
			_ => FrameSpec::Bin { id: (*r.pick(&["MCDI", "XYZW", "SYLT", "GEOB", "PCNT", "AENC"])).into(), d: Blob::Gen { b: r.below(1 << 20), n: 1 + r.below(200) as u32, k: r.below(2) as u8 } },
		},
		_ => FrameSpec::Bin {
			id: (*r.pick(&["XYZW", "XABC"])).into(),
			d: Blob::Gen { b: r.below(1 << 20), n: 1 + r.size(u64::from(g.big), &[1, 128, 256]) as u32, k: r.below(3) as u8 },
		},
	};
	if depth == 0 && r.chance(1, 25) {
		return FrameSpec::Enc {
			id: (*r.pick(&["TIT2", "XENC", "PRIV", "APIC", "COMM", "TXXX"])).into(),
			d: Blob::Gen { b: r.below(1 << 20), n: 1 + r.size(u64::from(g.big).min(3000), &[1, 127, 128, 256]) as u32, k: r.below(3) as u8 },
			method: 0x81 + r.below(0x70) as u8,
			group: if r.chance(1, 2) { Some(0x80 + r.below(0x70) as u8) } else { None },
		};
	}
	if depth == 0 && r.chance(1, 8) {
		return FrameSpec::Flagged { fl: r.below(16) as u8, group: 0x80 + r.below(0x70) as u8, f: Box::new(f) };
	}
	f
}

pub fn gen_generic(r: &mut Rng, k: Kind, g: &GenOpts) -> TagSpec {
	let mut items = Vec::new();
	let n = 1 + r.below(4);
	for _ in 0..n {
		let (key, t) = match k {
			Kind::Id3v1 => (r.below(4) as u8, {
				let n = 1 + r.below(28) as u32;
				Txt::Gen { g: r.below(1 << 20), n, c: 0 }
			}),
			Kind::AiffText => (*r.pick(&[0u8, 1, 3]), txt(r, g, 0)),
			Kind::Riff => (r.below(5) as u8, txt(r, g, 3)),
			_ => (r.below(GENERIC_KEYS.len() as u64) as u8, txt(r, g, 3)),
		};
		if items.iter().all(|(x, _)| *x != key) {
			items.push((key, t));
		}
	}
	let mut pics = Vec::new();
	if matches!(k, Kind::Id3v2 | Kind::Ape | Kind::Vorbis | Kind::Ilst) && r.chance(1, 4) {
		pics.push(pic(r, g, if k == Kind::Id3v2 { Some(3) } else { None }));
	}
	TagSpec::Generic { kind: k, items, pics }
}

pub fn gen_tag(r: &mut Rng, k: Kind, g: &GenOpts) -> TagSpec {
	match k {
		Kind::Id3v2 => {
			let n = 1 + r.below(6);
			let head = match r.below(6) {
				0 => r.below(16) as u16 | (r.below(256) as u16) << 8,
				_ => 0,
			};
			TagSpec::Id3v2 { frames: (0..n).map(|_| gen_frame(r, g, 0)).collect(), head }
		},
		Kind::Id3v1 => {
			let mut t = |max: u64| -> Option<Txt> {
				if r.chance(2, 3) {
					let n = 1 + r.below(max) as u32;
					let c = r.below(2) as u8;
					Some(Txt::Gen { g: r.below(1 << 20), n, c })
				} else {
					None
				}
			};
			let (title, artist, album, comment) = (t(30), t(30), t(30), t(28));
			let mut s = TagSpec::Id3v1 {
				title,
				artist,
				album,
				comment,
				year: if r.chance(1, 2) { Some(1000 + r.below(9000) as u16) } else { None },
				track: if r.chance(1, 2) { Some(1 + r.below(255) as u8) } else { None },
				genre: if r.chance(1, 2) { Some(r.below(192) as u8) } else { None },
			};
			if s.build().is_empty() {
				if let TagSpec::Id3v1 { title, .. } = &mut s {
					*title = Some(Txt::Lit("t".into()));
				}
			}
			s
		},
		Kind::Ape => {
			let keys = ["Title", "Artist", "Album", "Comment", "Genre", "Catalog", "My Key", "zz", "Year", "Track"];
			let mut items: Vec<ApeSpec> = Vec::new();
			for _ in 0..1 + r.below(5) {
				let key = (*r.pick(&keys)).to_string();
				let v = match r.below(8) {
					0 => ApeVal::Bin(blob(r, g)),
					1 => ApeVal::Loc(txt(r, g, 0)),
					2 => ApeVal::Pic(pic(r, g, Some(0))),
					3 => ApeVal::Text(multi(r, g, 3)),
					_ => ApeVal::Text(txt(r, g, 3)),
				};
				let clash = |i: &ApeSpec| match (&i.v, &v) {
					(ApeVal::Pic(a), ApeVal::Pic(b)) => a.ty % 21 == b.ty % 21,
					(ApeVal::Pic(_), _) | (_, ApeVal::Pic(_)) => false,
					_ => i.key == key,
				};
				if items.iter().any(clash) {
					continue;
				}
				// numbers are interpreted by the reader: keep them numeric
				let v = match (key.as_str(), v) {
					("Year", ApeVal::Text(_)) => ApeVal::Text(Txt::Lit("1999".into())),
					("Track", ApeVal::Text(_)) => ApeVal::Text(Txt::Lit("3/12".into())),
					(_, v) => v,
				};
				items.push(ApeSpec { key, v, ro: r.chance(1, 10) });
			}
			TagSpec::Ape { items, ro: r.chance(1, 8) }
		},
		Kind::Vorbis => {
			let keys = ["TITLE", "ARTIST", "ALBUM", "COMMENT", "X", "MY KEY", "zz<>", "GENRE"];
			TagSpec::Vorbis {
				vendor: short(r, 3),
				items: (0..r.below(6) + 1).map(|_| ((*r.pick(&keys)).to_string(), txt(r, g, 3))).collect(),
				pics: if r.chance(1, 3) { (0..1 + r.below(2)).map(|_| pic(r, g, Some(3))).collect() } else { Vec::new() },
			}
		},
		Kind::Ilst => {
			let mut atoms: Vec<AtomSpec> = Vec::new();
			for _ in 0..1 + r.below(5) {
				let (id, data) = match r.below(10) {
					0 => ("covr".to_string(), {
						let n = 1 + r.below(3);
						(0..n).map(|_| DataSpec::Pic(pic(r, g, None))).collect()
					}),
					1 => {
						let n = 1 + r.below(20) as u32;
						let c = *r.pick(&[0, 0, 1, 3]);
						let s = Txt::Gen { g: r.below(1 << 20), n, c }.get().replace(':', "_");
						(format!("com.apple.iTunes:{s}"), vec![DataSpec::Utf8(txt(r, g, 3))])
					},
					2 => ((*r.pick(&["cpil", "pgap", "pcst", "hdvd", "shwm"])).to_string(), vec![DataSpec::Bool]),
					3 => {
						let (n, t) = *r.pick(&[(3, 9), (3, 9), (1, 0), (0, 12), (255, 256), (65535, 65535)]);
						let disk = r.chance(1, 3);
						let end = if disk && r.chance(1, 2) { "" } else { "0000" };
						((if disk { "disk" } else { "trkn" }).to_string(), vec![DataSpec::Raw(0, Blob::Hex(format!("0000{n:04x}{t:04x}{end}")))])
					},
					4 => ("tmpo".to_string(), vec![DataSpec::Int(*r.pick(&[0, 1, 127, 128, 255, 256, -1, -300, i32::MIN, i32::MAX]))]),
					5 => ("xuin".to_string(), vec![DataSpec::Uint(*r.pick(&[0, 1, 255, 256, 65535, 65536, 1 << 24, u32::MAX]))]),
					6 => ("xraw".to_string(), vec![DataSpec::Raw(*r.pick(&[0, 23, 24, 65, 74]), Blob::Gen { b: r.below(1 << 20), n: 1 + r.size(u64::from(g.big), &[]) as u32, k: 0 })]),
					7 => ("\u{a9}grp".to_string(), vec![DataSpec::Utf16(txt(r, g, 3))]),
					_ => (
						(*r.pick(&["\u{a9}nam", "\u{a9}ART", "\u{a9}alb", "\u{a9}cmt", "aART", "\u{a9}gen", "desc"])).to_string(),
						{
							let n = if r.chance(1, 5) { 2 } else { 1 };
							(0..n).map(|_| DataSpec::Utf8(txt(r, g, 3))).collect()
						},
					),
				};
				if atoms.iter().all(|a| a.id != id) {
					atoms.push(AtomSpec { id, data });
				}
			}
			TagSpec::Ilst { atoms }
		},
		Kind::Riff => {
			let keys = ["INAM", "IART", "IPRD", "ICMT", "IGNR", "ICRD", "ISFT", "ZZZZ"];
			TagSpec::Riff {
				items: (0..1 + r.below(5)).map(|_| ((*r.pick(&keys)).to_string(), txt(r, g, 3))).collect(),
			}
		},
		_ => {
			let cap = GenOpts { v23: false, big: g.big.min(3000) };
			TagSpec::Aiff {
				name: if r.chance(2, 3) { Some(txt(r, &cap, 0)) } else { None },
				author: if r.chance(1, 2) { Some(txt(r, &cap, 3)) } else { None },
				copyright: if r.chance(1, 2) { Some(txt(r, &cap, 0)) } else { None },
				anno: (0..r.below(3)).map(|_| txt(r, &cap, 3)).collect(),
				comments: (0..r.below(3) + u64::from(r.chance(1, 20))).map(|i| (r.u64() as u32, i as u16, txt(r, &cap, 0))).collect(),
			}
		},
	}
}

/// A tag that is certainly not empty
pub fn gen_nonempty(r: &mut Rng, k: Kind, g: &GenOpts) -> TagSpec {
	for _ in 0..8 {
		let t = if r.chance(1, 4) { gen_generic(r, k, g) } else { gen_tag(r, k, g) };
		if !t.build().concrete().is_empty() {
			return t;
		}
	}
	gen_generic(r, k, g)
}

/// Whether this is no second date of its kind
pub fn first_date(f: &FrameSpec, seen: &mut Vec<String>) -> bool {
	match f {
		FrameSpec::Flagged { f, .. } => first_date(f, seen),
		FrameSpec::Time { id, .. } => {
			let id = one_of(id, TIME_IDS).as_str().to_string();
			let new = !seen.contains(&id);
			seen.push(id);
			new
		},
		_ => true,
	}
}

pub fn one_top(frames: &mut [FrameSpec], seen: &mut bool) {
	for f in frames {
		match f {
			FrameSpec::Ctoc { top, kids, .. } => {
				*top &= !*seen;
				*seen |= *top;
				one_top(kids, seen);
			},
			FrameSpec::Chap { kids, .. } => one_top(kids, seen),
			FrameSpec::Flagged { f, .. } => one_top(std::slice::from_mut(&mut **f), seen),
			_ => {},
		}
	}
}

/// Whether a canonical line stands for a picture
pub fn picture_line(l: &str) -> bool {
	l.starts_with("pic ")
		|| l.starts_with("APIC ")
		|| l.starts_with("PIC ")
		|| l.starts_with("Cover Art (")
		|| l.starts_with("Fourcc([99, 111, 118, 114])")
}
