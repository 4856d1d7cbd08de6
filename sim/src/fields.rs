//! Editing one field of a tag acts on that field only (C23).
//!
//! Histories of edits of files that other programs tagged: fields are set and removed through every kind of tag,
//! items are pushed, inserted and removed, in between the files are saved and opened again. The reference is what
//! the editing methods say they do: a field has the value just set, all others have what they had.

use crate::disk::{Noise, Plan, SimDisk};
use crate::dissect::Kind;
use crate::encode::{Foreign, gen_foreign};
use crate::engine::*;
use crate::files::{AnyFile, POpts, WOpts, file_type};
use crate::generic::{facts, regular};
use crate::hist::{gen_noise, gen_wopts};
use crate::media::{ALL_FMTS, Fmt};
use crate::prop::Ctx;
use crate::rng::Rng;
use crate::run::catch;
use crate::stats;
use crate::tags::{AnyTag, GenOpts, PicSpec, Txt, canon_generic, canon_pic, kind_type, pic, picture_line, writable};
use lofty::ogg::OggPictureStorage;
use lofty::picture::{PictureInformation, PictureType};
use lofty::ape::ApeItem;
use lofty::file::{AudioFile, TaggedFileExt};
use lofty::id3::v1::GENRES;
use lofty::id3::v2::{Frame, FrameId, TextInformationFrame};
use lofty::TextEncoding;
use lofty::mp4::{Atom, AtomData, AtomIdent};
use lofty::probe::Probe;
use lofty::tag::items::Timestamp;
use lofty::tag::{Accessor, ItemKey, ItemValue, MergeTag, SplitTag, Tag, TagItem};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::io::{Seek, SeekFrom};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Field {
	Title,
	Artist,
	Album,
	Genre,
	Comment,
	Track,
	TrackTotal,
	Disk,
	DiskTotal,
	Date,
}
use Field::*;

pub const FIELDS: [Field; 10] = [Title, Artist, Album, Genre, Comment, Track, TrackTotal, Disk, DiskTotal, Date];

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Way {
	/// the file's own tag, saved on its own
	Tag,
	/// the file's own tag, put back into the file
	File,
	/// `SplitTag` / `MergeTag`
	Split,
	Tagged,
	Bound,
}

impl Way {
	fn generic(self) -> bool {
		!matches!(self, Way::Tag | Way::File)
	}
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Edit {
	Set { f: Field, t: Txt, n: u32 },
	Remove { f: Field },
	/// items of the kind's own: which key, in which spelling, and what to do (0 push, 1 insert, 2 remove)
	Item { k: u8, upper: bool, how: u8, t: Txt },
	/// pictures: 0 insert, 1 insert and look at the image, 2 replace, 3 remove the type, 4 remove one, 5 remove all
	Pic { how: u8, i: u8, p: PicSpec },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Session {
	pub way: Way,
	pub edits: Vec<Edit>,
	pub o: WOpts,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fields {
	pub f: Foreign,
	pub kind: Kind,
	pub sessions: Vec<Session>,
}

// ------------------------------------------------------------------------------------------------
// generator

pub fn gen_fields(r: &mut Rng) -> Fields {
	loop {
		let big = *r.pick(&[20, 300, 3000]);
		let mut f = gen_foreign(r, ALL_FMTS, big);
		for (t, l) in &mut f.tags {
			regular(r, t);
			l.frames.clear();
		}
		let kinds: Vec<Kind> = f
			.tags
			.iter()
			.filter(|t| !t.0.build().is_empty())
			.map(|t| t.0.kind())
			.filter(|k| *k != Kind::Lyrics3 && writable(f.fmt).contains(k))
			.collect();
		if kinds.is_empty() {
			continue;
		}
		let kind = *r.pick(&kinds);
		let whole = f.tags.iter().all(|t| writable(f.fmt).contains(&t.0.kind()));
		let fmt = f.fmt;
		let sessions = (0..1 + r.below(3)).map(|_| gen_session(r, fmt, kind, whole)).collect();
		return Fields { f, kind, sessions };
	}
}

fn gen_session(r: &mut Rng, fmt: Fmt, kind: Kind, whole: bool) -> Session {
	// only these two keep what has no generic counterpart, unless the tag is split
	let kept = matches!(kind, Kind::Id3v2 | Kind::Ilst);
	let way = match r.below(10) {
		0..=2 => Way::Tag,
		3 | 4 => Way::File,
		5 | 6 => Way::Split,
		_ if !kept => Way::Split,
		7 | 8 => Way::Tagged,
		_ => Way::Bound,
	};
	// files cannot be saved as a whole when they hold tags that cannot be written
	let pics = kind == Kind::Id3v2 || kind == Kind::Ilst || (kind == Kind::Vorbis && fmt != Fmt::Flac);
	let way = if way == Way::File && !whole { Way::Tag } else { way };
	let mut o = gen_wopts(r, None);
	// what the older version loses is part of C08
	o.v23 = false;
	Session {
		way,
		edits: (0..1 + r.below(5)).map(|_| if pics && r.chance(1, 6) { gen_pic(r, way) } else { gen_edit(r, kind) }).collect(),
		o,
		noise: if r.chance(1, 3) { Some(gen_noise(r)) } else { None },
	}
}

fn has(kind: Kind, f: Field) -> bool {
	match kind {
		Kind::Id3v1 => !matches!(f, TrackTotal | Disk | DiskTotal),
		Kind::Riff => !matches!(f, Disk | DiskTotal),
		Kind::AiffText => matches!(f, Title | Artist | Comment),
		_ => true,
	}
}

fn gen_edit(r: &mut Rng, kind: Kind) -> Edit {
	if r.chance(1, 3) && !matches!(kind, Kind::Id3v1 | Kind::AiffText) {
		return Edit::Item { k: r.below(64) as u8, upper: r.chance(1, 2), how: r.below(3) as u8, t: word(r, 300) };
	}
	let f = loop {
		let f = *r.pick(&FIELDS);
		if has(kind, f) {
			break f;
		}
	};
	if r.chance(1, 4) {
		return Edit::Remove { f };
	}
	let most = if kind == Kind::Id3v1 { 28 } else { *r.pick(&[20, 200, 3000]) };
	let n = match r.below(4) {
		0 if kind != Kind::Id3v1 => 1 + r.below(65_535) as u32,
		1 => 1 + r.below(12) as u32,
		_ => 1 + r.below(255) as u32,
	};
	Edit::Set { f, t: word(r, most), n }
}

fn gen_pic(r: &mut Rng, way: Way) -> Edit {
	let g = GenOpts { v23: false, big: *r.pick(&[20, 300, 3000]) };
	let mut p = pic(r, &g, Some(0));
	// the first of these can only be there once in a tag
	let few: &[u8] = if way.generic() { &[3, 4, 0, 20] } else { &[1, 2, 3, 4, 0] };
	if way.generic() || r.chance(2, 3) {
		p.ty = *r.pick(few);
	}
	Edit::Pic { how: r.below(7) as u8, i: r.below(4) as u8, p }
}

fn word(r: &mut Rng, most: u32) -> Txt {
	Txt::Gen { g: r.below(1 << 20), n: 1 + r.size(u64::from(most) - 1, &[1, 27, 127, 255, 256]).min(u64::from(most) - 1) as u32, c: 0 }
}

// ------------------------------------------------------------------------------------------------
// the reference

fn text(kind: Kind, f: Field, t: &Txt) -> String {
	match f {
		Genre if kind == Kind::Id3v1 => GENRES[t.get().len() % GENRES.len()].to_string(),
		// genres that are numbers stand for the names of ID3v1
		Genre => format!("Genre {}", t.get()),
		_ => t.get(),
	}
}

fn stamp(kind: Kind, n: u32) -> Timestamp {
	let mut t = Timestamp { year: 1000 + (n % 3000) as u16, ..Timestamp::default() };
	let depth = if kind == Kind::Id3v1 { 0 } else { n % 6 };
	let part = |i: u32, of: u32| (depth >= i).then_some(((n / 7 + i * 5) % of) as u8);
	t.month = part(1, 12).map(|x| x + 1);
	t.day = part(2, 28).map(|x| x + 1);
	t.hour = part(3, 24);
	t.minute = part(4, 60);
	t.second = part(5, 60);
	t
}

fn set(t: &mut dyn Accessor, kind: Kind, f: Field, s: &Txt, n: u32) -> String {
	let s = text(kind, f, s);
	match f {
		Title => t.set_title(s.clone()),
		Artist => t.set_artist(s.clone()),
		Album => t.set_album(s.clone()),
		Genre => t.set_genre(s.clone()),
		Comment => t.set_comment(s.clone()),
		Track => t.set_track(n),
		TrackTotal => t.set_track_total(n),
		Disk => t.set_disk(n),
		DiskTotal => t.set_disk_total(n),
		Date => t.set_date(stamp(kind, n)),
	}
	match f {
		Track | TrackTotal | Disk | DiskTotal => n.to_string(),
		Date => stamp(kind, n).to_string(),
		_ => s,
	}
}

fn remove(t: &mut dyn Accessor, f: Field) {
	match f {
		Title => t.remove_title(),
		Artist => t.remove_artist(),
		Album => t.remove_album(),
		Genre => t.remove_genre(),
		Comment => t.remove_comment(),
		Track => t.remove_track(),
		TrackTotal => t.remove_track_total(),
		Disk => t.remove_disk(),
		DiskTotal => t.remove_disk_total(),
		Date => t.remove_date(),
	}
}

fn get(t: &dyn Accessor, f: Field) -> Option<String> {
	// a zero stands for the number that is missing where both are stored in one item
	let num = |x: Option<u32>| x.filter(|n| *n > 0).map(|n| n.to_string());
	// which separator is shown depends on the version that was read
	let own = |x: Option<Cow<'_, str>>| x.map(|s| s.replace('\0', "/"));
	match f {
		Title => own(t.title()),
		Artist => own(t.artist()),
		Album => own(t.album()),
		Genre => own(t.genre()),
		Comment => own(t.comment()),
		Track => num(t.track()),
		TrackTotal => num(t.track_total()),
		Disk => num(t.disk()),
		DiskTotal => num(t.disk_total()),
		Date => t.date().map(|d| d.to_string()),
	}
}

type Vals = Vec<Option<String>>;

fn vals(t: &dyn Accessor) -> Vals {
	FIELDS.iter().map(|f| get(t, *f)).collect()
}

fn accessor(t: &mut AnyTag) -> &mut dyn Accessor {
	match t {
		AnyTag::Id3v2(t) => t,
		AnyTag::Id3v1(t) => t,
		AnyTag::Ape(t) => t,
		AnyTag::Vorbis(t) => t,
		AnyTag::Ilst(t) => t,
		AnyTag::Riff(t) => t,
		AnyTag::Aiff(t) => t,
		AnyTag::Generic(t) => t,
	}
}

/// The number and the total are one item, and go together when the number is removed
fn paired(kind: Kind) -> bool {
	matches!(kind, Kind::Id3v2 | Kind::Ape | Kind::Ilst)
}

/// Whether a line of `facts` is one of a field's
fn of_field(kind: Kind, f: Field, l: &str, all_comments: bool) -> bool {
	let start = |list: &[&str]| list.iter().any(|k| l.len() >= k.len() && l.is_char_boundary(k.len()) && l[..k.len()].eq_ignore_ascii_case(k));
	match kind {
		Kind::Id3v2 => match f {
			Title => start(&["TIT2 "]),
			Artist => start(&["TPE1 "]),
			Album => start(&["TALB "]),
			Genre => start(&["TCON "]),
			Comment => start(&["COMM "]) && (all_comments || l.split(" \"").nth(1).is_some_and(|d| d.starts_with('"')) || l.contains("] \"\" ")),
			Track | TrackTotal => start(&["TRCK "]),
			Disk | DiskTotal => start(&["TPOS "]),
			Date => start(&["TDRC ", "TYER "]),
		},
		Kind::Id3v1 => match f {
			Title => start(&["title "]),
			Artist => start(&["artist "]),
			Album => start(&["album "]),
			Genre => start(&["genre "]),
			Comment => start(&["comment "]),
			Track => start(&["track "]),
			Date => start(&["year "]),
			_ => false,
		},
		Kind::Ape => match f {
			Title => start(&["title "]),
			Artist => start(&["artist "]),
			Album => start(&["album "]),
			Genre => start(&["genre "]),
			Comment => start(&["comment "]),
			Track | TrackTotal => start(&["track "]),
			Disk | DiskTotal => start(&["disc "]),
			Date => start(&["year "]),
		},
		Kind::Vorbis => match f {
			Title => start(&["title="]),
			Artist => start(&["artist="]),
			Album => start(&["album="]),
			Genre => start(&["genre="]),
			Comment => start(&["comment="]),
			Track => start(&["tracknumber=", "tracknum="]),
			TrackTotal => start(&["tracktotal=", "totaltracks="]),
			Disk => start(&["discnumber="]),
			DiskTotal => start(&["disctotal=", "totaldiscs="]),
			Date => start(&["date=", "year="]),
		},
		Kind::Ilst => {
			let id = |b: &[u8; 4]| start(&[format!("Fourcc({b:?})").as_str()]);
			match f {
				Title => id(b"\xa9nam"),
				Artist => id(b"\xa9ART"),
				Album => id(b"\xa9alb"),
				Genre => id(b"\xa9gen"),
				Comment => id(b"\xa9cmt"),
				Track | TrackTotal => id(b"trkn"),
				Disk | DiskTotal => id(b"disk"),
				Date => id(b"\xa9day"),
			}
		},
		Kind::Riff => match f {
			Title => start(&["INAM="]),
			Artist => start(&["IART="]),
			Album => start(&["IPRD="]),
			Genre => start(&["IGNR="]),
			Comment => start(&["ICMT="]),
			Track => start(&["IPRT=", "ITRK="]),
			TrackTotal => start(&["IFRM="]),
			Date => start(&["ICRD="]),
			_ => false,
		},
		_ => match f {
			Title => start(&["name "]),
			Artist => start(&["author "]),
			Comment => start(&["anno "]),
			_ => false,
		},
	}
}

/// Whether an item of the format-independent tag is one of a field's
fn of_key(f: Field, l: &str) -> bool {
	let k: &[&str] = match f {
		Title => &["TrackTitle "],
		Artist => &["TrackArtist "],
		Album => &["AlbumTitle "],
		Genre => &["Genre "],
		Comment => &["Comment "],
		Track => &["TrackNumber "],
		TrackTotal => &["TrackTotal "],
		Disk => &["DiscNumber "],
		DiskTotal => &["DiscTotal "],
		Date => &["RecordingDate ", "Year "],
	};
	k.iter().any(|k| l.starts_with(k))
}

// ------------------------------------------------------------------------------------------------
// items of the kind's own

const RIFF: &[&str] = &["IMUS", "ISFT", "ILNG", "IPRO", "IWRI", "ISRF"];
const APE: &[&str] = &["Subtitle", "Arranger", "Composer", "Conductor", "Mood", "Own Key", "Barcode"];
const VORBIS: &[&str] = &["Subtitle", "Arranger", "Composer", "Conductor", "Mood", "Own Key", "Barcode", "Performer"];
const ATOMS: &[[u8; 4]] = &[*b"\xa9wrt", *b"cprt", *b"tvsh", *b"own!", *b"desc", *b"\xa9lyr"];
const FRAMES: &[&str] = &["TMOO", "TPE3", "TCOM", "TSRC", "TXY1", "TLAN"];
const KEYS: &[ItemKey] = &[ItemKey::Mood, ItemKey::Conductor, ItemKey::Composer, ItemKey::Lyricist, ItemKey::Language, ItemKey::Barcode];

/// How the lines of an item in `facts` (or of the format-independent tag) begin
fn item_name(kind: Kind, generic: bool, k: u8) -> String {
	let i = usize::from(k);
	if generic {
		return format!("{:?} ", KEYS[i % KEYS.len()]);
	}
	match kind {
		Kind::Riff => format!("{}=", RIFF[i % RIFF.len()]),
		Kind::Ape => format!("{} ", APE[i % APE.len()]),
		Kind::Vorbis => format!("{}=", VORBIS[i % VORBIS.len()]),
		Kind::Ilst => format!("Fourcc({:?})", ATOMS[i % ATOMS.len()]),
		_ if k >= 32 => format!("TXXX {:?} ", user_text(k)),
		_ => format!("{} ", FRAMES[i % FRAMES.len()]),
	}
}

fn item_line(kind: Kind, generic: bool, k: u8, l: &str) -> bool {
	let p = item_name(kind, generic, k);
	l.len() >= p.len() && l.is_char_boundary(p.len()) && l[..p.len()].eq_ignore_ascii_case(&p)
}

fn user_text(k: u8) -> String {
	format!("own {}", k % 4)
}

/// The values of an item, by the library's own getters
fn item_values(t: &AnyTag, k: u8) -> Vec<String> {
	let i = usize::from(k);
	match t {
		AnyTag::Riff(t) => t.get(RIFF[i % RIFF.len()]).map(str::to_string).into_iter().collect(),
		AnyTag::Ape(t) => match t.get(APE[i % APE.len()]).map(|i| i.value()) {
			Some(ItemValue::Text(s)) => s.split('\0').map(str::to_string).collect(),
			Some(v) => vec![format!("{v:?}")],
			None => Vec::new(),
		},
		AnyTag::Vorbis(t) => t.get_all(VORBIS[i % VORBIS.len()]).map(str::to_string).collect(),
		AnyTag::Ilst(t) => {
			let id = AtomIdent::Fourcc(ATOMS[i % ATOMS.len()]);
			t.get(&id)
				.into_iter()
				.flat_map(|a| a.data())
				.map(|d| match d {
					AtomData::UTF8(s) | AtomData::UTF16(s) => s.clone(),
					d => format!("{d:?}"),
				})
				.collect()
		},
		AnyTag::Id3v2(t) if k >= 32 => t.get_user_text(&user_text(k)).map(|s| s.split('\0').map(str::to_string).collect()).unwrap_or_default(),
		AnyTag::Id3v2(t) => match FrameId::new(FRAMES[i % FRAMES.len()]) {
			Ok(id) => t.get_texts(&id).map(|t| t.map(str::to_string).collect()).unwrap_or_default(),
			Err(_) => Vec::new(),
		},
		AnyTag::Generic(t) => t.get_strings(KEYS[i % KEYS.len()]).map(str::to_string).collect(),
		_ => Vec::new(),
	}
}

/// Edits an item; what is to be there afterwards. An error tells what the call returned wrongly.
fn item_edit(t: &mut AnyTag, k: u8, upper: bool, how: u8, s: &str) -> Result<Vec<String>, String> {
	let before = item_values(t, k);
	let i = usize::from(k);
	let spell = |s: &str| if upper { s.to_ascii_uppercase() } else { s.to_string() };
	let mut after = match how {
		0 => before.clone(),
		_ => Vec::new(),
	};
	if how < 2 {
		after.push(s.to_string());
	}
	let gone = |got: Vec<String>| if got == before { Ok(()) } else { Err(format!("removing {before:?} returned {got:?}")) };
	match t {
		AnyTag::Riff(t) => {
			let key = RIFF[i % RIFF.len()];
			if how < 2 {
				t.insert(key.to_string(), s.to_string());
				after = vec![s.to_string()];
			} else {
				// there is one of them that counts
				gone(t.remove(key).into_iter().collect())?;
			}
		},
		AnyTag::Ape(t) => {
			let key = spell(APE[i % APE.len()]);
			match how {
				0 => t.push(ApeItem::new(key, ItemValue::Text(s.to_string())).map_err(|e| e.to_string())?),
				1 => t.insert(ApeItem::new(key, ItemValue::Text(s.to_string())).map_err(|e| e.to_string())?),
				_ => t.remove(&key),
			}
		},
		AnyTag::Vorbis(t) => {
			let key = spell(VORBIS[i % VORBIS.len()]);
			match how {
				0 => t.push(key, s.to_string()),
				1 => t.insert(key, s.to_string()),
				_ => {
					let got = t.remove(&key).collect();
					gone(got)?;
				},
			}
		},
		AnyTag::Ilst(t) => {
			let id = AtomIdent::Fourcc(ATOMS[i % ATOMS.len()]);
			let a = Atom::new(id.clone(), AtomData::UTF8(s.to_string()));
			match how {
				0 => t.insert(a),
				1 => t.replace_atom(a),
				_ => drop(t.remove(&id)),
			}
		},
		AnyTag::Id3v2(t) if k >= 32 => {
			let d = user_text(k);
			let old = if how < 2 {
				after = vec![s.to_string()];
				t.insert_user_text(d, s.to_string())
			} else {
				t.remove_user_text(&d)
			};
			let got = match old {
				Some(Frame::UserText(f)) => f.content.split('\0').map(str::to_string).collect(),
				_ => Vec::new(),
			};
			gone(got)?;
		},
		AnyTag::Id3v2(t) => {
			let id = FrameId::new(FRAMES[i % FRAMES.len()]).map_err(|e| e.to_string())?;
			if how < 2 {
				after = vec![s.to_string()];
				drop(t.insert(Frame::Text(TextInformationFrame::new(id.into_owned(), TextEncoding::UTF8, s.to_string()))));
			} else {
				drop(t.remove(&id));
			}
		},
		AnyTag::Generic(t) => {
			let key = KEYS[i % KEYS.len()];
			let item = TagItem::new(key, ItemValue::Text(s.to_string()));
			match how {
				0 | 1 => {
					let put = if how == 0 { t.push(item) } else { t.insert(item) };
					if !put {
						// the format has no such item
						return Ok(before);
					}
				},
				_ => {
					let got = t.take_strings(key).collect();
					gone(got)?;
				},
			}
		},
		_ => {},
	}
	Ok(after)
}

// ------------------------------------------------------------------------------------------------
// pictures

/// The pictures of a tag, by the library's own getters
fn pictures(t: &AnyTag) -> Vec<String> {
	match t {
		AnyTag::Vorbis(t) => t.pictures().iter().map(|p| canon_pic(&p.0)).collect(),
		AnyTag::Ilst(t) => t.pictures().into_iter().flatten().map(canon_pic).collect(),
		AnyTag::Generic(t) => t.pictures().iter().map(canon_pic).collect(),
		AnyTag::Id3v2(t) => {
			let l: &[Frame<'_>] = t;
			l.iter()
				.filter_map(|f| match f {
					Frame::Picture(p) => Some(canon_pic(&p.picture)),
					_ => None,
				})
				.collect()
		},
		_ => Vec::new(),
	}
}

fn types(v: &[String], ty: &str) -> Option<usize> {
	v.iter().position(|l| l.split(' ').nth(1) == Some(ty))
}

/// Edits the pictures; what is to be there afterwards
fn pic_edit(t: &mut AnyTag, how: u8, i: u8, p: &PicSpec) -> Result<Vec<String>, String> {
	let mut want = pictures(t);
	let i = usize::from(i);
	let mut p = p.build();
	if matches!(t, AnyTag::Ilst(_)) {
		// pictures of an ilst have neither type nor description
		p.set_pic_type(PictureType::Other);
		p.set_description(None);
	}
	let (ty, line) = (p.pic_type(), canon_pic(&p));
	let name = format!("{ty:?}");
	let only = matches!(ty, PictureType::Icon | PictureType::OtherIcon);
	// there is one picture of these types
	let put = |want: &mut Vec<String>| {
		let old = if only { types(want, &name).map(|i| want.remove(i)) } else { None };
		want.push(line.clone());
		old
	};
	let all = |want: &mut Vec<String>| want.retain(|l| l.split(' ').nth(1) != Some(&name));
	match t {
		AnyTag::Vorbis(t) => match how {
			0 | 1 => {
				let info = (how == 0).then(PictureInformation::default);
				match t.insert_picture(p, info) {
					Ok(got) => {
						let old = put(&mut want);
						if got.map(|p| canon_pic(&p.0)) != old {
							return Err(format!("another picture than {old:?}"));
						}
					},
					// an image that is not understood changes nothing
					Err(_) if how == 1 => {},
					Err(e) => return Err(format!("{e}")),
				}
			},
			2 => {
				t.set_picture(i, p, PictureInformation::default());
				if i < want.len() {
					want[i] = line.clone();
				} else {
					put(&mut want);
				}
			},
			3 => {
				t.remove_picture_type(ty);
				all(&mut want);
			},
			4 if i < want.len() => {
				let got = canon_pic(&t.remove_picture(i).0);
				let old = want.remove(i);
				if got != old {
					return Err(format!("{got} instead of {old}"));
				}
			},
			4 => {},
			_ => {
				t.remove_pictures();
				want.clear();
			},
		},
		AnyTag::Id3v2(t) => match how {
			0..=2 => {
				let got = t.insert_picture(p);
				let old = put(&mut want);
				let got = got.and_then(|f| match f {
					Frame::Picture(p) => Some(canon_pic(&p.picture)),
					_ => None,
				});
				if got != old {
					return Err(format!("{got:?} instead of {old:?}"));
				}
			},
			_ => {
				t.remove_picture_type(ty);
				all(&mut want);
			},
		},
		AnyTag::Ilst(t) => match how {
			0..=4 => {
				t.insert_picture(p);
				want.push(line);
			},
			_ => {
				t.remove_pictures();
				want.clear();
			},
		},
		AnyTag::Generic(t) => match how {
			0 | 1 => {
				t.push_picture(p);
				want.push(line);
			},
			2 => {
				t.set_picture(i, p);
				if i < want.len() {
					want[i] = line;
				} else {
					want.push(line);
				}
			},
			4 if i < want.len() => {
				let got = canon_pic(&t.remove_picture(i));
				let old = want.remove(i);
				if got != old {
					return Err(format!("{got} instead of {old}"));
				}
			},
			4 => {},
			_ => {
				t.remove_picture_type(ty);
				all(&mut want);
			},
		},
		_ => {},
	}
	Ok(want)
}

/// Pictures as the format holds them
fn stored(kind: Kind, v: &[String]) -> Vec<String> {
	let mut v: Vec<String> = v
		.iter()
		.map(|l| {
			let w: Vec<&str> = l.split(' ').collect();
			if kind == Kind::Ilst { format!("pic {} {}", w.get(2).unwrap_or(&""), w.last().unwrap_or(&"")) } else { l.clone() }
		})
		.collect();
	v.sort();
	v
}

// ------------------------------------------------------------------------------------------------
// executor

/// What the edits of a session are to lead to
#[derive(Default)]
struct Want {
	fields: Vec<(Field, Option<String>)>,
	items: Vec<(u8, Vec<String>)>,
	pics: Option<Vec<String>>,
}

impl Want {
	fn field(&mut self, f: Field, v: Option<String>) {
		self.fields.retain(|x| x.0 != f);
		self.fields.push((f, v));
	}
}

fn lines(t: &AnyTag) -> Vec<String> {
	let mut v = match t {
		AnyTag::Generic(t) => canon_generic(t),
		t => facts(t),
	};
	// a pair of a number and a total that is empty
	v.retain(|l| !l.ends_with(" [00, 00, 00, 00]"));
	v.sort();
	v
}

/// Apply the edits of a session to the tag in memory, checking after each of them
fn edit(t: &mut AnyTag, kind: Kind, edits: &[Edit]) -> Result<Want, Violation> {
	let generic = matches!(t, AnyTag::Generic(_));
	let mut want = Want::default();
	for (i, e) in edits.iter().enumerate() {
		let (was, had) = (vals(accessor(t)), lines(t));
		let what = format!("edit {i} {}", short(e));
		let bad = |class: &str, d: String| viol(format!("{kind:?} {class}"), format!("{what}: {d}"));
		match e {
			Edit::Set { f, .. } | Edit::Remove { f } => {
				let v = match e {
					Edit::Set { f, t: s, n } => Some(set(accessor(t), kind, *f, s, *n)),
					_ => {
						remove(accessor(t), *f);
						None
					},
				};
				let is = vals(accessor(t));
				for (g, (a, b)) in FIELDS.iter().zip(was.iter().zip(&is)) {
					if g == f {
						if *b != v {
							return Err(bad("field not set", format!("{g:?} is {b:?} instead of {v:?}")));
						}
					} else if a != b {
						let partner = matches!((f, g), (Track, TrackTotal) | (Disk, DiskTotal));
						if v.is_none() && partner && paired(kind) && !generic && b.is_none() {
							want.field(*g, None);
							continue;
						}
						return Err(bad("other field changed", format!("{g:?} was {a:?} and is {b:?}")));
					}
				}
				want.field(*f, v);
				let other = |l: &&String| if generic { !of_key(*f, l) } else { !of_field(kind, *f, l, false) };
				let now = lines(t);
				let (a, b): (Vec<_>, Vec<_>) = (had.iter().filter(other).cloned().collect(), now.iter().filter(other).cloned().collect());
				if a != b {
					return Err(bad("other item changed", diff_lines(&a, &b)));
				}
			},
			Edit::Pic { how, i, p } => {
				let v = pic_edit(t, *how, *i, p).map_err(|e| bad("picture returned", e))?;
				let is = pictures(t);
				if is != v {
					return Err(bad("pictures", diff_lines(&v, &is)));
				}
				let now = lines(t);
				let (a, b): (Vec<_>, Vec<_>) = (had.iter().filter(|l| !picture_line(l)).cloned().collect(), now.iter().filter(|l| !picture_line(l)).cloned().collect());
				if a != b {
					return Err(bad("other item changed", diff_lines(&a, &b)));
				}
				want.pics = Some(v);
			},
			Edit::Item { k, upper, how, t: s } => {
				let s = s.get();
				let v = item_edit(t, *k, *upper, *how, &s).map_err(|e| bad("item returned", e))?;
				let is = item_values(t, *k);
				if is != v {
					return Err(bad("item not set", format!("{is:?} instead of {v:?}")));
				}
				if vals(accessor(t)) != was {
					return Err(bad("other field changed", format!("{was:?} / {:?}", vals(accessor(t)))));
				}
				let other = |l: &&String| !item_line(kind, generic, *k, l);
				let now = lines(t);
				let (a, b): (Vec<_>, Vec<_>) = (had.iter().filter(other).cloned().collect(), now.iter().filter(other).cloned().collect());
				if a != b {
					return Err(bad("other item changed", diff_lines(&a, &b)));
				}
				want.items.retain(|x| item_name(kind, generic, x.0) != item_name(kind, generic, *k));
				want.items.push((*k, v));
			},
		}
	}
	Ok(want)
}

fn short(e: &Edit) -> String {
	match e {
		Edit::Set { f, .. } => format!("set {f:?}"),
		Edit::Remove { f } => format!("remove {f:?}"),
		Edit::Pic { how, .. } => format!("picture {how}"),
		Edit::Item { k, how, .. } => format!("{} item {k}", ["push", "insert", "remove"][usize::from(*how % 3)]),
	}
}

enum Failed {
	Call(AnyErr),
	Broken(Violation),
}

impl<E: Into<AnyErr>> From<E> for Failed {
	fn from(e: E) -> Self {
		Failed::Call(e.into())
	}
}

fn run(d: &mut SimDisk, c: &Fields, s: &Session) -> Result<Want, Failed> {
	let po = POpts::default().get();
	let fmt = c.f.fmt;
	d.seek(SeekFrom::Start(0)).map_err(AnyErr::from)?;
	let gone = || Failed::Call(AnyErr("the tag is gone".into()));
	let Some(ty) = kind_type(c.kind) else { return Err(gone()) };
	// the methods of a tag inside a file act on that very tag
	fn inside(t: &mut Tag, c: &Fields, s: &Session) -> Result<Want, Failed> {
		let mut own = AnyTag::Generic(std::mem::replace(t, Tag::new(t.tag_type())));
		let w = edit(&mut own, c.kind, &s.edits);
		if let AnyTag::Generic(g) = own {
			*t = g;
		}
		w.map_err(Failed::Broken)
	}
	Ok(match s.way {
		Way::Tag | Way::File => {
			let mut f = AnyFile::read(fmt, d, po).map_err(AnyErr::from)?;
			let mut t = f.get(c.kind).ok_or_else(gone)?;
			let w = edit(&mut t, c.kind, &s.edits).map_err(Failed::Broken)?;
			d.seek(SeekFrom::Start(0)).map_err(AnyErr::from)?;
			if s.way == Way::Tag {
				t.save_to(d, s.o.get()).map_err(AnyErr::from)?;
			} else {
				f.set(t);
				f.save_to(d, s.o.get()).map_err(AnyErr::from)?;
			}
			w
		},
		Way::Split => {
			let f = AnyFile::read(fmt, d, po).map_err(AnyErr::from)?;
			let t = f.get(c.kind).ok_or_else(gone)?;
			let mut w = None;
			macro_rules! go {
				($t:expr, $v:ident) => {{
					let (rest, mut g) = $t.split_tag();
					w = Some(inside(&mut g, c, s)?);
					AnyTag::$v(rest.merge_tag(g))
				}};
			}
			let t = match t {
				AnyTag::Id3v2(t) => go!(t, Id3v2),
				AnyTag::Id3v1(t) => go!(t, Id3v1),
				AnyTag::Ape(t) => go!(t, Ape),
				AnyTag::Vorbis(t) => go!(t, Vorbis),
				AnyTag::Ilst(t) => go!(t, Ilst),
				AnyTag::Riff(t) => go!(t, Riff),
				AnyTag::Aiff(t) => go!(t, Aiff),
				AnyTag::Generic(t) => AnyTag::Generic(t),
			};
			d.seek(SeekFrom::Start(0)).map_err(AnyErr::from)?;
			t.save_to(d, s.o.get()).map_err(AnyErr::from)?;
			w.unwrap_or_default()
		},
		Way::Tagged => {
			let mut f = Probe::with_file_type(&mut *d, file_type(fmt)).options(po).read().map_err(AnyErr::from)?;
			let w = inside(f.tag_mut(ty).ok_or_else(gone)?, c, s)?;
			f.save_to(d, s.o.get()).map_err(AnyErr::from)?;
			w
		},
		Way::Bound => {
			let mut f = Probe::with_file_type(d, file_type(fmt)).options(po).read_bound().map_err(AnyErr::from)?;
			let w = inside(f.tag_mut(ty).ok_or_else(gone)?, c, s)?;
			f.save(s.o.get()).map_err(AnyErr::from)?;
			w
		},
	})
}

/// The tag of a file in both views: its own and the format-independent one
fn open(data: &[u8], c: &Fields) -> Result<Option<(AnyTag, AnyTag)>, Violation> {
	let (o, r) = outcome(catch(|| AnyFile::read(c.f.fmt, &mut SimDisk::new(data.to_vec()), POpts::default().get())));
	match (o, r) {
		(Outcome::Panic(p), _) => Err(viol("panic", p)),
		(_, Some(f)) => Ok(f.get(c.kind).map(|t| {
			let g = AnyTag::Generic(t.to_generic());
			(t, g)
		})),
		(o, _) => Err(viol("unreadable", format!("{o:?}"))),
	}
}

pub fn exec_fields(c: &Fields, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let mut data = c.f.bytes();
	let fmt = c.f.fmt;
	stats::named(&format!("fmt.{}", fmt.name()));
	stats::named(&format!("tag.{:?}", c.kind));
	for (i, s) in c.sessions.iter().enumerate() {
		stats::named(&format!("{:?}", s.way));
		for e in &s.edits {
			let e = short(e);
			stats::named(&format!("edit.{}", e.trim_end_matches(char::is_numeric)));
		}
		let Ok(Some((mut own, mut gen_))) = open(&data, c) else {
			// nothing left to edit
			ctx.cut += 1;
			return Ok(Vec::new());
		};
		let (own_was, gen_was) = (vals(accessor(&mut own)), vals(accessor(&mut gen_)));
		let had = lines(&own);
		let mut d = SimDisk::new(data.clone());
		if let Some(n) = s.noise {
			d.rearm(Plan::noise(n));
		}
		d.budget = op_budget(data.len()) * 8;
		let at = format!("{} {:?} session {i} ({:?})", fmt.name(), c.kind, s.way);
		let mut broken = None;
		let mut want = Want::default();
		let (o, _) = outcome(catch(|| match run(&mut d, c, s) {
			Ok(w) => {
				want = w;
				Ok(())
			},
			Err(Failed::Call(e)) => Err(e),
			Err(Failed::Broken(v)) => {
				broken = Some(v);
				Ok(())
			},
		}));
		ctx.sim(&d, true);
		if let Some(mut v) = broken {
			v.detail = format!("{at} {}", v.detail);
			return Ok(vec![v]);
		}
		match o {
			Outcome::Ok => {},
			Outcome::Panic(p) => return Ok(vec![viol("panic", format!("{at}: {p}"))]),
			Outcome::Budget => return Ok(vec![viol("no termination", at)]),
			o => return Ok(vec![viol("refused", format!("{at}: {o:?}"))]),
		}
		data = d.data;
		let opened = match open(&data, c) {
			Ok(x) => x,
			Err(v) => return Ok(vec![v]),
		};
		let touched = |l: &String| {
			(want.pics.is_some() && picture_line(l))
				|| want.fields.iter().any(|(f, _)| of_field(c.kind, *f, l, s.way.generic())) || want.items.iter().any(|(k, _)| own_line(c.kind, s.way, *k, l))
		};
		let Some((mut own, mut gen_)) = opened else {
			// all that was there was removed
			if had.iter().all(|l| touched(l) || l.starts_with("vendor ")) && want.fields.iter().all(|f| f.1.is_none()) && want.items.iter().all(|f| f.1.is_empty()) && want.pics.as_ref().is_none_or(Vec::is_empty) {
				return Ok(Vec::new());
			}
			return Ok(vec![viol(format!("{:?} gone", c.kind), at)]);
		};
		let rest: Vec<String> = had.iter().filter(|l| !touched(l)).cloned().collect();
		let now: Vec<String> = lines(&own).into_iter().filter(|l| !touched(l)).collect();
		if rest != now {
			return Ok(vec![viol(format!("{:?} other item altered by the file", c.kind), format!("{at}: {}", diff_lines(&rest, &now)))]);
		}
		if let Some(p) = &want.pics {
			let (a, b) = (stored(c.kind, p), stored(c.kind, &pictures(&own)));
			if a != b {
				return Ok(vec![viol(format!("{:?} pictures in the file", c.kind), format!("{at}: {}", diff_lines(&a, &b)))]);
			}
		}
		for (view, t, was) in [("own", &mut own, &own_was), ("generic", &mut gen_, &gen_was)] {
			for (f, w) in FIELDS.iter().zip(was) {
				let is = get(accessor(t), *f);
				let edited = want.fields.iter().find(|x| x.0 == *f).map(|x| &x.1);
				if c.kind == Kind::Id3v2 && *f == Comment && view == "generic" && (edited.is_none() || !s.way.generic()) {
					// comments with a description are comments to the one view, and not to the other
					continue;
				}
				let w = edited.unwrap_or(w);
				if is != *w {
					return Ok(vec![viol(format!("{:?} field in the file", c.kind), format!("{at}: {f:?} ({view}) is {is:?} instead of {w:?}"))]);
				}
			}
			if (view == "generic") == s.way.generic() {
				for (k, v) in &want.items {
					let is = item_values(t, *k);
					if is != *v {
						return Ok(vec![viol(format!("{:?} item in the file", c.kind), format!("{at}: item {k} is {is:?} instead of {v:?}"))]);
					}
				}
			}
		}
	}
	Ok(Vec::new())
}

/// Whether a line of the format's own tag is an item that was edited in this way
fn own_line(kind: Kind, way: Way, k: u8, l: &str) -> bool {
	if !way.generic() {
		return item_line(kind, false, k, l);
	}
	let key = KEYS[usize::from(k) % KEYS.len()];
	let Some(name) = kind_type(kind).and_then(|t| key.map_key(t)) else { return false };
	let p = match kind {
		Kind::Ilst if name.starts_with("----") => {
			let n = name.rsplit(':').next().unwrap_or("");
			return l.contains(&format!("name: \"{n}\"")) || l.contains(&format!("name: {n:?}"));
		},
		Kind::Ilst => {
			let b: Vec<u8> = name.chars().map(|c| c as u32 as u8).collect();
			format!("Fourcc({b:?})")
		},
		Kind::Riff | Kind::Vorbis => format!("{name}="),
		Kind::Id3v2 if name.len() != 4 => format!("TXXX {name:?} "),
		_ => format!("{name} "),
	};
	l.len() >= p.len() && l.is_char_boundary(p.len()) && l[..p.len()].eq_ignore_ascii_case(&p)
}
