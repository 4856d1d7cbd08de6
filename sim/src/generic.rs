//! Editing through the format-independent tag (C15).

use crate::disk::{Noise, Plan, SimDisk};
use crate::dissect::Kind;
use crate::encode::{Foreign, gen_foreign};
use crate::engine::*;
use crate::files::{AnyFile, POpts, WOpts, file_type};
use crate::hist::{gen_noise, gen_title, gen_wopts};
use crate::media::ALL_FMTS;
use crate::prop::Ctx;
use crate::rng::Rng;
use crate::run::catch;
use crate::stats;
use crate::tags::{AnyTag, ApeVal, DataSpec, FrameSpec, TagSpec, Txt, canon_pic, kind_type, writable};
use lofty::file::{AudioFile, TaggedFileExt};
use lofty::id3::v2::Frame;
use lofty::ogg::OggPictureStorage;
use lofty::mp4::{AtomData, AtomIdent};
use lofty::probe::Probe;
use lofty::tag::{Accessor, MergeTag, SplitTag};
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum How {
	/// `SplitTag` / `MergeTag`
	Split,
	Tagged,
	Bound,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Generic {
	pub f: Foreign,
	pub kind: Kind,
	/// One edit of the title after the other
	pub edits: Vec<(How, Txt, WOpts)>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
}

pub fn gen_generic(r: &mut Rng) -> Generic {
	loop {
		let big = *r.pick(&[20, 300, 3000]);
		let mut f = gen_foreign(r, ALL_FMTS, big);
		for (t, l) in &mut f.tags {
			regular(r, t);
			l.frames.clear();
		}
		let kept = |k: &Kind| *k != Kind::Lyrics3;
		let kinds: Vec<Kind> = f.tags.iter().filter(|t| !t.0.build().is_empty()).map(|t| t.0.kind()).filter(|k| kept(k) && writable(f.fmt).contains(k)).collect();
		if kinds.is_empty() {
			continue;
		}
		let kind = *r.pick(&kinds);
		let n = 1 + r.below(3);
		return Generic {
			f,
			kind,
			edits: (0..n)
				.map(|_| {
					// only these two keep what has no generic counterpart, unless the tag is split
					let kept = matches!(kind, Kind::Id3v2 | Kind::Ilst);
					let how = match r.below(4) {
						_ if !kept => How::Split,
						0 | 1 => How::Split,
						2 => How::Tagged,
						_ => How::Bound,
					};
					let t = if kind == Kind::Id3v1 {
						Txt::Gen { g: r.below(1 << 20), n: 1 + r.below(30) as u32, c: 0 }
					} else {
						gen_title(r, 300)
					};
					(how, t, gen_wopts(r, None))
				})
				.collect(),
			noise: if r.chance(1, 3) { Some(gen_noise(r)) } else { None },
		};
	}
}

/// Values in the form their keys ask for: the format-independent tag holds numbers, ratings and dates as such
pub fn regular(r: &mut Rng, t: &mut TagSpec) {
	rekey(r, t);
	match t {
		TagSpec::Id3v2 { frames, .. } => {
			frames.retain_mut(|f| frame(r, f));
			crate::tags::one_top(frames, &mut false);
			// one frame per kind of text, date and description
			let mut seen: Vec<String> = Vec::new();
			frames.retain(|f| {
				let Some(k) = frame_key(f) else { return true };
				let new = !seen.contains(&k);
				seen.push(k);
				new
			});
		},
		TagSpec::Riff { items } => {
			items.retain(|i| i.0 != "ZZZZ");
			for (i, (k, v)) in items.iter_mut().enumerate() {
				if k == "ICRD" {
					*v = Txt::Lit(format!("{}", 1990 + i));
				}
			}
		},
		TagSpec::Aiff { comments, .. } => comments.clear(),
		TagSpec::Ape { items, .. } => {
			for i in items {
				i.ro = false;
				if i.key == "Track" || i.key == "Year" {
					let v = if i.key == "Year" { "1999" } else { *r.pick(&["7", "3/12"]) };
					i.v = ApeVal::Text(Txt::Lit(v.into()));
				}
			}
		},
		_ => {},
	}
}

fn frame_key(f: &FrameSpec) -> Option<String> {
	match f {
		FrameSpec::Text { id, .. } | FrameSpec::Time { id, .. } => Some(id.clone()),
		FrameSpec::UserText { d, .. } => Some(format!("TXXX {}", d.get().to_ascii_uppercase())),
		FrameSpec::Flagged { f, .. } => frame_key(f),
		_ => None,
	}
}

const TXXX: &[&str] = &[
	"BARCODE", "CATALOGNUMBER", "Acoustid Id", "Acoustid Fingerprint", "WORK", "REPLAYGAIN_ALBUM_GAIN", "REPLAYGAIN_TRACK_PEAK", "COLOR", "ARTISTS", "DIRECTOR",
	"MusicBrainz Album Id", "MusicBrainz Work Id", "MusicBrainz Album Release Country", "ALBUMARTISTS",
];
const MORE_TEXT: &[&str] = &[
	"TSST", "TIT3", "TOAL", "TOPE", "TOLY", "TSOA", "TSO2", "TSOT", "TSOP", "TSOC", "TEXT", "TPE3", "TPE4", "TRSN", "TRSO", "TOWN", "TLEN", "TOFN", "TMED", "TSSE", "TKEY", "TMOO",
	"TDES", "TCAT", "TGID", "TKWD", "TLAN", "TXYZ", "TDLY", "TFLT", "TPRO", "MVNM", "MVIN", "GRP1",
];
const MORE_URL: &[&str] = &["WOAS", "WCOP", "WORS", "WPAY", "WFED", "WXYZ"];
const APE_KEYS: &[&str] = &[
	"Subtitle", "WORKTITLE", "MOVEMENTNAME", "Album Artist", "Arranger", "Composer", "Conductor", "ISRC", "Barcode", "REPLAYGAIN_TRACK_GAIN", "Media", "Lyrics", "MUSICBRAINZ_ALBUMID", "Label",
	"MixArtist", "language", "isrc", "COMPOSER", "ALBUMSORT",
];
const VORBIS_KEYS: &[&str] = &[
	"DISCSUBTITLE", "SUBTITLE", "WORK", "ALBUMARTIST", "ARTISTS", "PERFORMER", "PUBLISHER", "LABEL", "REMIXER", "ISRC", "BARCODE", "REPLAYGAIN_TRACK_GAIN", "LYRICS", "MUSICBRAINZ_ALBUMID",
	"COPYRIGHT", "LANGUAGE", "isrc", "composer",
];
const FREEFORM: &[&str] = &[
	"SUBTITLE", "ALBUMARTISTS", "CONDUCTOR", "ENGINEER", "LYRICIST", "PRODUCER", "LABEL", "REMIXER", "ISRC", "BARCODE", "CATALOGNUMBER", "MEDIA", "initialkey", "replaygain_album_gain", "LICENSE", "LANGUAGE",
	"MusicBrainz Track Id", "MusicBrainz Album Id",
];
const ATOMS: &[&str] = &["tvsh", "\u{a9}wrk", "\u{a9}mvn", "soal", "sonm", "soco", "\u{a9}wrt", "\u{a9}enc", "\u{a9}too", "cprt", "ldes", "catg", "purl", "keyw", "\u{a9}lyr", "xid "];

/// Gives some of the items keys that have a counterpart in the format-independent tag
fn rekey(r: &mut Rng, t: &mut TagSpec) {
	fn id3(r: &mut Rng, f: &mut FrameSpec) {
		if r.chance(1, 2) {
			return;
		}
		match f {
			FrameSpec::UserText { d, .. } => *d = Txt::Lit((*r.pick(TXXX)).into()),
			FrameSpec::Text { id, .. } if !matches!(id.as_str(), "TIT2" | "TCON" | "TRCK" | "TPOS") => *id = (*r.pick(MORE_TEXT)).into(),
			FrameSpec::KeyValue { id, kv, .. } if id == "TIPL" => {
				for (k, _) in kv {
					if r.chance(1, 2) {
						*k = Txt::Lit((*r.pick(&["producer", "arranger", "engineer", "DJ-mix", "mix"])).into());
					}
				}
			},
			FrameSpec::Url { id, .. } => *id = (*r.pick(MORE_URL)).into(),
			FrameSpec::Flagged { f, .. } => id3(r, f),
			_ => {},
		}
	}
	match t {
		TagSpec::Id3v2 { frames, .. } => frames.iter_mut().for_each(|f| id3(r, f)),
		TagSpec::Ape { items, .. } => {
			for i in 0..items.len() {
				let k = *r.pick(APE_KEYS);
				let fits = matches!(&items[i].v, ApeVal::Text(_)) && !matches!(items[i].key.as_str(), "Title" | "Year" | "Track");
				if fits && r.chance(1, 2) && items.iter().all(|o| !o.key.eq_ignore_ascii_case(k)) {
					items[i].key = k.into();
				}
			}
		},
		TagSpec::Vorbis { items, .. } => {
			for (k, _) in items {
				if k != "TITLE" && r.chance(1, 2) {
					*k = (*r.pick(VORBIS_KEYS)).into();
				}
			}
		},
		TagSpec::Ilst { atoms } => {
			for i in 0..atoms.len() {
				if r.chance(1, 2) || atoms[i].data.len() != 1 || !matches!(atoms[i].data[0], DataSpec::Utf8(_)) || atoms[i].id == "\u{a9}nam" {
					continue;
				}
				let k = if r.chance(1, 2) { format!("com.apple.iTunes:{}", r.pick(FREEFORM)) } else { (*r.pick(ATOMS)).to_string() };
				if atoms.iter().all(|o| o.id != k) {
					atoms[i].id = k;
				}
			}
		},
		_ => {},
	}
}

fn frame(r: &mut Rng, f: &mut FrameSpec) -> bool {
	match f {
		FrameSpec::Text { id, v, .. } if matches!(id.as_str(), "TRCK" | "TPOS" | "MVIN") => {
			*v = Txt::Lit((*r.pick(&["1", "3/12", "99", "12/12"])).into());
			true
		},
		FrameSpec::Text { id, v, .. } => {
			if let Txt::Multi { m } = v
				&& SINGLE.contains(&id.as_str())
			{
				*v = m[0].clone();
			}
			true
		},
		FrameSpec::UserText { d, v, .. } => {
			if let Txt::Multi { m } = v
				&& d.get().to_ascii_uppercase().starts_with("REPLAYGAIN_")
			{
				*v = m[0].clone();
			}
			true
		},
		FrameSpec::Enc { id, .. } => id != "TIT2",
		FrameSpec::Flagged { f, .. } => frame(r, f),
		FrameSpec::Popm { .. } => false,
		_ => true,
	}
}

/// Frames that hold one value in the format-independent tag
const SINGLE: &[&str] = &["TBPM", "TENC", "TSRC"];

/// The pieces of information a tag holds, without how they are stored
pub fn facts(t: &AnyTag) -> Vec<String> {
	let mut v = Vec::new();
	match t {
		AnyTag::Id3v2(t) => {
			let l: &[Frame<'_>] = t;
			for f in l {
				let id = f.id_str();
				match f {
					Frame::Text(t) if id == "TCON" => v.extend(crate::tags::genres(t).iter().map(|s| format!("{id} {s:?}"))),
					Frame::Text(t) => v.extend(t.value.split('\0').map(|s| format!("{id} {s:?}"))),
					Frame::UserText(t) => v.extend(t.content.split('\0').map(|s| format!("{id} {:?} {s:?}", t.description))),
					Frame::Url(t) => v.push(format!("{id} {:?}", t.url())),
					Frame::UserUrl(t) => v.extend(t.content.split('\0').map(|s| format!("{id} {:?} {s:?}", t.description))),
					Frame::Comment(c) => v.extend(c.content.split('\0').map(|s| format!("{id} {:?} {:?} {s:?}", c.language, c.description))),
					Frame::UnsynchronizedText(c) => v.extend(c.content.split('\0').map(|s| format!("{id} {:?} {:?} {s:?}", c.language, c.description))),
					Frame::Picture(p) => v.push(format!("{id} {}", canon_pic(&p.picture))),
					Frame::KeyValue(t) => v.extend(t.key_value_pairs.iter().map(|(a, b)| format!("{id} {a:?} {b:?}"))),
					Frame::Timestamp(t) => v.push(format!("{id} {}", t.timestamp)),
					f => v.push(crate::tags::canon_frame(f)),
				}
			}
		},
		AnyTag::Ilst(t) => {
			for a in t {
				for d in a.data() {
					let d = match d {
						AtomData::UTF8(t) | AtomData::UTF16(t) => format!("{t:?}"),
						AtomData::Picture(p) => canon_pic(p),
						// number and total, the rest is reserved
						AtomData::Unknown { data, .. } if data.len() >= 6 && [*b"trkn", *b"disk"].iter().any(|i| *a.ident() == AtomIdent::Fourcc(*i)) => {
							format!("{:02x?}", &data[2..6])
						},
						AtomData::Unknown { code, data } => format!("{code:?} {data:02x?}"),
						d => format!("{d:?}"),
					};
					v.push(format!("{:?} {d}", a.ident()));
				}
			}
		},
		// their keys are case-insensitive
		AnyTag::Ape(t) => v.extend(t.into_iter().map(|i| format!("{} {:?}", i.key().to_ascii_lowercase(), i.value()))),
		AnyTag::Vorbis(t) => {
			v.push(format!("vendor {:?}", t.vendor()));
			v.extend(t.items().map(|(k, x)| format!("{}={x:?}", k.to_ascii_lowercase())));
			// their dimensions are taken from the image data again
			v.extend(t.pictures().iter().map(|(p, _)| canon_pic(p)));
		},
		t => v = t.canon(),
	}
	v.sort();
	v
}

fn is_title(k: Kind, l: &str) -> bool {
	match k {
		Kind::Id3v2 => l.starts_with("TIT2 "),
		Kind::Id3v1 => l.starts_with("title "),
		Kind::Ape => l.len() > 6 && l[..6].eq_ignore_ascii_case("title "),
		Kind::Vorbis => l.len() > 6 && l.is_char_boundary(6) && l[..6].eq_ignore_ascii_case("title="),
		Kind::Ilst => l.starts_with("Fourcc([169, 110, 97, 109])"),
		Kind::Riff => l.starts_with("INAM="),
		_ => l.starts_with("name "),
	}
}

fn split(t: AnyTag, title: String) -> Option<AnyTag> {
	macro_rules! go {
		($t:expr, $v:ident) => {{
			let (rest, mut g) = $t.split_tag();
			g.set_title(title);
			AnyTag::$v(rest.merge_tag(g))
		}};
	}
	Some(match t {
		AnyTag::Id3v2(t) => go!(t, Id3v2),
		AnyTag::Id3v1(t) => go!(t, Id3v1),
		AnyTag::Ape(t) => go!(t, Ape),
		AnyTag::Vorbis(t) => go!(t, Vorbis),
		AnyTag::Ilst(t) => go!(t, Ilst),
		AnyTag::Riff(t) => go!(t, Riff),
		AnyTag::Aiff(t) => go!(t, Aiff),
		AnyTag::Generic(_) => return None,
	})
}

fn edit(d: &mut SimDisk, c: &Generic, how: How, title: &Txt, o: WOpts) -> Result<(), AnyErr> {
	let po = POpts::default().get();
	let fmt = c.f.fmt;
	d.seek(SeekFrom::Start(0))?;
	let ty = kind_type(c.kind).ok_or_else(|| AnyErr("no such type".into()))?;
	match how {
		How::Split => {
			let f = AnyFile::read(fmt, d, po)?;
			let t = f.get(c.kind).ok_or_else(|| AnyErr("the tag is gone".into()))?;
			let t = split(t, title.get()).ok_or_else(|| AnyErr("?".into()))?;
			d.seek(SeekFrom::Start(0))?;
			t.save_to(d, o.get())?;
		},
		How::Tagged => {
			let mut f = Probe::with_file_type(&mut *d, file_type(fmt)).options(po).read()?;
			f.tag_mut(ty).ok_or_else(|| AnyErr("the tag is gone".into()))?.set_title(title.get());
			f.save_to(d, o.get())?;
		},
		How::Bound => {
			let mut f = Probe::with_file_type(d, file_type(fmt)).options(po).read_bound()?;
			f.tag_mut(ty).ok_or_else(|| AnyErr("the tag is gone".into()))?.set_title(title.get());
			f.save(o.get())?;
		},
	}
	Ok(())
}

pub fn exec_generic(c: &Generic, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let mut data = c.f.bytes();
	let fmt = c.f.fmt;
	stats::named(&format!("fmt.{}", fmt.name()));
	stats::named(&format!("tag.{:?}", c.kind));
	let get = |d: &[u8]| -> Result<Vec<String>, Violation> {
		let (o, r) = outcome(catch(|| AnyFile::read(fmt, &mut SimDisk::new(d.to_vec()), POpts::default().get())));
		match (o, r) {
			(Outcome::Panic(p), _) => Err(viol("panic", p)),
			(_, Some(f)) => Ok(f.get(c.kind).map(|t| facts(&t)).unwrap_or_default()),
			(o, _) => Err(viol("unreadable", format!("{o:?}"))),
		}
	};
	let mut want = match get(&data) {
		Ok(w) => w,
		Err(_) => {
			ctx.cut += 1;
			return Ok(Vec::new());
		},
	};
	if want.is_empty() {
		ctx.cut += 1;
		return Ok(Vec::new());
	}
	for (i, (how, title, o)) in c.edits.iter().enumerate() {
		stats::named(&format!("{how:?}"));
		let mut d = SimDisk::new(data.clone());
		if let Some(n) = c.noise {
			d.rearm(Plan::noise(n));
		}
		d.budget = op_budget(data.len()) * 8;
		let (o, _) = outcome(catch(|| edit(&mut d, c, *how, title, *o)));
		ctx.sim(&d, d.soft_fired.get() > 0);
		let at = format!("{} {:?} edit {i} ({how:?})", fmt.name(), c.kind);
		match o {
			Outcome::Ok => {},
			Outcome::Panic(p) => return Ok(vec![viol("panic", format!("{at}: {p}"))]),
			Outcome::Budget => return Ok(vec![viol("no termination", at)]),
			o => return Ok(vec![viol("refused", format!("{at}: {o:?}"))]),
		}
		want.retain(|l| !is_title(c.kind, l));
		let got = match get(&d.data) {
			Ok(g) => g,
			Err(v) => return Ok(vec![v]),
		};
		let rest: Vec<String> = got.iter().filter(|l| !is_title(c.kind, l)).cloned().collect();
		if rest != want {
			return Ok(vec![viol(format!("{:?} lost or altered", c.kind), format!("{at}: {}", diff_lines(&want, &rest)))]);
		}
		let titles: Vec<&String> = got.iter().filter(|l| is_title(c.kind, l)).collect();
		let said = format!("{:?}", title.get());
		let has = titles.len() == 1 && (titles[0].contains(&said) || titles[0].ends_with(']'));
		if !has {
			return Ok(vec![viol(format!("{:?} title", c.kind), format!("{at}: {titles:?} instead of {said}"))]);
		}
		data = d.data;
	}
	Ok(Vec::new())
}
