//! What is set through the format-independent tag is found again (C14).

use crate::disk::{Noise, Plan, SimDisk};
use crate::dissect::Kind;
use crate::encode::{Foreign, gen_foreign};
use crate::engine::*;
use crate::files::{POpts, WOpts, file_type};
use crate::hist::{gen_noise, gen_wopts};
use crate::media::ALL_FMTS;
use crate::prop::Ctx;
use crate::rng::Rng;
use crate::run::catch;
use crate::stats;
use crate::tags::{PicSpec, TagSpec, Txt, canon_pic, kind_type, writable};
use lofty::file::{AudioFile, TaggedFile, TaggedFileExt};
use lofty::probe::Probe;
use lofty::tag::{ItemKey, ItemValue, Tag, TagExt, TagItem, TagType};
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom};

macro_rules! keys {
	($($k:ident,)+) => {
		const KEYS: &[(&str, ItemKey)] = &[$((stringify!($k), ItemKey::$k),)+];
	};
}

#[rustfmt::skip]
keys! {
	AlbumTitle, SetSubtitle, ShowName, ContentGroup, TrackTitle, TrackSubtitle, OriginalAlbumTitle, OriginalArtist, OriginalLyricist, AlbumTitleSortOrder,
	AlbumArtistSortOrder, TrackTitleSortOrder, TrackArtistSortOrder, ShowNameSortOrder, ComposerSortOrder, AlbumArtist, AlbumArtists, TrackArtist,
	TrackArtists, Arranger, Writer, Composer, Conductor, Director, Engineer, Lyricist, MixDj, MixEngineer, Performer, Producer, Publisher, Label,
	InternetRadioStationName, InternetRadioStationOwner, Remixer, DiscNumber, DiscTotal, TrackNumber, TrackTotal, Popularimeter, ParentalAdvisory,
	RecordingDate, Year, ReleaseDate, OriginalReleaseDate, Isrc, Barcode, AcoustId, AcoustIdFingerprint, CatalogNumber, Work, Movement, MovementNumber,
	MovementTotal, ReleaseCountry, MusicBrainzRecordingId, MusicBrainzTrackId, MusicBrainzReleaseId, MusicBrainzReleaseGroupId, MusicBrainzArtistId,
	MusicBrainzReleaseArtistId, MusicBrainzWorkId, MusicBrainzReleaseType, FlagCompilation, FlagPodcast, FileOwner, TaggingTime, Length, OriginalFileName,
	OriginalMediaType, EncodedBy, EncoderSoftware, EncoderSettings, EncodingTime, ReplayGainAlbumGain, ReplayGainAlbumPeak, ReplayGainTrackGain,
	ReplayGainTrackPeak, R128TrackGain, R128AlbumGain, AudioFileUrl, AudioSourceUrl, CommercialInformationUrl, CopyrightUrl, TrackArtistUrl,
	RadioStationUrl, PaymentUrl, PublisherUrl, Genre, InitialKey, Color, Mood, Bpm, IntegerBpm, CopyrightMessage, License, PodcastDescription,
	PodcastSeriesCategory, PodcastUrl, PodcastGlobalUniqueId, PodcastKeywords, Comment, Description, Language, Script, Lyrics, UnsyncLyrics, AppleXid,
	AppleId3v2ContentGroup,
}

/// How the values get into the file
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Put {
	/// `Tag::save_to`
	Save,
	/// A new tag of a file object
	Insert,
	/// Into the tag a file object read
	Add,
	/// The same over a bound file
	Bound,
	/// A tag of another type, converted
	Remap,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
	pub how: Put,
	pub items: Vec<(String, Vec<Txt>)>,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub pics: Vec<PicSpec>,
	pub o: WOpts,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Keyed {
	pub f: Foreign,
	pub kind: Kind,
	pub steps: Vec<Step>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
	Text,
	Number,
	Date,
	Flag,
	Advisory,
	Url,
	Ascii,
	Genre,
	Skip,
}

fn class(k: ItemKey, kind: Kind) -> Class {
	use ItemKey as K;
	match k {
		K::Popularimeter => Class::Skip,
		// the vendor string of Vorbis comments
		K::EncoderSoftware if kind == Kind::Vorbis => Class::Skip,
		K::DiscNumber | K::DiscTotal | K::TrackNumber | K::TrackTotal | K::MovementNumber | K::MovementTotal | K::IntegerBpm => Class::Number,
		K::RecordingDate | K::Year | K::ReleaseDate | K::OriginalReleaseDate | K::TaggingTime | K::EncodingTime => Class::Date,
		K::FlagCompilation | K::FlagPodcast => Class::Flag,
		K::ParentalAdvisory => Class::Advisory,
		K::AudioFileUrl | K::AudioSourceUrl | K::CommercialInformationUrl | K::CopyrightUrl | K::TrackArtistUrl | K::RadioStationUrl | K::PaymentUrl | K::PublisherUrl | K::PodcastUrl => Class::Url,
		K::MusicBrainzRecordingId => Class::Ascii,
		K::Genre => Class::Genre,
		_ => Class::Text,
	}
}

/// Whether ID3v2.3 has no counterpart (dates are split up)
fn later(k: ItemKey, kind: Kind) -> bool {
	use ItemKey as K;
	class(k, kind) == Class::Date || matches!(k, K::AlbumTitleSortOrder | K::TrackTitleSortOrder | K::TrackArtistSortOrder | K::Mood | K::SetSubtitle)
}

/// The key a value set under `k` is read back as
fn read_as(k: ItemKey, kind: Kind) -> Option<ItemKey> {
	use ItemKey as K;
	if kind == Kind::Id3v1 {
		return matches!(k, K::TrackTitle | K::TrackArtist | K::AlbumTitle | K::Comment | K::TrackNumber | K::Genre).then_some(k);
	}
	if kind == Kind::Id3v2 && matches!(k, K::MusicBrainzRecordingId | K::Producer | K::Arranger | K::Engineer | K::MixDj | K::MixEngineer) {
		return Some(k);
	}
	let t = kind_type(kind)?;
	let phys = k.map_key(t)?;
	match k {
		K::DiscNumber | K::DiscTotal | K::TrackNumber | K::TrackTotal | K::MovementNumber | K::MovementTotal => Some(k),
		_ => K::from_key(t, phys),
	}
}

/// Whether the type holds several values under the key
fn multi(k: ItemKey, kind: Kind) -> bool {
	use ItemKey as K;
	match kind {
		Kind::Ape | Kind::Vorbis | Kind::Ilst => matches!(class(k, kind), Class::Text | Class::Genre),
		Kind::Id3v2 => match k {
			K::TrackArtist
			| K::AlbumArtist
			| K::TrackTitle
			| K::AlbumTitle
			| K::SetSubtitle
			| K::TrackSubtitle
			| K::OriginalAlbumTitle
			| K::OriginalArtist
			| K::OriginalLyricist
			| K::ContentGroup
			| K::AppleId3v2ContentGroup
			| K::Genre
			| K::Mood
			| K::Composer
			| K::Conductor
			| K::Writer
			| K::Lyricist
			| K::InternetRadioStationName
			| K::InternetRadioStationOwner
			| K::Remixer
			| K::Movement
			| K::FileOwner
			| K::CopyrightMessage
			| K::Language
			| K::Publisher
			| K::Producer
			| K::Arranger
			| K::Engineer
			| K::MixDj
			| K::MixEngineer
			| K::Comment
			| K::UnsyncLyrics => true,
			K::ReplayGainAlbumGain | K::ReplayGainAlbumPeak | K::ReplayGainTrackGain | K::ReplayGainTrackPeak => false,
			// stored by a description
			_ => class(k, kind) == Class::Text && k.map_key(TagType::Id3v2).is_some_and(|i| i.len() != 4),
		},
		_ => false,
	}
}

fn find(name: &str) -> Option<ItemKey> {
	KEYS.iter().find(|k| k.0 == name).map(|k| k.1)
}

fn gen_value(r: &mut Rng, k: ItemKey, kind: Kind) -> Txt {
	let lit = |s: &str| Txt::Lit(s.into());
	match class(k, kind) {
		Class::Number => Txt::Lit(if kind == Kind::Id3v1 { 1 + r.below(255) } else { *r.pick(&[1, 7, 12, 99, 255, 256, 300]) }.to_string()),
		Class::Date => lit(*r.pick(&["1999", "2021-05", "2020-12-31", "2020-01-02T03:04:05"])),
		Class::Flag => lit(*r.pick(&["0", "1"])),
		Class::Advisory => lit(*r.pick(&["0", "1", "2"])),
		Class::Url => lit(*r.pick(&["http://a.example/", "https://b.example/x?y=z", "u"])),
		Class::Ascii => lit(*r.pick(&["3b1c2f52-0f5e-4a3a-8f3e-000000000000", "x"])),
		Class::Genre => lit(*r.pick(&["Rock", "Jazz", "Blues", "Acid Jazz"])),
		_ => match kind {
			Kind::Id3v1 => Txt::Gen { g: r.below(1 << 20), n: 1 + r.below(28) as u32, c: r.below(2) as u8 },
			Kind::AiffText => Txt::Gen { g: r.below(1 << 20), n: 1 + r.size(300, &[]) as u32, c: 0 },
			_ => {
				let n = if r.chance(1, 20) { 1 + r.size(5000, &[255, 256, 4095]) } else { 1 + r.below(40) };
				Txt::Gen { g: r.below(1 << 20), n: n as u32, c: r.below(4) as u8 }
			},
		},
	}
}

fn gen_step(r: &mut Rng, kind: Kind) -> Step {
	let mut o = gen_wopts(r, None);
	// ID3v2.3 knows fewer fields and neither several values nor all dates
	o.v23 = kind == Kind::Id3v2 && r.chance(1, 4);
	let how = match r.below(6) {
		0 | 1 => Put::Save,
		2 => Put::Insert,
		3 => Put::Add,
		4 => Put::Bound,
		_ => Put::Remap,
	};
	let mut items: Vec<(String, Vec<Txt>)> = Vec::new();
	let mut used: Vec<ItemKey> = Vec::new();
	for _ in 0..1 + r.below(6) {
		let (name, k) = *r.pick(KEYS);
		let Some(as_) = read_as(k, kind) else { continue };
		// what is there already may be stored under the same key
		let alias = matches!(how, Put::Add | Put::Bound) && as_ != k;
		if (o.v23 && later(k, kind)) || alias || class(k, kind) == Class::Skip || used.contains(&as_) {
			continue;
		}
		used.push(as_);
				let n = if multi(k, kind) && !o.v23 && r.chance(1, 2) { 1 + r.below(3) } else { 1 };
		let mut vs: Vec<Txt> = Vec::new();
		for _ in 0..n {
			let v = gen_value(r, k, kind);
			if vs.iter().all(|o| o.get() != v.get()) {
				vs.push(v);
			}
		}
		items.push((name.into(), vs));
	}
	Step { how, items, pics: Vec::new(), o }
}

pub fn gen_keyed(r: &mut Rng) -> Keyed {
	loop {
		let big = *r.pick(&[20, 300, 3000]);
		let f = gen_foreign(r, ALL_FMTS, big);
		let kind = *r.pick(writable(f.fmt));
		if kind == Kind::Lyrics3 {
			continue;
		}
		let n = 1 + r.below(4);
		let steps: Vec<Step> = (0..n).map(|_| gen_step(r, kind)).collect();
		if steps.iter().all(|s| s.items.is_empty()) {
			continue;
		}
		return Keyed { f, kind, steps, noise: if r.chance(1, 4) { Some(gen_noise(r)) } else { None } };
	}
}

fn items_of(s: &Step, kind: Kind) -> Vec<TagItem> {
	let mut v = Vec::new();
	for (name, vs) in &s.items {
		let Some(k) = find(name) else { continue };
		for t in vs {
			let t = t.get();
			let val = if class(k, kind) == Class::Url && matches!(kind, Kind::Id3v2 | Kind::Ape) { ItemValue::Locator(t) } else { ItemValue::Text(t) };
			v.push(TagItem::new(k, val));
		}
	}
	v
}

fn fill(t: &mut Tag, s: &Step, kind: Kind) {
	for (name, _) in &s.items {
		if let Some(k) = find(name) {
			t.remove_key(k);
		}
	}
	for i in items_of(s, kind) {
		// of no use to other types
		t.push_unchecked(i);
	}
}

fn put(d: &mut SimDisk, c: &Keyed, s: &Step) -> Result<(), AnyErr> {
	let po = POpts::default().get();
	let (fmt, kind) = (c.f.fmt, c.kind);
	let ty = kind_type(kind).ok_or_else(|| AnyErr("no such type".into()))?;
	d.seek(SeekFrom::Start(0))?;
	match s.how {
		Put::Save => {
			let mut t = Tag::new(ty);
			fill(&mut t, s, kind);
			t.save_to(d, s.o.get())?;
		},
		Put::Remap => {
			let other = if ty == TagType::Ape { TagType::VorbisComments } else { TagType::Ape };
			let mut t = Tag::new(other);
			fill(&mut t, s, kind);
			t.re_map(ty);
			t.save_to(d, s.o.get())?;
		},
		Put::Insert => {
			let mut f = Probe::with_file_type(&mut *d, file_type(fmt)).options(po).read()?;
			let mut t = Tag::new(ty);
			fill(&mut t, s, kind);
			f.insert_tag(t);
			f.save_to(d, s.o.get())?;
		},
		Put::Add => {
			let mut f = Probe::with_file_type(&mut *d, file_type(fmt)).options(po).read()?;
			if f.tag(ty).is_none() {
				f.insert_tag(Tag::new(ty));
			}
			fill(f.tag_mut(ty).ok_or_else(|| AnyErr("the tag is gone".into()))?, s, kind);
			f.save_to(d, s.o.get())?;
		},
		Put::Bound => {
			let mut f = Probe::with_file_type(d, file_type(fmt)).options(po).read_bound()?;
			if f.tag(ty).is_none() {
				f.insert_tag(Tag::new(ty));
			}
			fill(f.tag_mut(ty).ok_or_else(|| AnyErr("the tag is gone".into()))?, s, kind);
			f.save(s.o.get())?;
		},
	}
	Ok(())
}

pub fn exec_keyed(c: &Keyed, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let mut data = c.f.bytes();
	let fmt = c.f.fmt;
	let ty = kind_type(c.kind).ok_or("no such type")?;
	stats::named(&format!("fmt.{}", fmt.name()));
	stats::named(&format!("tag.{:?}", c.kind));
	let read = |d: &[u8]| -> (Outcome, Option<TaggedFile>) {
		outcome(catch(|| Probe::with_file_type(SimDisk::new(d.to_vec()), file_type(fmt)).options(POpts::default().get()).read()))
	};
	if !matches!(read(&data), (Outcome::Ok, _)) {
		ctx.cut += 1;
		return Ok(Vec::new());
	}
	let mut model: Vec<(ItemKey, Vec<String>)> = Vec::new();
	for (i, s) in c.steps.iter().enumerate() {
		stats::named(&format!("{:?}", s.how));
		if s.items.is_empty() {
			continue;
		}
		let mut d = SimDisk::new(data.clone());
		if let Some(n) = c.noise {
			d.rearm(Plan::noise(n));
		}
		d.budget = op_budget(data.len()) * 8;
		let (o, _) = outcome(catch(|| put(&mut d, c, s)));
		ctx.sim(&d, d.soft_fired.get() > 0);
		let at = format!("{} {:?} step {i} ({:?})", fmt.name(), c.kind, s.how);
		match o {
			Outcome::Ok => {},
			Outcome::Panic(p) => return Ok(vec![viol("panic", format!("{at}: {p}"))]),
			Outcome::Budget => return Ok(vec![viol("no termination", at)]),
			o => return Ok(vec![viol("refused", format!("{at}: {o:?}"))]),
		}
		if !matches!(s.how, Put::Add | Put::Bound) {
			model.clear();
		}
		if s.o.v23 {
			model.retain(|m| m.1.len() < 2 && !later(m.0, c.kind));
		}
		for (name, vs) in &s.items {
			let Some(k) = find(name) else { continue };
			let Some(k) = read_as(k, c.kind) else { continue };
			model.retain(|m| m.0 != k);
			model.push((k, vs.iter().map(Txt::get).collect()));
		}
		let (o, f) = read(&d.data);
		let Some(f) = f else {
			return Ok(vec![viol("unreadable", format!("{at}: {o:?}"))]);
		};
		let Some(t) = f.tag(ty) else {
			return Ok(vec![viol("no tag", at)]);
		};
		for (k, want) in &model {
			let got: Vec<&str> = t.get_items(*k).filter_map(|i| i.value().text().or(i.value().locator())).collect();
			if got != *want {
				return Ok(vec![viol(format!("{:?} {k:?}", c.kind), format!("{at}: {got:?} instead of {want:?}"))]);
			}
		}
		data = d.data;
	}
	Ok(Vec::new())
}
