//! The concrete file types of lofty behind one interface, and canonical readings.

use crate::dissect::Kind;
use crate::media::Fmt;
use crate::tags::{AnyTag, canon_generic, canon_pic};
use lofty::config::{ParseOptions, ParsingMode, WriteOptions};
use lofty::error::{FileEncodingError, FileParseError};
use lofty::file::{FileType, TaggedFile};
use lofty::ogg::OggPictureStorage;
use lofty::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Seek};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct POpts {
	#[serde(default)]
	pub no_props: bool,
	#[serde(default)]
	pub no_tags: bool,
	/// 0 strict, 1 best attempt, 2 relaxed
	pub mode: u8,
	#[serde(default)]
	pub no_art: bool,
	#[serde(default)]
	pub no_conv: bool,
	#[serde(default)]
	pub junk: Option<u32>,
}

impl Default for POpts {
	fn default() -> Self {
		Self {
			no_props: false,
			no_tags: false,
			mode: 1,
			no_art: false,
			no_conv: false,
			junk: None,
		}
	}
}

impl POpts {
	pub fn get(&self) -> ParseOptions {
		let mut o = ParseOptions::new();
		o = o.read_properties(!self.no_props);
		o = o.read_tags(!self.no_tags);
		o = o.parsing_mode(match self.mode {
			0 => ParsingMode::Strict,
			1 => ParsingMode::BestAttempt,
			_ => ParsingMode::Relaxed,
		});
		o = o.read_cover_art(!self.no_art);
		o = o.implicit_conversions(!self.no_conv);
		if let Some(j) = self.junk {
			o = o.max_junk_bytes(j as usize);
		}
		o
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Default, Serialize, Deserialize)]
pub struct WOpts {
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub pad: Option<u32>,
	#[serde(default)]
	pub no_respect_ro: bool,
	#[serde(default)]
	pub lower_id3: bool,
	#[serde(default)]
	pub v23: bool,
	#[serde(default)]
	pub lossy: bool,
	#[serde(default)]
	pub remove_others: bool,
	/// parse mode of the write (0 strict, 1 best attempt, 2 relaxed)
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub mode: Option<u8>,
}

impl WOpts {
	pub fn get(&self) -> WriteOptions {
		let mut o = WriteOptions::new();
		if let Some(p) = self.pad {
			o = o.preferred_padding(p);
		}
		if self.no_respect_ro {
			o = o.respect_read_only(false);
		}
		if self.lower_id3 {
			o = o.uppercase_id3v2_chunk(false);
		}
		if self.v23 {
			o = o.use_id3v23(true);
		}
		o = o.lossy_text_encoding(self.lossy);
		if self.remove_others {
			o = o.remove_others(true);
		}
		if let Some(m) = self.mode {
			o = o.parse_options(
				POpts {
					mode: m,
					..POpts::default()
				}
				.get(),
			);
		}
		o
	}
}

pub enum AnyFile {
	Mp3(lofty::mpeg::MpegFile),
	Aac(lofty::aac::AacFile),
	Ape(lofty::ape::ApeFile),
	Wv(lofty::wavpack::WavPackFile),
	Mpc(lofty::musepack::MpcFile),
	Wav(lofty::iff::wav::WavFile),
	Aiff(lofty::iff::aiff::AiffFile),
	Flac(lofty::flac::FlacFile),
	Vorbis(lofty::ogg::VorbisFile),
	Opus(lofty::ogg::OpusFile),
	Speex(lofty::ogg::SpeexFile),
	Mp4(lofty::mp4::Mp4File),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Reading {
	pub file_type: String,
	pub tags: BTreeMap<Kind, Vec<String>>,
	/// ID3v2 content without what depends on the version it was stored in
	pub loose: BTreeMap<Kind, Vec<String>>,
	pub extra: Vec<String>,
	pub props: String,
}

impl Reading {
	pub fn without_props(mut self) -> Self {
		self.props.clear();
		self
	}
}

macro_rules! each {
	($self:expr, $f:ident => $e:expr) => {
		match $self {
			AnyFile::Mp3($f) => $e,
			AnyFile::Aac($f) => $e,
			AnyFile::Ape($f) => $e,
			AnyFile::Wv($f) => $e,
			AnyFile::Mpc($f) => $e,
			AnyFile::Wav($f) => $e,
			AnyFile::Aiff($f) => $e,
			AnyFile::Flac($f) => $e,
			AnyFile::Vorbis($f) => $e,
			AnyFile::Opus($f) => $e,
			AnyFile::Speex($f) => $e,
			AnyFile::Mp4($f) => $e,
		}
	};
}

impl AnyFile {
	pub fn read<R: Read + Seek>(fmt: Fmt, r: &mut R, o: ParseOptions) -> Result<Self, FileParseError> {
		Ok(match fmt {
			Fmt::Mp3 => AnyFile::Mp3(AudioFile::read_from(r, o)?),
			Fmt::Aac => AnyFile::Aac(AudioFile::read_from(r, o)?),
			Fmt::Ape => AnyFile::Ape(AudioFile::read_from(r, o)?),
			Fmt::Wv => AnyFile::Wv(AudioFile::read_from(r, o)?),
			Fmt::Mpc7 | Fmt::Mpc8 => AnyFile::Mpc(AudioFile::read_from(r, o)?),
			Fmt::Wav => AnyFile::Wav(AudioFile::read_from(r, o)?),
			Fmt::Aiff => AnyFile::Aiff(AudioFile::read_from(r, o)?),
			Fmt::Flac => AnyFile::Flac(AudioFile::read_from(r, o)?),
			Fmt::OggVorbis => AnyFile::Vorbis(AudioFile::read_from(r, o)?),
			Fmt::OggOpus => AnyFile::Opus(AudioFile::read_from(r, o)?),
			Fmt::OggSpeex => AnyFile::Speex(AudioFile::read_from(r, o)?),
			Fmt::Mp4 => AnyFile::Mp4(AudioFile::read_from(r, o)?),
		})
	}

	pub fn tags(&self) -> Vec<(Kind, AnyTag)> {
		let mut v = Vec::new();
		macro_rules! opt {
			($x:expr, $k:ident) => {
				if let Some(t) = $x {
					let t = AnyTag::$k(t.clone());
					v.push((t.kind().unwrap(), t));
				}
			};
		}
		match self {
			AnyFile::Mp3(f) => {
				opt!(f.id3v2(), Id3v2);
				opt!(f.id3v1(), Id3v1);
				opt!(f.ape(), Ape);
			},
			AnyFile::Aac(f) => {
				opt!(f.id3v2(), Id3v2);
				opt!(f.id3v1(), Id3v1);
			},
			AnyFile::Ape(f) => {
				opt!(f.id3v2(), Id3v2);
				opt!(f.id3v1(), Id3v1);
				opt!(f.ape(), Ape);
			},
			AnyFile::Wv(f) => {
				opt!(f.id3v1(), Id3v1);
				opt!(f.ape(), Ape);
			},
			AnyFile::Mpc(f) => {
				opt!(f.id3v2(), Id3v2);
				opt!(f.id3v1(), Id3v1);
				opt!(f.ape(), Ape);
			},
			AnyFile::Wav(f) => {
				opt!(f.id3v2(), Id3v2);
				opt!(f.riff_info(), Riff);
			},
			AnyFile::Aiff(f) => {
				opt!(f.id3v2(), Id3v2);
				opt!(f.text_chunks(), Aiff);
			},
			AnyFile::Flac(f) => {
				opt!(f.id3v2(), Id3v2);
				opt!(f.vorbis_comments(), Vorbis);
			},
			AnyFile::Vorbis(f) => v.push((Kind::Vorbis, AnyTag::Vorbis(f.vorbis_comments().clone()))),
			AnyFile::Opus(f) => v.push((Kind::Vorbis, AnyTag::Vorbis(f.vorbis_comments().clone()))),
			AnyFile::Speex(f) => v.push((Kind::Vorbis, AnyTag::Vorbis(f.vorbis_comments().clone()))),
			AnyFile::Mp4(f) => opt!(f.ilst(), Ilst),
		}
		v
	}

	pub fn get(&self, k: Kind) -> Option<AnyTag> {
		self.tags().into_iter().find(|(x, _)| *x == k).map(|(_, t)| t)
	}

	/// Put a tag into the in-memory file. False when the file type cannot hold it.
	pub fn set(&mut self, t: AnyTag) -> bool {
		match (self, t) {
			(AnyFile::Mp3(f), AnyTag::Id3v2(t)) => drop(f.set_id3v2(t)),
			(AnyFile::Mp3(f), AnyTag::Id3v1(t)) => drop(f.set_id3v1(t)),
			(AnyFile::Mp3(f), AnyTag::Ape(t)) => drop(f.set_ape(t)),
			(AnyFile::Aac(f), AnyTag::Id3v2(t)) => drop(f.set_id3v2(t)),
			(AnyFile::Aac(f), AnyTag::Id3v1(t)) => drop(f.set_id3v1(t)),
			(AnyFile::Ape(f), AnyTag::Ape(t)) => drop(f.set_ape(t)),
			(AnyFile::Ape(f), AnyTag::Id3v1(t)) => drop(f.set_id3v1(t)),
			(AnyFile::Wv(f), AnyTag::Ape(t)) => drop(f.set_ape(t)),
			(AnyFile::Wv(f), AnyTag::Id3v1(t)) => drop(f.set_id3v1(t)),
			(AnyFile::Mpc(f), AnyTag::Ape(t)) => drop(f.set_ape(t)),
			(AnyFile::Wav(f), AnyTag::Id3v2(t)) => drop(f.set_id3v2(t)),
			(AnyFile::Wav(f), AnyTag::Riff(t)) => drop(f.set_riff_info(t)),
			(AnyFile::Aiff(f), AnyTag::Id3v2(t)) => drop(f.set_id3v2(t)),
			(AnyFile::Aiff(f), AnyTag::Aiff(t)) => drop(f.set_text_chunks(t)),
			(AnyFile::Flac(f), AnyTag::Vorbis(t)) => drop(f.set_vorbis_comments(t)),
			(AnyFile::Vorbis(f), AnyTag::Vorbis(t)) => drop(f.set_vorbis_comments(t)),
			(AnyFile::Opus(f), AnyTag::Vorbis(t)) => drop(f.set_vorbis_comments(t)),
			(AnyFile::Speex(f), AnyTag::Vorbis(t)) => drop(f.set_vorbis_comments(t)),
			(AnyFile::Mp4(f), AnyTag::Ilst(t)) => drop(f.set_ilst(t)),
			_ => return false,
		}
		true
	}

	pub fn remove(&mut self, k: Kind) -> bool {
		match (self, k) {
			(AnyFile::Mp3(f), Kind::Id3v2) => drop(f.remove_id3v2()),
			(AnyFile::Mp3(f), Kind::Id3v1) => drop(f.remove_id3v1()),
			(AnyFile::Mp3(f), Kind::Ape) => drop(f.remove_ape()),
			(AnyFile::Aac(f), Kind::Id3v2) => drop(f.remove_id3v2()),
			(AnyFile::Aac(f), Kind::Id3v1) => drop(f.remove_id3v1()),
			(AnyFile::Ape(f), Kind::Ape) => drop(f.remove_ape()),
			(AnyFile::Ape(f), Kind::Id3v1) => drop(f.remove_id3v1()),
			(AnyFile::Wv(f), Kind::Ape) => drop(f.remove_ape()),
			(AnyFile::Wv(f), Kind::Id3v1) => drop(f.remove_id3v1()),
			(AnyFile::Mpc(f), Kind::Ape) => drop(f.remove_ape()),
			(AnyFile::Wav(f), Kind::Id3v2) => drop(f.remove_id3v2()),
			(AnyFile::Wav(f), Kind::Riff) => drop(f.remove_riff_info()),
			(AnyFile::Aiff(f), Kind::Id3v2) => drop(f.remove_id3v2()),
			(AnyFile::Aiff(f), Kind::AiffText) => drop(f.remove_text_chunks()),
			(AnyFile::Flac(f), Kind::Vorbis) => drop(f.remove_vorbis_comments()),
			(AnyFile::Mp4(f), Kind::Ilst) => drop(f.remove_ilst()),
			_ => return false,
		}
		true
	}

	pub fn save_to<F: lofty::io::FileLike>(&self, d: &mut F, o: WriteOptions) -> Result<(), FileEncodingError> {
		each!(self, f => f.save_to(d, o))
	}

	pub fn save_to_path(&self, p: &std::path::Path, o: WriteOptions) -> Result<(), FileEncodingError> {
		each!(self, f => f.save_to_path(p, o))
	}

	pub fn into_tagged(self) -> TaggedFile {
		each!(self, f => f.into())
	}

	pub fn props(&self) -> String {
		each!(self, f => format!("{:?}", f.properties()))
	}

	pub fn reading(&self) -> Reading {
		let mut extra = Vec::new();
		if let AnyFile::Flac(f) = self {
			for (p, i) in f.pictures() {
				extra.push(format!("{} {i:?}", canon_pic(p)));
			}
		}
		let tags = self.tags();
		Reading {
			file_type: String::new(),
			loose: tags
				.iter()
				.filter(|(k, _)| *k == Kind::Id3v2)
				.map(|(k, t)| (*k, t.loose()))
				.collect(),
			tags: tags.into_iter().map(|(k, t)| (k, t.canon())).collect(),
			extra,
			props: self.props(),
		}
	}
}

pub fn read_concrete<R: Read + Seek>(fmt: Fmt, r: &mut R, o: ParseOptions) -> Result<Reading, FileParseError> {
	AnyFile::read(fmt, r, o).map(|f| f.reading())
}

/// The format-independent reading: what `Probe` makes of the stream
pub fn canon_tagged(f: &TaggedFile) -> Reading {
	let mut r = Reading {
		file_type: format!("{:?}", f.file_type()),
		props: format!("{:?}", f.properties()),
		..Reading::default()
	};
	for t in f.tags() {
		if let Some(k) = crate::tags::type_kind(t.tag_type()) {
			r.tags.insert(k, canon_generic(t));
		}
	}
	r.extra.push(format!("{:?}", f.primary_tag().map(lofty::tag::Tag::tag_type)));
	r
}

pub fn read_probe<R: Read + Seek>(r: R, o: ParseOptions) -> Result<Reading, FileParseError> {
	let f = lofty::probe::Probe::new(r).options(o).guess_file_type()?.read()?;
	Ok(canon_tagged(&f))
}

pub fn file_type(fmt: Fmt) -> FileType {
	match fmt {
		Fmt::Mp3 => FileType::Mpeg,
		Fmt::Aac => FileType::Aac,
		Fmt::Ape => FileType::Ape,
		Fmt::Wv => FileType::WavPack,
		Fmt::Mpc7 | Fmt::Mpc8 => FileType::Mpc,
		Fmt::Wav => FileType::Wav,
		Fmt::Aiff => FileType::Aiff,
		Fmt::Flac => FileType::Flac,
		Fmt::OggVorbis => FileType::Vorbis,
		Fmt::OggOpus => FileType::Opus,
		Fmt::OggSpeex => FileType::Speex,
		Fmt::Mp4 => FileType::Mp4,
	}
}
