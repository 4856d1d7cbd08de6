//! Builders for the initial contents of the simulated device: one per audio format, written from the
//! format specifications and independent of lofty's own writers. Every builder is a pure function of
//! its parameters, so a case file names the image instead of containing it.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Fmt {
	Mp3,
	Aac,
	Ape,
	Wv,
	Mpc7,
	Mpc8,
	Wav,
	Aiff,
	Flac,
	OggVorbis,
	OggOpus,
	OggSpeex,
	Mp4,
}

pub const ALL_FMTS: &[Fmt] = &[
	Fmt::Mp3,
	Fmt::Aac,
	Fmt::Ape,
	Fmt::Wv,
	Fmt::Mpc7,
	Fmt::Mpc8,
	Fmt::Wav,
	Fmt::Aiff,
	Fmt::Flac,
	Fmt::OggVorbis,
	Fmt::OggOpus,
	Fmt::OggSpeex,
	Fmt::Mp4,
];

impl Fmt {
	pub fn is_vorbis(self) -> bool {
		matches!(self, Fmt::OggVorbis | Fmt::OggOpus | Fmt::OggSpeex)
	}

	pub fn name(self) -> &'static str {
		match self {
			Fmt::Mp3 => "mp3",
			Fmt::Aac => "aac",
			Fmt::Ape => "ape",
			Fmt::Wv => "wv",
			Fmt::Mpc7 => "mpc7",
			Fmt::Mpc8 => "mpc8",
			Fmt::Wav => "wav",
			Fmt::Aiff => "aiff",
			Fmt::Flac => "flac",
			Fmt::OggVorbis => "vorbis",
			Fmt::OggOpus => "opus",
			Fmt::OggSpeex => "speex",
			Fmt::Mp4 => "mp4",
		}
	}
}

/// Optional parts of a synthetic file
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Feat {
	/// Foreign tags, in the encodings lofty itself never writes
	Id3v2 {
		version: u8,
		unsync: bool,
		footer: bool,
		pad: u32,
		text: u32,
	},
	Ape {
		v2: bool,
		header: bool,
		text: u32,
	},
	Id3v1 {
		text: u32,
	},
	Lyrics3 {
		text: u32,
	},
	/// Bytes that are neither a tag nor audio, before the audio
	Junk {
		len: u32,
	},
	/// A literal that looks like the start of something else, inside the audio payload
	Literal {
		what: u8,
		at: u32,
	},
	/// Container chunk / block / atom that is not a tag (`id` selects one of a few, or a private one)
	Chunk {
		id: u8,
		len: u32,
		/// placed after the audio data
		after: bool,
	},
	/// Native tag of the container (RIFF INFO, AIFF text, Vorbis comment, ilst), foreign-written
	Native {
		text: u32,
		after: bool,
	},
	/// Padding of the container kind (FLAC PADDING, MP4 free, JUNK)
	Padding {
		len: u32,
	},
	/// Trailing bytes after the container's end
	Trailing {
		len: u32,
	},
	/// MP4: media data before the movie box
	MdatFirst,
	/// MP4: media data both in front of the moov and behind it. The chunks in front: every other one (bit 7) or
	/// the first n
	MdatSplit { n: u8 },
	/// MP4: 64 bit chunk offsets
	Co64,
	/// MP4: 64 bit size of mdat
	LargeMdat,
	/// MP4: create `udta` (1: empty, 2: with meta without ilst, 3: with another child)
	Udta {
		kind: u8,
	},
	/// MP4: meta without version/flags
	NonFullMeta,
	/// MP4: second track
	TwoTracks,
	/// MP4: fragments with absolute base data offsets
	Moof {
		n: u8,
	},
	/// MP4: mdat extends to the end of the file (size 0)
	MdatToEof,
	/// OGG: second logical stream, between the pages after the headers
	SecondStream,
	/// OGG: packets that fill (most of) a page, or more than one
	LargePackets { n: u8 },
	/// OGG: maximum segments per page
	PageSegs {
		n: u8,
	},
	/// OGG: comment and setup packets on separate pages
	SplitHeaders,
	/// FLAC/MP3: picture
	Pic {
		len: u32,
	},
	/// MP3: Xing/Info header frame
	Xing,
	/// MP3: an APEv2 tag in front of the audio
	LeadApe {
		text: u32,
	},
	/// MP4: 64 bit sizes for the atoms the mask selects
	LongSizes {
		mask: u16,
	},
	/// OGG: a second logical stream after the end of the first
	Chained,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Base {
	Synth {
		fmt: Fmt,
		seed: u64,
		/// Size of the audio, in format-specific units (frames, packets, samples)
		units: u32,
		#[serde(default)]
		feats: Vec<Feat>,
	},
	/// A file of /verif/sim/assets
	Asset { name: String },
	/// Literal bytes (hex)
	Hex { data: String },
	/// A file whose tags were written by another program
	Foreign { f: Box<crate::encode::Foreign> },
}

impl Base {
	pub fn build(&self) -> Option<Vec<u8>> {
		Some(match self {
			Base::Synth {
				fmt,
				seed,
				units,
				feats,
			} => build(*fmt, *seed, (*units).min(4096), feats),
			Base::Asset { name } => crate::assets::get(name)?,
			Base::Foreign { f } => f.bytes(),
			Base::Hex { data } => {
				let d = data.as_bytes();
				let mut v = Vec::with_capacity(d.len() / 2);
				for c in d.chunks_exact(2) {
					v.push(u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()?);
				}
				v
			},
		})
	}
}

// ---------------------------------------------------------------------------------------------
// raw foreign tags

/// Tags that take the place of the generated ones, once each
#[derive(Default)]
pub struct Inject {
	pub id3v2: Option<Vec<u8>>,
	pub ape: Option<Vec<u8>>,
	pub id3v1: Option<Vec<u8>>,
	pub vorbis: Option<Vec<u8>>,
	/// picture blocks of FLAC
	pub pics: Vec<Vec<u8>>,
	/// the atoms within `ilst`
	pub ilst: Option<Vec<u8>>,
	/// the chunks within `LIST INFO`
	pub riff: Option<Vec<u8>>,
	/// identifier and content
	pub aiff: Option<Vec<(&'static [u8; 4], Vec<u8>)>>,
	/// what describes the audio, and the audio itself
	pub audio: AudioParts,
}

#[derive(Default)]
pub struct AudioParts {
	/// MPEG, ADTS, APE, WavPack, Musepack: the whole stream; others: the audio data
	pub body: Option<Vec<u8>>,
	/// `fmt `, `COMM`, STREAMINFO, identification packet, `stsd`
	pub head: Option<Vec<u8>>,
	/// WAV
	pub fact: Option<u32>,
	/// AIFC
	pub aifc: bool,
	/// Ogg: packets and granule positions
	pub packets: Vec<(Vec<u8>, u64)>,
	/// MP4: contents of `mdhd` and `stts`
	pub mdhd: Option<Vec<u8>>,
	pub stts: Option<Vec<u8>>,
}

thread_local! {
	static INJECT: std::cell::RefCell<Inject> = std::cell::RefCell::new(Inject::default());
}

/// Build a file with the given tags in place of generated ones
pub fn build_with(fmt: Fmt, seed: u64, units: u32, feats: &[Feat], i: Inject) -> Vec<u8> {
	INJECT.with(|x| *x.borrow_mut() = i);
	let d = build(fmt, seed, units, feats);
	INJECT.with(|x| *x.borrow_mut() = Inject::default());
	d
}

fn injected<T>(f: impl FnOnce(&mut Inject) -> T) -> T {
	INJECT.with(|x| f(&mut x.borrow_mut()))
}

fn word(rng: &mut Rng, n: u32) -> String {
	let n = n.min(200_000);
	let mut s = String::with_capacity(n as usize);
	for _ in 0..n {
		let c = *rng.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 ") as char;
		s.push(c);
	}
	if s.is_empty() {
		s.push('x');
	}
	// neither leading nor trailing blanks
	let t = s.trim();
	if t.is_empty() { "x".into() } else { t.replace("  ", " _").replace("TAG", "tag") }
}

pub fn synchsafe(n: u32) -> [u8; 4] {
	[
		(n >> 21) as u8 & 0x7F,
		(n >> 14) as u8 & 0x7F,
		(n >> 7) as u8 & 0x7F,
		n as u8 & 0x7F,
	]
}

pub fn raw_id3v2(rng: &mut Rng, version: u8, unsync: bool, footer: bool, pad: u32, text: u32) -> Vec<u8> {
	if let Some(t) = injected(|i| i.id3v2.take()) {
		return t;
	}
	let version = version.clamp(2, 4);
	let footer = footer && version == 4;
	let mut body = Vec::new();
	let mut frames: Vec<(&str, Vec<u8>)> = Vec::new();
	let title = word(rng, text);
	let mut t = vec![0u8];
	t.extend_from_slice(title.as_bytes());
	frames.push((if version == 2 { "TT2" } else { "TIT2" }, t));
	// UTF-16 with BOM
	let mut a = vec![1u8, 0xFF, 0xFE];
	for c in "Ärtist ÿ".encode_utf16() {
		a.extend_from_slice(&c.to_le_bytes());
	}
	frames.push((if version == 2 { "TP1" } else { "TPE1" }, a));
	let mut c = vec![0u8];
	c.extend_from_slice(b"eng");
	c.extend_from_slice(b"\0a comment");
	frames.push((if version == 2 { "COM" } else { "COMM" }, c));
	if version > 2 {
		let mut p = b"owner@example\0".to_vec();
		p.extend_from_slice(&[0xFF, 0x00, 0xFF, 0xE0, 0x00, 0xFF]);
		frames.push(("PRIV", p));
	}
	frames.push((if version == 2 { "TRK" } else { "TRCK" }, b"\x003/9".to_vec()));
	for (id, data) in frames {
		let mut data = data;
		let mut flags = [0u8, 0];
		if version == 4 && unsync {
			data = unsynchronise(&data);
			flags[1] |= 0x02;
		}
		body.extend_from_slice(id.as_bytes());
		match version {
			2 => body.extend_from_slice(&(data.len() as u32).to_be_bytes()[1..]),
			3 => {
				body.extend_from_slice(&(data.len() as u32).to_be_bytes());
				body.extend_from_slice(&flags);
			},
			_ => {
				body.extend_from_slice(&synchsafe(data.len() as u32));
				body.extend_from_slice(&flags);
			},
		}
		body.extend_from_slice(&data);
	}
	if unsync && version < 4 {
		body = unsynchronise(&body);
	}
	if !footer {
		body.resize(body.len() + pad.min(1 << 16) as usize, 0);
	}
	let mut out = b"ID3".to_vec();
	let fl = if unsync { 0x80 } else { 0 } | if footer { 0x10 } else { 0 };
	out.extend_from_slice(&[version, 0, fl]);
	out.extend_from_slice(&synchsafe(body.len() as u32));
	let head = out.clone();
	out.extend_from_slice(&body);
	if footer {
		out.extend_from_slice(b"3DI");
		out.extend_from_slice(&head[3..]);
	}
	out
}

pub fn unsynchronise(d: &[u8]) -> Vec<u8> {
	let mut out = Vec::with_capacity(d.len() + 8);
	for (i, b) in d.iter().enumerate() {
		out.push(*b);
		if *b == 0xFF {
			match d.get(i + 1) {
				None => out.push(0),
				Some(n) if *n >= 0xE0 || *n == 0 => out.push(0),
				_ => {},
			}
		}
	}
	out
}

pub fn raw_ape(rng: &mut Rng, v2: bool, header: bool, text: u32) -> Vec<u8> {
	if let Some(t) = injected(|i| i.ape.take()) {
		return t;
	}
	let mut items = Vec::new();
	let mut n = 0u32;
	let mut push = |key: &str, flags: u32, val: &[u8]| {
		items.extend_from_slice(&(val.len() as u32).to_le_bytes());
		items.extend_from_slice(&flags.to_le_bytes());
		items.extend_from_slice(key.as_bytes());
		items.push(0);
		items.extend_from_slice(val);
		n += 1;
	};
	push("Title", 0, word(rng, text).as_bytes());
	push("Artist", 0, "Ärtist".as_bytes());
	push("Xbin", 2, &[0, 1, 2, 0xFF, 0xFE, 0]);
	let version: u32 = if v2 { 2000 } else { 1000 };
	let header = header && v2;
	let mut foot = |is_header: bool| {
		let mut f = b"APETAGEX".to_vec();
		f.extend_from_slice(&version.to_le_bytes());
		f.extend_from_slice(&(items.len() as u32 + 32).to_le_bytes());
		f.extend_from_slice(&n.to_le_bytes());
		let mut fl = 0u32;
		if v2 {
			if header {
				fl |= 1 << 31;
			}
			if is_header {
				fl |= 1 << 29;
			}
		}
		f.extend_from_slice(&fl.to_le_bytes());
		f.extend_from_slice(&[0; 8]);
		f
	};
	let h = foot(true);
	let f = foot(false);
	let mut out = Vec::new();
	if header {
		out.extend_from_slice(&h);
	}
	out.extend_from_slice(&items);
	out.extend_from_slice(&f);
	out
}

pub fn raw_id3v1(rng: &mut Rng, text: u32) -> Vec<u8> {
	if let Some(t) = injected(|i| i.id3v1.take()) {
		return t;
	}
	let mut t = vec![0u8; 128];
	t[..3].copy_from_slice(b"TAG");
	let w = word(rng, text.min(30));
	t[3..3 + w.len()].copy_from_slice(w.as_bytes());
	t[33..39].copy_from_slice(b"Artist");
	t[93..97].copy_from_slice(b"1999");
	t[97..104].copy_from_slice(b"comment");
	t[126] = 7;
	t[127] = 12;
	t
}

pub fn raw_lyrics3(rng: &mut Rng, text: u32) -> Vec<u8> {
	let w = word(rng, text.clamp(1, 90_000));
	let mut body = b"LYRICSBEGININD0000200".to_vec();
	body.extend_from_slice(format!("INF{:05}{}", w.len(), w).as_bytes());
	let n = body.len();
	body.extend_from_slice(format!("{n:06}LYRICS200").as_bytes());
	body
}

/// Audio-like bytes that contain no frame sync, tag marker or text
pub fn opaque(rng: &mut Rng, n: usize) -> Vec<u8> {
	let mut v = rng.bytes(n);
	for b in &mut v {
		*b = match *b {
			0xE0..=0xFF => *b & 0x9F,
			0x20..=0x7E => *b | 0x80,
			x => x,
		};
		if *b >= 0xE0 {
			*b = 0x81;
		}
	}
	v
}

pub const LITERALS: &[&[u8]] = &[
	b"ID3",
	b"ID3\x04\x00\x00\x00\x00\x00\x0A",
	b"ID3\x09\xFF\xFF\xFF\xFF\xFF\xFF",
	b"TAG",
	b"APETAGEX",
	b"LYRICS200",
	b"OggS",
	b"fLaC",
	b"data",
	b"3DI",
];

fn apply_literals(payload: &mut [u8], feats: &[Feat], from: usize) {
	for f in feats {
		if let Feat::Literal { what, at } = f {
			let lit = LITERALS[*what as usize % LITERALS.len()];
			// not where a tag at the end of the file could be
			let end = payload.len().saturating_sub(200);
			if end > from + lit.len() {
				let at = from + *at as usize % (end - from - lit.len());
				payload[at..at + lit.len()].copy_from_slice(lit);
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------
// audio streams of the "envelope" formats

pub const MP3_FRAME: usize = 417;

fn mp3_frames(rng: &mut Rng, units: u32, feats: &[Feat]) -> Vec<u8> {
	let n = units.clamp(2, 200);
	let mut out = Vec::new();
	let xing = feats.contains(&Feat::Xing);
	for i in 0..n {
		// MPEG 1 layer 3, 128 kbps, 44100 Hz, no padding: 417 bytes
		let mut fr = vec![0xFF, 0xFB, 0x90, 0x04];
		let mut body = opaque(rng, MP3_FRAME - 4);
		if i == 0 && xing {
			body.iter_mut().for_each(|b| *b = 0);
			body[32..36].copy_from_slice(b"Xing");
			body[36..40].copy_from_slice(&3u32.to_be_bytes());
			body[40..44].copy_from_slice(&(n - 1).to_be_bytes());
			body[44..48].copy_from_slice(&((n - 1) * MP3_FRAME as u32).to_be_bytes());
		} else {
			apply_literals(&mut body, if i < 2 { feats } else { &[] }, 0);
		}
		fr.extend_from_slice(&body);
		out.extend_from_slice(&fr);
	}
	out
}

fn aac_frames(rng: &mut Rng, units: u32, feats: &[Feat]) -> Vec<u8> {
	let n = units.clamp(2, 200);
	let mut out = Vec::new();
	for i in 0..n {
		let len: usize = 100;
		let mut fr = vec![
			0xFF,
			0xF1,
			0x50,
			0x80 | ((len >> 11) as u8 & 3),
			(len >> 3) as u8,
			((len & 7) << 5) as u8 | 0x1F,
			0xFC,
		];
		let mut body = opaque(rng, len - 7);
		apply_literals(&mut body, if i < 2 { feats } else { &[] }, 0);
		fr.extend_from_slice(&body);
		out.extend_from_slice(&fr);
	}
	out
}

fn mac_stream(rng: &mut Rng, units: u32, feats: &[Feat]) -> Vec<u8> {
	let mut o = b"MAC ".to_vec();
	o.extend_from_slice(&3990u16.to_le_bytes());
	o.extend_from_slice(&0u16.to_le_bytes());
	o.extend_from_slice(&52u32.to_le_bytes()); // descriptor bytes
	o.extend_from_slice(&24u32.to_le_bytes()); // header bytes
	o.extend_from_slice(&0u32.to_le_bytes()); // seek table
	o.extend_from_slice(&44u32.to_le_bytes()); // wav header
	let audio = units.clamp(1, 4096) * 16;
	o.extend_from_slice(&audio.to_le_bytes());
	o.extend_from_slice(&0u32.to_le_bytes());
	o.extend_from_slice(&0u32.to_le_bytes());
	o.extend_from_slice(&[0x11; 16]); // md5
	// header
	o.extend_from_slice(&2000u16.to_le_bytes());
	o.extend_from_slice(&0u16.to_le_bytes());
	o.extend_from_slice(&73728u32.to_le_bytes());
	o.extend_from_slice(&500u32.to_le_bytes());
	o.extend_from_slice(&3u32.to_le_bytes());
	o.extend_from_slice(&16u16.to_le_bytes());
	o.extend_from_slice(&2u16.to_le_bytes());
	o.extend_from_slice(&44100u32.to_le_bytes());
	let mut a = opaque(rng, audio as usize);
	apply_literals(&mut a, feats, 0);
	o.extend_from_slice(&a);
	o
}

fn wv_stream(rng: &mut Rng, units: u32, feats: &[Feat]) -> Vec<u8> {
	let mut o = Vec::new();
	let n = units.clamp(1, 40);
	for i in 0..n {
		let mut body = opaque(rng, 96);
		apply_literals(&mut body, if i == 0 { feats } else { &[] }, 0);
		o.extend_from_slice(b"wvpk");
		o.extend_from_slice(&(24 + body.len() as u32).to_le_bytes());
		o.extend_from_slice(&0x0407u16.to_le_bytes());
		o.extend_from_slice(&[0, 0]);
		o.extend_from_slice(&(n * 4410).to_le_bytes());
		o.extend_from_slice(&(i * 4410).to_le_bytes());
		o.extend_from_slice(&4410u32.to_le_bytes());
		// 16 bit, stereo, initial + final block, 44100 Hz (index 9)
		let flags: u32 = 1 | (1 << 11) | (1 << 12) | (9 << 23);
		o.extend_from_slice(&flags.to_le_bytes());
		o.extend_from_slice(&[0x12, 0x34, 0x56, 0x78]);
		o.extend_from_slice(&body);
	}
	o
}

fn mpc7_stream(rng: &mut Rng, units: u32, feats: &[Feat]) -> Vec<u8> {
	let mut o = b"MP+\x07".to_vec();
	o.extend_from_slice(&units.clamp(2, 4096).to_le_bytes());
	// profile/link/sample freq, peaks, gains
	o.extend_from_slice(&[0xFF, 0x7F, 0xA0, 0x5A]);
	o.extend_from_slice(&[0x00, 0x20, 0x11, 0x22]);
	o.extend_from_slice(&[0x33, 0x21, 0x11, 0x22]);
	o.extend_from_slice(&[0x00, 0x00, 0x90, 0x84]);
	o.extend_from_slice(&[0x74, 0x00, 0x00, 0x00]);
	let mut a = opaque(rng, units.clamp(2, 4096) as usize * 12);
	apply_literals(&mut a, feats, 0);
	o.extend_from_slice(&a);
	o
}

fn mpc8_stream(rng: &mut Rng, units: u32, feats: &[Feat]) -> Vec<u8> {
	let mut o = b"MPCK".to_vec();
	let pkt = |o: &mut Vec<u8>, key: &[u8; 2], body: &[u8]| {
		o.extend_from_slice(key);
		let mut total = body.len() as u64 + 3;
		let mut enc = vec![];
		if total > 127 {
			total += 1;
			if total > 16383 {
				total += 1;
				enc.push(0x80 | (total >> 14) as u8);
			}
			enc.push(0x80 | (total >> 7) as u8 & 0x7F | 0x80);
		}
		enc.push((total & 0x7F) as u8);
		o.extend_from_slice(&enc);
		o.extend_from_slice(body);
	};
	// stream header: crc, version 8, sample count (vlq), begin silence, freq/bands, channels/ms/frames
	let mut sh = vec![0xDE, 0xAD, 0xBE, 0xEF, 8];
	sh.extend_from_slice(&[0x82, 0x40, 0x00]);
	sh.push(0);
	sh.extend_from_slice(&[0x1B, 0x1B]);
	pkt(&mut o, b"SH", &sh);
	pkt(&mut o, b"RG", &[1, 0x40, 0x11, 0x5A, 0x22, 0x40, 0x11, 0x5A, 0x22]);
	pkt(&mut o, b"EI", &[0xA1, 1, 30, 1]);
	let mut a = opaque(rng, (units.clamp(2, 4096) as usize * 7).min(16_000));
	apply_literals(&mut a, feats, 0);
	pkt(&mut o, b"AP", &a);
	pkt(&mut o, b"SE", &[]);
	o
}

fn envelope(rng: &mut Rng, fmt: Fmt, units: u32, feats: &[Feat]) -> Vec<u8> {
	let body = injected(|i| i.audio.body.take());
	let stream = match fmt {
		_ if body.is_some() => body.unwrap_or_default(),
		Fmt::Mp3 => mp3_frames(rng, units, feats),
		Fmt::Aac => aac_frames(rng, units, feats),
		Fmt::Ape => mac_stream(rng, units, feats),
		Fmt::Wv => wv_stream(rng, units, feats),
		Fmt::Mpc7 => mpc7_stream(rng, units, feats),
		_ => mpc8_stream(rng, units, feats),
	};
	let mut head = Vec::new();
	let mut junk = Vec::new();
	let mut lead = Vec::new();
	let (mut ape, mut lyr, mut v1) = (Vec::new(), Vec::new(), Vec::new());
	for f in feats {
		match f {
			Feat::Id3v2 {
				version,
				unsync,
				footer,
				pad,
				text,
			} if fmt != Fmt::Wv => {
				head.extend_from_slice(&raw_id3v2(rng, *version, *unsync, *footer, *pad, *text));
			},
			Feat::LeadApe { text } if lead.is_empty() && fmt == Fmt::Mp3 => {
				lead = raw_ape(rng, true, true, *text);
			},
			Feat::Ape { v2, header, text } if ape.is_empty() && fmt != Fmt::Aac => {
				ape = raw_ape(rng, *v2, *header, *text);
			},
			Feat::Id3v1 { text } if v1.is_empty() => v1 = raw_id3v1(rng, *text),
			Feat::Lyrics3 { text } if lyr.is_empty() && fmt != Fmt::Aac => {
				lyr = raw_lyrics3(rng, *text);
			},
			Feat::Junk { len } if junk.is_empty() && matches!(fmt, Fmt::Mp3 | Fmt::Aac) => {
				junk.extend_from_slice(&opaque(rng, (*len).min(900) as usize));
			},
			_ => {},
		}
	}
	// Lyrics3 sits directly before ID3v1
	if v1.is_empty() && !lyr.is_empty() {
		v1 = raw_id3v1(rng, 5);
	}
	let mut out = head;
	out.extend_from_slice(&lead);
	out.extend_from_slice(&junk);
	out.extend_from_slice(&stream);
	out.extend_from_slice(&ape);
	out.extend_from_slice(&lyr);
	out.extend_from_slice(&v1);
	out
}

// ---------------------------------------------------------------------------------------------
// RIFF / AIFF

pub fn chunk(out: &mut Vec<u8>, id: &[u8], data: &[u8], be: bool) {
	out.extend_from_slice(id);
	let n = data.len() as u32;
	out.extend_from_slice(&if be { n.to_be_bytes() } else { n.to_le_bytes() });
	out.extend_from_slice(data);
	if data.len() % 2 == 1 {
		out.push(0);
	}
}

fn wav(rng: &mut Rng, units: u32, feats: &[Feat]) -> Vec<u8> {
	let mut fmt = Vec::new();
	fmt.extend_from_slice(&1u16.to_le_bytes());
	fmt.extend_from_slice(&1u16.to_le_bytes());
	fmt.extend_from_slice(&8000u32.to_le_bytes());
	fmt.extend_from_slice(&8000u32.to_le_bytes());
	fmt.extend_from_slice(&1u16.to_le_bytes());
	fmt.extend_from_slice(&8u16.to_le_bytes());
	let mut pre = Vec::new();
	let mut post = Vec::new();
	let fmt = injected(|i| i.audio.head.take()).unwrap_or(fmt);
	chunk(&mut pre, b"fmt ", &fmt, false);
	if let Some(n) = injected(|i| i.audio.fact.take()) {
		chunk(&mut pre, b"fact", &n.to_le_bytes(), false);
	}
	let mut trailing = 0;
	for f in feats {
		match f {
			Feat::Chunk { id, len, after } => {
				let ids: [&[u8; 4]; 5] = [b"bext", b"cue ", b"JUNK", b"xpvt", b"LIST"];
				let id = ids[*id as usize % 5];
				let mut d = opaque(rng, (*len).min(70_000) as usize);
				if id == b"LIST" {
					let mut x = b"adtl".to_vec();
					x.extend_from_slice(&d);
					d = x;
				}
				chunk(if *after { &mut post } else { &mut pre }, id, &d, false);
			},
			Feat::Native { text, after } => {
				let mut d = b"INFO".to_vec();
				if let Some(t) = injected(|i| i.riff.take()) {
					d.extend_from_slice(&t);
				} else {
					let mut t = word(rng, *text).into_bytes();
					t.push(0);
					chunk(&mut d, b"INAM", &t, false);
					chunk(&mut d, b"IART", b"Artist\0\0", false);
				}
				chunk(if *after { &mut post } else { &mut pre }, b"LIST", &d, false);
			},
			Feat::Id3v2 {
				version,
				unsync,
				pad,
				text,
				footer,
			} => {
				let t = raw_id3v2(rng, *version, *unsync, false, *pad, *text);
				let lower = *footer;
				chunk(
					if rng.chance(1, 2) { &mut post } else { &mut pre },
					if lower { b"id3 " } else { b"ID3 " },
					&t,
					false,
				);
			},
			Feat::Padding { len } => {
				let d = vec![0; (*len).min(70_000) as usize];
				chunk(&mut post, b"JUNK", &d, false);
			},
			Feat::Trailing { len } => trailing += (*len).min(5000),
			_ => {},
		}
	}
	let mut body = b"WAVE".to_vec();
	body.extend_from_slice(&pre);
	let mut d = opaque(rng, units.clamp(1, 4096) as usize * 7);
	apply_literals(&mut d, feats, 0);
	let d = injected(|i| i.audio.body.take()).unwrap_or(d);
	chunk(&mut body, b"data", &d, false);
	body.extend_from_slice(&post);
	let mut out = b"RIFF".to_vec();
	out.extend_from_slice(&(body.len() as u32).to_le_bytes());
	out.extend_from_slice(&body);
	out.extend_from_slice(&opaque(rng, trailing as usize));
	out
}

fn aiff(rng: &mut Rng, units: u32, feats: &[Feat]) -> Vec<u8> {
	let n = units.clamp(1, 4096) * 7;
	let mut comm = Vec::new();
	comm.extend_from_slice(&1u16.to_be_bytes());
	comm.extend_from_slice(&n.to_be_bytes());
	comm.extend_from_slice(&8u16.to_be_bytes());
	// 8000 Hz as 80 bit extended
	comm.extend_from_slice(&[0x40, 0x0B, 0xFA, 0, 0, 0, 0, 0, 0, 0]);
	let mut pre = Vec::new();
	let mut post = Vec::new();
	let comm = injected(|i| i.audio.head.take()).unwrap_or(comm);
	let aifc = injected(|i| std::mem::take(&mut i.audio.aifc));
	if aifc {
		chunk(&mut pre, b"FVER", &0xA280_5140u32.to_be_bytes(), true);
	}
	chunk(&mut pre, b"COMM", &comm, true);
	let mut trailing = 0;
	for f in feats {
		match f {
			Feat::Chunk { id, len, after } => {
				let ids: [&[u8; 4]; 4] = [b"MARK", b"INST", b"APPL", b"xpvt"];
				let d = opaque(rng, (*len).min(70_000) as usize);
				chunk(
					if *after { &mut post } else { &mut pre },
					ids[*id as usize % 4],
					&d,
					true,
				);
			},
			Feat::Native { text, after } => {
				let w = if *after { &mut post } else { &mut pre };
				if let Some(t) = injected(|i| i.aiff.take()) {
					for (id, d) in t {
						chunk(w, id, &d, true);
					}
					continue;
				}
				chunk(w, b"NAME", word(rng, *text).as_bytes(), true);
				chunk(w, b"ANNO", word(rng, *text / 2).as_bytes(), true);
				if text % 2 == 0 {
					chunk(w, b"AUTH", b"Author", true);
					chunk(w, b"ANNO", b"second", true);
				}
				if text % 3 == 0 {
					let mut c = 1u16.to_be_bytes().to_vec();
					c.extend_from_slice(&77u32.to_be_bytes());
					c.extend_from_slice(&0u16.to_be_bytes());
					c.extend_from_slice(&4u16.to_be_bytes());
					c.extend_from_slice(b"cmnt");
					chunk(w, b"COMT", &c, true);
				}
			},
			Feat::Id3v2 {
				version,
				unsync,
				pad,
				text,
				footer,
			} => {
				let t = raw_id3v2(rng, *version, *unsync, false, *pad, *text);
				chunk(
					if rng.chance(1, 2) { &mut post } else { &mut pre },
					if *footer { b"id3 " } else { b"ID3 " },
					&t,
					true,
				);
			},
			Feat::Trailing { len } => trailing += (*len).min(5000),
			_ => {},
		}
	}
	let mut body = if aifc { b"AIFC".to_vec() } else { b"AIFF".to_vec() };
	body.extend_from_slice(&pre);
	let mut d = vec![0u8; 8];
	let mut a = opaque(rng, n as usize);
	apply_literals(&mut a, feats, 0);
	let a = injected(|i| i.audio.body.take()).unwrap_or(a);
	d.extend_from_slice(&a);
	chunk(&mut body, b"SSND", &d, true);
	body.extend_from_slice(&post);
	let mut out = b"FORM".to_vec();
	out.extend_from_slice(&(body.len() as u32).to_be_bytes());
	out.extend_from_slice(&body);
	out.extend_from_slice(&opaque(rng, trailing as usize));
	out
}

// ---------------------------------------------------------------------------------------------
// FLAC / Vorbis comments

pub fn raw_vorbis_comment(rng: &mut Rng, text: u32) -> Vec<u8> {
	if let Some(t) = injected(|i| i.vorbis.take()) {
		return t;
	}
	let mut v = Vec::new();
	let vendor = "simulated vendor";
	v.extend_from_slice(&(vendor.len() as u32).to_le_bytes());
	v.extend_from_slice(vendor.as_bytes());
	let items = [
		format!("TITLE={}", word(rng, text)),
		"ARTIST=Ärtist".to_string(),
		"XCUSTOM=value=with=equals".to_string(),
	];
	v.extend_from_slice(&(items.len() as u32).to_le_bytes());
	for i in &items {
		v.extend_from_slice(&(i.len() as u32).to_le_bytes());
		v.extend_from_slice(i.as_bytes());
	}
	v
}

pub fn raw_flac_picture(rng: &mut Rng, len: u32) -> Vec<u8> {
	let mut p = 3u32.to_be_bytes().to_vec();
	let mime = b"image/png";
	p.extend_from_slice(&(mime.len() as u32).to_be_bytes());
	p.extend_from_slice(mime);
	p.extend_from_slice(&4u32.to_be_bytes());
	p.extend_from_slice(b"desc");
	for x in [10u32, 20, 24, 0] {
		p.extend_from_slice(&x.to_be_bytes());
	}
	let d = rng.bytes(len.min(300_000) as usize);
	p.extend_from_slice(&(d.len() as u32).to_be_bytes());
	p.extend_from_slice(&d);
	p
}

fn flac(rng: &mut Rng, units: u32, feats: &[Feat]) -> Vec<u8> {
	let mut blocks: Vec<(u8, Vec<u8>)> = Vec::new();
	let mut si = Vec::new();
	si.extend_from_slice(&4096u16.to_be_bytes());
	si.extend_from_slice(&4096u16.to_be_bytes());
	si.extend_from_slice(&[0, 0, 14, 0, 4, 0]);
	// 44100 Hz, 2 channels, 16 bit, samples
	let samples = u64::from(units.clamp(1, 4096)) * 4096;
	let packed: u64 = (44100u64 << 44) | (1 << 41) | (15 << 36) | samples;
	si.extend_from_slice(&packed.to_be_bytes());
	si.extend_from_slice(&[0x5A; 16]);
	let si = injected(|i| i.audio.head.take()).unwrap_or(si);
	blocks.push((0, si));
	let mut head = Vec::new();
	let mut has_vc = false;
	for f in feats {
		match f {
			Feat::Chunk { id, len, .. } => match id % 3 {
				0 => {
					let mut d = b"test".to_vec();
					d.extend_from_slice(&opaque(rng, (*len).min(200_000) as usize));
					blocks.push((2, d));
				},
				1 => blocks.push((3, opaque(rng, ((*len).min(9000) / 18 * 18) as usize))),
				_ => blocks.push((5, opaque(rng, (*len).min(5000) as usize + 396))),
			},
			Feat::Native { text, .. } if !has_vc => {
				has_vc = true;
				blocks.push((4, raw_vorbis_comment(rng, *text)));
			},
			Feat::Padding { len } => blocks.push((1, vec![0; (*len).min(200_000) as usize])),
			Feat::Pic { len } => blocks.push((6, raw_flac_picture(rng, (*len).max(1)))),
			Feat::Id3v2 {
				version,
				unsync,
				footer,
				pad,
				text,
			} if head.is_empty() => {
				head = raw_id3v2(rng, *version, *unsync, *footer, *pad, *text);
			},
			_ => {},
		}
	}
	for p in injected(|i| std::mem::take(&mut i.pics)) {
		blocks.push((6, p));
	}
	let mut out = head;
	out.extend_from_slice(b"fLaC");
	let n = blocks.len();
	for (i, (ty, d)) in blocks.iter().enumerate() {
		out.push(ty | if i + 1 == n { 0x80 } else { 0 });
		out.extend_from_slice(&(d.len() as u32).to_be_bytes()[1..]);
		out.extend_from_slice(d);
	}
	for _ in 0..units.clamp(1, 4096) {
		out.extend_from_slice(&[0xFF, 0xF8, 0xC9, 0x18]);
		let mut a = opaque(rng, 40);
		a[0] = 0x80;
		out.extend_from_slice(&a);
	}
	let at = out.len() - units.clamp(1, 4096) as usize * 44;
	let l = out.len();
	apply_literals(&mut out[at + 8..l], feats, 0);
	out
}

// ---------------------------------------------------------------------------------------------
// OGG

pub fn ogg_crc(d: &[u8]) -> u32 {
	let mut crc = 0u32;
	for b in d {
		crc ^= u32::from(*b) << 24;
		for _ in 0..8 {
			crc = if crc & 0x8000_0000 != 0 {
				(crc << 1) ^ 0x04C1_1DB7
			} else {
				crc << 1
			};
		}
	}
	crc
}

pub struct OggPage {
	pub flags: u8,
	pub gp: u64,
	pub serial: u32,
	pub seq: u32,
	pub lacing: Vec<u8>,
	pub body: Vec<u8>,
}

impl OggPage {
	pub fn bytes(&self) -> Vec<u8> {
		let mut o = b"OggS\0".to_vec();
		o.push(self.flags);
		o.extend_from_slice(&self.gp.to_le_bytes());
		o.extend_from_slice(&self.serial.to_le_bytes());
		o.extend_from_slice(&self.seq.to_le_bytes());
		o.extend_from_slice(&[0; 4]);
		o.push(self.lacing.len() as u8);
		o.extend_from_slice(&self.lacing);
		o.extend_from_slice(&self.body);
		let c = ogg_crc(&o);
		o[22..26].copy_from_slice(&c.to_le_bytes());
		o
	}
}

/// Lay packets out on pages with at most `max_segs` segments; one group of packets starts a new page
pub fn ogg_pages(
	groups: &[Vec<(Vec<u8>, u64)>],
	serial: u32,
	max_segs: usize,
	first_flag: bool,
	last_flag: bool,
) -> Vec<OggPage> {
	let max_segs = max_segs.clamp(1, 255);
	let mut pages: Vec<OggPage> = Vec::new();
	let mut seq = 0;
	for g in groups {
		let mut lac: Vec<u8> = Vec::new();
		let mut body: Vec<u8> = Vec::new();
		let mut cont = false;
		let mut gp = u64::MAX;
		let mut flush = |lac: &mut Vec<u8>, body: &mut Vec<u8>, cont: bool, gp: u64| {
			pages.push(OggPage {
				flags: u8::from(cont),
				gp,
				serial,
				seq,
				lacing: std::mem::take(lac),
				body: std::mem::take(body),
			});
			seq += 1;
		};
		for (p, pgp) in g {
			let mut off = 0;
			loop {
				if lac.len() == max_segs {
					flush(&mut lac, &mut body, cont, gp);
					cont = off > 0;
					gp = u64::MAX;
				}
				let n = (p.len() - off).min(255);
				lac.push(n as u8);
				body.extend_from_slice(&p[off..off + n]);
				off += n;
				if n < 255 {
					gp = *pgp;
					break;
				}
			}
		}
		if !lac.is_empty() {
			flush(&mut lac, &mut body, cont, gp);
		}
	}
	if let Some(p) = pages.first_mut()
		&& first_flag
	{
		p.flags |= 2;
	}
	if let Some(p) = pages.last_mut()
		&& last_flag
	{
		p.flags |= 4;
	}
	pages
}

fn ogg(rng: &mut Rng, fmt: Fmt, units: u32, feats: &[Feat]) -> Vec<u8> {
	let text = feats
		.iter()
		.find_map(|f| match f {
			Feat::Native { text, .. } => Some(*text),
			_ => None,
		})
		.unwrap_or(8);
	let vc = raw_vorbis_comment(rng, text);
	let mut ident;
	let mut comment = Vec::new();
	let mut setup = None;
	match fmt {
		Fmt::OggVorbis => {
			ident = b"\x01vorbis".to_vec();
			ident.extend_from_slice(&0u32.to_le_bytes());
			ident.push(2);
			ident.extend_from_slice(&44100u32.to_le_bytes());
			ident.extend_from_slice(&0i32.to_le_bytes());
			ident.extend_from_slice(&112_000i32.to_le_bytes());
			ident.extend_from_slice(&0i32.to_le_bytes());
			ident.push(0xB8);
			ident.push(1);
			comment.extend_from_slice(b"\x03vorbis");
			comment.extend_from_slice(&vc);
			comment.push(1);
			let mut s = b"\x05vorbis".to_vec();
			let n = 700 + rng.usize(3000);
			s.extend_from_slice(&opaque(rng, n));
			setup = Some(s);
		},
		Fmt::OggOpus => {
			ident = b"OpusHead\x01\x02".to_vec();
			ident.extend_from_slice(&312u16.to_le_bytes());
			ident.extend_from_slice(&48000u32.to_le_bytes());
			ident.extend_from_slice(&[0, 0, 0]);
			comment.extend_from_slice(b"OpusTags");
			comment.extend_from_slice(&vc);
		},
		_ => {
			ident = b"Speex   ".to_vec();
			ident.extend_from_slice(b"1.2.0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0");
			for v in [1u32, 80, 16000, 1, 4, 1, 27800, 320, 0, 1, 0, 0, 0] {
				ident.extend_from_slice(&v.to_le_bytes());
			}
			comment.extend_from_slice(&vc);
		},
	}
	let ident = injected(|i| i.audio.head.take()).unwrap_or(ident);
	let segs = feats
		.iter()
		.find_map(|f| match f {
			Feat::PageSegs { n } => Some(*n as usize),
			_ => None,
		})
		.unwrap_or(255);
	let mut groups = vec![vec![(ident, 0u64)]];
	let split = feats.contains(&Feat::SplitHeaders);
	match setup {
		Some(s) if split => {
			groups.push(vec![(comment, 0)]);
			groups.push(vec![(s, 0)]);
		},
		Some(s) => groups.push(vec![(comment, 0), (s, 0)]),
		None => groups.push(vec![(comment, 0)]),
	}
	let header_groups = groups.len();
	let mut gp = 0;
	let mut audio = Vec::new();
	let silent = rng.chance(1, 4);
	let large = feats.iter().find_map(|f| match f {
		Feat::LargePackets { n } => Some(*n),
		_ => None,
	});
	for i in 0..units.clamp(1, 400) {
		let n = match rng.below(12) {
			0 => 0,
			1 => 255,
			2 => 510,
			3 if i < 20 => 3000,
			4 | 5 if i < 9 && large.is_some() => [60_500, 65_024, 65_025, 70_000][(rng.usize(2) + usize::from(large.unwrap_or(0))) % 4],
			_ => 20 + rng.usize(200),
		};
		// the first packet may yield no samples yet
		if i > 0 || !silent {
			gp += 960;
		}
		let mut a = opaque(rng, n);
		if i < 3 {
			apply_literals(&mut a, feats, 0);
		}
		audio.push((a, gp));
		if rng.chance(1, 6) {
			groups.push(std::mem::take(&mut audio));
		}
	}
	if !audio.is_empty() {
		groups.push(audio);
	}
	let packets = injected(|i| std::mem::take(&mut i.audio.packets));
	if !packets.is_empty() {
		// the headers stay
		groups.truncate(header_groups);
		let mut g = Vec::new();
		for p in packets {
			g.push(p);
			if rng.chance(1, 4) {
				groups.push(std::mem::take(&mut g));
			}
		}
		if !g.is_empty() {
			groups.push(g);
		}
	}
	let serial = rng.u64() as u32 | 1;
	let pages = ogg_pages(&groups, serial, segs, true, true);
	let header_pages = ogg_pages(&groups[..header_groups], serial, segs, true, false).len();
	let mut out = Vec::new();
	if feats.contains(&Feat::SecondStream) {
		let other: Vec<Vec<(Vec<u8>, u64)>> = (0..2 + rng.usize(12))
			.map(|i| vec![(opaque(rng, 50 + i * 10), i as u64 * 100)])
			.collect();
		let o = ogg_pages(&other, serial.wrapping_add(77), 255, true, true);
		// lofty refuses files with other pages among the headers
		let mut it = o.into_iter();
		for (i, p) in pages.iter().enumerate() {
			out.extend_from_slice(&p.bytes());
			if i + 1 >= header_pages && rng.chance(1, 2) {
				for _ in 0..1 + rng.below(2) {
					if let Some(x) = it.next() {
						out.extend_from_slice(&x.bytes());
					}
				}
			}
		}
		for x in it {
			out.extend_from_slice(&x.bytes());
		}
	} else {
		for p in &pages {
			out.extend_from_slice(&p.bytes());
		}
	}
	if feats.contains(&Feat::Chained) {
		for p in &pages[..header_pages] {
			let q = OggPage {
				flags: p.flags,
				gp: p.gp,
				serial: serial.wrapping_add(1000),
				seq: p.seq,
				lacing: p.lacing.clone(),
				body: p.body.clone(),
			};
			out.extend_from_slice(&q.bytes());
		}
		let n = header_pages as u32;
		let more: Vec<Vec<(Vec<u8>, u64)>> = (0..3).map(|i| vec![(opaque(rng, 60 + i), 960 * (1 + i as u64))]).collect();
		for mut p in ogg_pages(&more, serial.wrapping_add(1000), 255, false, true) {
			p.seq += n;
			out.extend_from_slice(&p.bytes());
		}
	}
	for f in feats {
		if let Feat::Trailing { len } = f {
			let d = opaque(rng, (*len).min(5000) as usize);
			out.extend_from_slice(&d);
		}
	}
	out
}

// ---------------------------------------------------------------------------------------------
// MP4

pub fn atom(id: &[u8; 4], body: &[u8]) -> Vec<u8> {
	let mut o = ((body.len() + 8) as u32).to_be_bytes().to_vec();
	o.extend_from_slice(id);
	o.extend_from_slice(body);
	o
}

pub fn full(id: &[u8; 4], ver_flags: u32, body: &[u8]) -> Vec<u8> {
	let mut b = ver_flags.to_be_bytes().to_vec();
	b.extend_from_slice(body);
	atom(id, &b)
}

pub fn be(v: &[u32]) -> Vec<u8> {
	v.iter().flat_map(|x| x.to_be_bytes()).collect()
}

fn esds() -> Vec<u8> {
	let dsi = [0x05, 0x02, 0x12, 0x10];
	let mut dcd = vec![0x04, 13 + dsi.len() as u8, 0x40, 0x15, 0, 0, 0];
	dcd.extend_from_slice(&128_000u32.to_be_bytes());
	dcd.extend_from_slice(&128_000u32.to_be_bytes());
	dcd.extend_from_slice(&dsi);
	let mut es = vec![0x03, (3 + dcd.len() + 3) as u8, 0, 1, 0];
	es.extend_from_slice(&dcd);
	es.extend_from_slice(&[0x06, 1, 2]);
	full(b"esds", 0, &es)
}

fn ilst_text(id: &[u8; 4], s: &str) -> Vec<u8> {
	let mut d = be(&[1, 0]);
	d.extend_from_slice(s.as_bytes());
	atom(id, &atom(b"data", &d))
}

/// Each chunk of media data, per track
pub fn mp4(rng: &mut Rng, units: u32, feats: &[Feat]) -> Vec<u8> {
	let mdat_first = feats.contains(&Feat::MdatFirst);
	let co64 = feats.iter().any(|f| matches!(f, Feat::Co64) || matches!(f, Feat::LongSizes { mask } if mask & 1 == 1));
	let large = feats.contains(&Feat::LargeMdat);
	let to_eof = feats.contains(&Feat::MdatToEof) && !mdat_first && !large;
	let tracks = if feats.contains(&Feat::TwoTracks) { 2 } else { 1 };
	let moofs = feats
		.iter()
		.find_map(|f| match f {
			Feat::Moof { n } => Some((*n).min(4)),
			_ => None,
		})
		.unwrap_or(0);
	let chunks_per = units.clamp(1, 60) as usize;
	// media data: chunk c of track t
	let mut media: Vec<(usize, Vec<u8>)> = Vec::new();
	for c in 0..chunks_per {
		for t in 0..tracks {
			let mut d = opaque(rng, 24 + (c * 7 + t * 3) % 40);
			apply_literals(&mut d, if c < 2 { feats } else { &[] }, 0);
			media.push((t, d));
		}
	}
	let ftyp = {
		let mut b = b"M4A ".to_vec();
		b.extend_from_slice(&0u32.to_be_bytes());
		b.extend_from_slice(b"M4A mp42isom");
		atom(b"ftyp", &b)
	};
	let pad = feats.iter().find_map(|f| match f {
		Feat::Padding { len } => Some((*len).min(100_000) as usize),
		_ => None,
	});
	let udta_kind = feats.iter().find_map(|f| match f {
		Feat::Udta { kind } => Some(*kind % 5),
		_ => None,
	});
	let native = feats.iter().find_map(|f| match f {
		Feat::Native { text, .. } => Some(*text),
		_ => None,
	});
	let native_after = feats.iter().any(|f| matches!(f, Feat::Native { after: true, .. }));
	let non_full = feats.contains(&Feat::NonFullMeta);
	let title = native.map(|t| word(rng, t));

	let mask = feats
		.iter()
		.find_map(|f| match f {
			Feat::LongSizes { mask } => Some(*mask),
			_ => None,
		})
		.unwrap_or(0);
	// the bits: chunk tables, their containers, tracks, movie, user data, meta, ilst, free
	let lng = |bit: u8, a: Vec<u8>| -> Vec<u8> {
		if mask & 1 << bit == 0 {
			return a;
		}
		let mut o = 1u32.to_be_bytes().to_vec();
		o.extend_from_slice(&a[4..8]);
		o.extend_from_slice(&(a.len() as u64 + 8).to_be_bytes());
		o.extend_from_slice(&a[8..]);
		o
	};
	let udta = {
		let mut kids = Vec::new();
		let hdlr = {
			let mut b = be(&[0]);
			b.extend_from_slice(b"mdirappl");
			b.extend_from_slice(&[0; 9]);
			full(b"hdlr", 0, &b)
		};
		let meta = |inner: &[u8]| {
			let m = if non_full {
				atom(b"meta", inner)
			} else {
				full(b"meta", 0, inner)
			};
			lng(5, m)
		};
		if let Some(title) = &title {
			let il = injected(|i| i.ilst.take()).unwrap_or_else(|| {
				let mut il = ilst_text(b"\xA9nam", title);
				il.extend_from_slice(&ilst_text(b"\xA9ART", "Ärtist"));
				il
			});
			let mut inner = hdlr.clone();
			if native_after {
				if let Some(p) = pad {
					inner.extend_from_slice(&lng(7, atom(b"free", &vec![0; p])));
				}
				inner.extend_from_slice(&lng(6, atom(b"ilst", &il)));
			} else {
				inner.extend_from_slice(&lng(6, atom(b"ilst", &il)));
				if let Some(p) = pad {
					inner.extend_from_slice(&lng(7, atom(b"free", &vec![0; p])));
				}
			}
			kids.extend_from_slice(&meta(&inner));
		} else if udta_kind == Some(2) {
			kids.extend_from_slice(&meta(&hdlr));
		}
		if udta_kind == Some(3) {
			kids.extend_from_slice(&atom(b"Xtra", &opaque(rng, 33)));
		}
		if udta_kind == Some(4) {
			// QuickTime's optional terminator
			kids.extend_from_slice(&[0; 4]);
		}
		if udta_kind.is_some() || title.is_some() {
			Some(lng(4, atom(b"udta", &kids)))
		} else {
			None
		}
	};
	let extra = {
		let mut v = Vec::new();
		for f in feats {
			if let Feat::Chunk { len, .. } = f {
				v.extend_from_slice(&atom(b"uuid", &opaque(rng, (*len).min(20_000) as usize + 16)));
			}
		}
		v
	};

	// parts that are not the tag: (udta before the tracks, metadata of a track, of the movie, data references)
	let shape = if rng.chance(1, 2) { 0 } else { rng.below(16) };
	let other_meta = |title: &str| {
		let mut h = be(&[0]);
		h.extend_from_slice(b"mdirappl");
		h.extend_from_slice(&[0; 9]);
		let mut m = full(b"hdlr", 0, &h);
		m.extend_from_slice(&atom(b"ilst", &ilst_text(b"\xA9nam", title)));
		full(b"meta", 0, &m)
	};
	let (i_mdhd, i_stsd, i_stts) = injected(|i| (i.audio.mdhd.take(), i.audio.head.take(), i.audio.stts.take()));
	let build_moov = |media_pos: &[u64]| -> Vec<u8> {
		let mut moov = {
			let mut b = be(&[0, 0, 1000, chunks_per as u32 * 23, 0x10000]);
			b.extend_from_slice(&[1, 0]);
			b.resize(4 * 24, 0);
			full(b"mvhd", 0, &b)
		};
		if let Some(u) = &udta
			&& shape & 1 != 0
		{
			moov.extend_from_slice(u);
		}
		if shape & 4 != 0 {
			moov.extend_from_slice(&other_meta("movie"));
		}
		for t in 0..tracks {
			let tkhd = {
				let mut b = be(&[0, 0, t as u32 + 1, 0, chunks_per as u32 * 23]);
				b.resize(80, 0);
				full(b"tkhd", 7, &b)
			};
			let mdhd = {
				let mut b = be(&[0, 0, 44100, chunks_per as u32 * 1024]);
				b.extend_from_slice(&[0x55, 0xC4, 0, 0]);
				i_mdhd.as_ref().map_or_else(|| full(b"mdhd", 0, &b), |m| atom(b"mdhd", m))
			};
			let hdlr = {
				let mut b = be(&[0]);
				b.extend_from_slice(b"soun");
				b.extend_from_slice(&[0; 13]);
				full(b"hdlr", 0, &b)
			};
			let mut entry = vec![0; 6];
			entry.extend_from_slice(&1u16.to_be_bytes());
			entry.extend_from_slice(&[0; 8]);
			entry.extend_from_slice(&2u16.to_be_bytes());
			entry.extend_from_slice(&16u16.to_be_bytes());
			entry.extend_from_slice(&[0; 4]);
			entry.extend_from_slice(&(44100u32 << 16).to_be_bytes());
			entry.extend_from_slice(&esds());
			let mut sb = be(&[1]);
			sb.extend_from_slice(&atom(b"mp4a", &entry));
			let stsd = i_stsd.as_ref().map_or_else(|| full(b"stsd", 0, &sb), |m| atom(b"stsd", m));
			let stts = i_stts
				.as_ref()
				.map_or_else(|| full(b"stts", 0, &be(&[1, chunks_per as u32, 1024])), |m| atom(b"stts", m));
			let stsc = full(b"stsc", 0, &be(&[1, 1, 1, 1]));
			let mut sizes = vec![0, chunks_per as u32];
			let mut offs = Vec::new();
			for (i, (mt, d)) in media.iter().enumerate() {
				if *mt == t {
					sizes.push(d.len() as u32);
					offs.push(media_pos[i]);
				}
			}
			let stsz = full(b"stsz", 0, &be(&sizes));
			let co = if co64 {
				let mut b = be(&[offs.len() as u32]);
				for o in &offs {
					b.extend_from_slice(&o.to_be_bytes());
				}
				full(b"co64", 0, &b)
			} else {
				let mut b = be(&[offs.len() as u32]);
				for o in &offs {
					b.extend_from_slice(&(*o as u32).to_be_bytes());
				}
				full(b"stco", 0, &b)
			};
			let co = if co64 { lng(0, co) } else { co };
			let mut stbl = lng(10, stsd);
			for x in [lng(11, stts), stsc, stsz, co] {
				stbl.extend_from_slice(&x);
			}
			let mut minf = full(b"smhd", 0, &[0; 4]);
			if shape & 8 != 0 {
				let mut dr = be(&[1]);
				dr.extend_from_slice(&full(b"url ", 1, &[]));
				minf.extend_from_slice(&atom(b"dinf", &full(b"dref", 0, &dr)));
			}
			minf.extend_from_slice(&lng(1, atom(b"stbl", &stbl)));
			let mut mdia = lng(9, mdhd);
			mdia.extend_from_slice(&lng(8, hdlr));
			mdia.extend_from_slice(&lng(1, atom(b"minf", &minf)));
			let mut trak = tkhd;
			trak.extend_from_slice(&lng(1, atom(b"mdia", &mdia)));
			if shape & 2 != 0 {
				trak.extend_from_slice(&atom(b"udta", &other_meta("track")));
			}
			moov.extend_from_slice(&lng(2, atom(b"trak", &trak)));
		}
		if let Some(u) = &udta
			&& shape & 1 == 0
		{
			moov.extend_from_slice(u);
		}
		lng(3, atom(b"moov", &moov))
	};

	let mdat_body: Vec<u8> = media.iter().flat_map(|(_, d)| d.clone()).collect();
	let mdat = if large {
		let mut o = 1u32.to_be_bytes().to_vec();
		o.extend_from_slice(b"mdat");
		o.extend_from_slice(&(mdat_body.len() as u64 + 16).to_be_bytes());
		o.extend_from_slice(&mdat_body);
		o
	} else {
		let mut m = atom(b"mdat", &mdat_body);
		if to_eof {
			m[..4].copy_from_slice(&0u32.to_be_bytes());
		}
		m
	};
	let mdat_head = (mdat.len() - mdat_body.len()) as u64;
	let zero = vec![0u64; media.len()];
	let moov_len = build_moov(&zero).len() as u64;
	let mdat_pos = if mdat_first {
		ftyp.len() as u64
	} else {
		ftyp.len() as u64 + moov_len + extra.len() as u64
	};
	let mut pos = mdat_pos + mdat_head;
	let mut media_pos: Vec<u64> = media
		.iter()
		.map(|(_, d)| {
			let p = pos;
			pos += d.len() as u64;
			p
		})
		.collect();
	// the same data in two atoms
	let split = feats.iter().find_map(|f| match f {
		Feat::MdatSplit { n } if !mdat_first => Some(*n),
		_ => None,
	});
	let mut halves = [Vec::new(), Vec::new()];
	if let Some(n) = split {
		let rear = |i: usize| usize::from(if n & 0x80 != 0 { (i + n as usize) % 2 == 0 } else { i >= n as usize });
		for (i, (_, d)) in media.iter().enumerate() {
			media_pos[i] = halves[rear(i)].len() as u64;
			halves[rear(i)].extend_from_slice(d);
		}
		let start = [ftyp.len() as u64 + 8, ftyp.len() as u64 + 8 + halves[0].len() as u64 + moov_len + extra.len() as u64 + mdat_head];
		for (i, p) in media_pos.iter_mut().enumerate() {
			*p += start[rear(i)];
		}
	}
	let moov = build_moov(&media_pos);
	let mut out = ftyp;
	if split.is_some() {
		out.extend_from_slice(&atom(b"mdat", &halves[0]));
		out.extend_from_slice(&moov);
		out.extend_from_slice(&extra);
		let mut head = mdat[..mdat_head as usize].to_vec();
		if large {
			head[8..16].copy_from_slice(&(halves[1].len() as u64 + 16).to_be_bytes());
		} else if !to_eof {
			head[..4].copy_from_slice(&(halves[1].len() as u32 + 8).to_be_bytes());
		}
		out.extend_from_slice(&head);
		out.extend_from_slice(&halves[1]);
	} else if mdat_first {
		out.extend_from_slice(&mdat);
		out.extend_from_slice(&moov);
		out.extend_from_slice(&extra);
	} else {
		out.extend_from_slice(&moov);
		out.extend_from_slice(&extra);
		out.extend_from_slice(&mdat);
	}
	if !to_eof {
		let mut moof_at = Vec::new();
		for i in 0..moofs {
			let data = opaque(rng, 40 + i as usize);
			// optional fields behind the base-data-offset
			let more = if rng.chance(1, 2) { 0 } else { rng.u64() as u32 & 0x3A };
			let relative = rng.chance(1, 3);
			// traf with a base-data-offset pointing at the following mdat's body
			let build = |base: u64| {
				let mut tf = 1u32.to_be_bytes().to_vec();
				tf.extend_from_slice(&base.to_be_bytes());
				for _ in 0..more.count_ones() {
					tf.extend_from_slice(&be(&[1]));
				}
				let mut traf = full(b"tfhd", 1 | more, &tf);
				let mut tr = be(&[1]);
				tr.extend_from_slice(&be(&[data.len() as u32]));
				traf.extend_from_slice(&full(b"trun", 0x200, &tr));
				let mut m = full(b"mfhd", 0, &be(&[u32::from(i) + 1]));
				if relative {
					// one whose data is found relative to the moof
					let mut traf = full(b"tfhd", 0x02_0000, &be(&[2]));
					traf.extend_from_slice(&full(b"trun", 0x201, &be(&[0, 0])));
					m.extend_from_slice(&atom(b"traf", &traf));
				}
				m.extend_from_slice(&atom(b"traf", &traf));
				atom(b"moof", &m)
			};
			let l = build(0).len() as u64;
			let base = out.len() as u64 + l + 8;
			moof_at.push(out.len() as u64);
			out.extend_from_slice(&build(base));
			out.extend_from_slice(&atom(b"mdat", &data));
		}
		if moofs > 0 && rng.chance(1, 2) {
			// where the fragments are, for random access
			let v = rng.below(2) as u32;
			let lens = rng.below(64) as u32;
			let mut tf = be(&[1, lens, u32::from(moofs)]);
			for (i, at) in moof_at.iter().enumerate() {
				if v == 1 {
					tf.extend_from_slice(&(i as u64 * 1024).to_be_bytes());
					tf.extend_from_slice(&at.to_be_bytes());
				} else {
					tf.extend_from_slice(&be(&[i as u32 * 1024, *at as u32]));
				}
				for j in 0..3 {
					let n = (lens >> (j * 2) & 3) as usize;
					tf.extend_from_slice(&[0; 3][..n]);
					tf.push(1);
				}
			}
			let mut m = full(b"tfra", v << 24, &tf);
			let l = m.len() as u32 + 24;
			m.extend_from_slice(&full(b"mfro", 0, &be(&[l])));
			out.extend_from_slice(&atom(b"mfra", &m));
		}
		for f in feats {
			if let Feat::Trailing { len } = f {
				out.extend_from_slice(&atom(b"free", &vec![0; (*len).min(5000) as usize]));
			}
		}
	}
	out
}

pub fn build(fmt: Fmt, seed: u64, units: u32, feats: &[Feat]) -> Vec<u8> {
	let mut rng = Rng::new(crate::rng::mix(&[0x6d65_6469_61, fmt as u64, seed]));
	match fmt {
		Fmt::Wav => wav(&mut rng, units, feats),
		Fmt::Aiff => aiff(&mut rng, units, feats),
		Fmt::Flac => flac(&mut rng, units, feats),
		Fmt::OggVorbis | Fmt::OggOpus | Fmt::OggSpeex => ogg(&mut rng, fmt, units, feats),
		Fmt::Mp4 => mp4(&mut rng, units, feats),
		_ => envelope(&mut rng, fmt, units, feats),
	}
}

/// A random base for a format. `rich` adds more optional parts.
pub fn gen_base(rng: &mut Rng, fmt: Fmt) -> Base {
	let mut feats = Vec::new();
	let edges = [0, 1, 127, 128, 255, 256, 1024, 4096];
	let nf = rng.below(5);
	for _ in 0..nf {
		let f = match rng.below(15) {
			0 | 1 => Feat::Id3v2 {
				version: rng.range(2, 4) as u8,
				unsync: rng.chance(1, 3),
				footer: rng.chance(1, 3),
				pad: rng.size(3000, &edges) as u32,
				text: rng.size(600, &edges) as u32,
			},
			2 => Feat::Ape {
				v2: rng.chance(2, 3),
				header: rng.chance(1, 2),
				text: rng.size(600, &edges) as u32,
			},
			3 => Feat::Id3v1 {
				text: rng.below(31) as u32,
			},
			4 if rng.chance(1, 2) => Feat::Lyrics3 {
				text: rng.size(500, &edges) as u32,
			},
			5 if rng.chance(1, 3) => Feat::Junk {
				len: rng.size(800, &edges) as u32,
			},
			6 => Feat::Literal {
				what: rng.below(10) as u8,
				at: rng.below(400) as u32,
			},
			7 => Feat::Chunk {
				id: rng.below(8) as u8,
				len: rng.size(3000, &edges) as u32,
				after: rng.chance(1, 2),
			},
			8 | 9 => Feat::Native {
				text: rng.size(900, &edges) as u32,
				after: rng.chance(1, 2),
			},
			10 => Feat::Padding {
				len: rng.size(6000, &[0, 1, 4, 7, 8, 9, 1024]) as u32,
			},
			11 if rng.chance(1, 3) => Feat::Trailing {
				len: rng.size(300, &edges) as u32,
			},
			12 => Feat::Pic {
				len: rng.size(5000, &edges) as u32,
			},
			_ => match fmt {
				Fmt::Mp4 => match rng.below(12) {
					9..=11 => Feat::LongSizes {
						mask: if rng.chance(1, 2) { 1 << rng.below(12) } else { rng.below(1 << 12) as u16 },
					},
					0 => Feat::MdatFirst,
					1 => Feat::MdatSplit { n: if rng.chance(1, 2) { rng.below(5) as u8 } else { 0x80 | rng.below(2) as u8 } },
					2 => Feat::Co64,
					3 => Feat::LargeMdat,
					4 | 5 => Feat::Udta {
						kind: rng.below(5) as u8,
					},
					6 => Feat::NonFullMeta,
					7 => Feat::TwoTracks,
					_ => {
						if rng.chance(1, 2) {
							Feat::Moof {
								n: rng.range(1, 3) as u8,
							}
						} else {
							Feat::MdatToEof
						}
					},
				},
				Fmt::OggOpus | Fmt::OggSpeex | Fmt::OggVorbis => match rng.below(6) {
					4 => Feat::SecondStream,
					5 => Feat::LargePackets { n: rng.below(3) as u8 },
					0 | 1 => Feat::PageSegs {
						n: *rng.pick(&[1, 2, 3, 5, 17, 100, 254]),
					},
					2 if rng.chance(1, 2) => Feat::Chained,
					_ => Feat::SplitHeaders,
				},
				Fmt::Mp3 if rng.chance(1, 2) => Feat::LeadApe {
					text: rng.size(300, &edges) as u32,
				},
				Fmt::Mp3 => Feat::Xing,
				_ => Feat::Chunk {
					id: rng.below(8) as u8,
					len: rng.size(200, &edges) as u32,
					after: rng.chance(1, 2),
				},
			},
		};
		// several leading ID3v2 tags are only meaningful in front of MPEG audio
		if matches!(f, Feat::Id3v2 { .. }) {
			if feats.iter().any(|x| matches!(x, Feat::Id3v2 { .. })) {
				continue;
			}
			if matches!(fmt, Fmt::Mp3 | Fmt::Aac) && rng.chance(1, 4) {
				for _ in 0..1 + rng.below(3) {
					feats.push(f.clone());
				}
			}
		}
		feats.push(f);
	}
	Base::Synth {
		fmt,
		seed: rng.below(1 << 16),
		units: if rng.chance(1, 40) && matches!(fmt, Fmt::Flac | Fmt::Wav | Fmt::Mp3 | Fmt::Ape) {
			// larger than any buffer of the library
			rng.range(1500, 4096) as u32
		} else {
			rng.size(60, &[1, 2, 3]) as u32
		},
		feats,
	}
}
