//! Tags encoded from the format specifications, sharing no code with the library: reading reports exactly
//! what is stored (C20).

use crate::disk::{Noise, Plan, SimDisk};
use crate::dissect::Kind;
use crate::engine::*;
use crate::files::{AnyFile, POpts, Reading};
use crate::hist::gen_noise;
use crate::media::{self, ALL_FMTS, Feat, Fmt, Inject, atom, chunk, synchsafe, unsynchronise};
use crate::memory::zlib;
use crate::prop::Ctx;
use crate::rng::{Rng, hash_bytes};
use crate::run::catch;
use crate::stats;
use lofty::id3::v1::GENRES;
use lofty::picture::PictureInformation;
use crate::tags::{ApeVal, DataSpec, FrameSpec, GenOpts, PicSpec, TagSpec, Txt, gen_tag};
use serde::{Deserialize, Serialize};

/// How a tag is laid out
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Layout {
	/// ID3v2 2 to 4, APE 1 or 2
	pub version: u8,
	#[serde(default)]
	pub unsync: bool,
	/// extended header: 1 present, 2 update flag, 4 CRC, 8 restrictions (in the upper four bits)
	#[serde(default)]
	pub ext: u8,
	#[serde(default)]
	pub footer: bool,
	#[serde(default)]
	pub exp: bool,
	#[serde(default)]
	pub pad: u32,
	/// UTF-16 with the byte order mark of big endian
	#[serde(default)]
	pub be: bool,
	/// per frame: 1 unsynchronised, 2 compressed, 4 data length indicator, 8 terminated text, 16 bytes after
	/// the end of the content
	#[serde(default)]
	pub frames: Vec<u8>,
	/// ID3v2.3: TYER, TDAT, TIME
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub date: Option<(u16, Option<(u8, u8)>, Option<(u8, u8)>)>,
	/// Vorbis comments: 1 `TRACKNUMBER` and 2 `DISCNUMBER` with a total, 4 one that is no number, (bits 8..) the numbers.
	/// (FLAC) 16 pictures in the comment and not in blocks of their own
	/// ilst: 1 a `gnre` atom (bits 8..), 2 `free` atoms between the items, 4 locales, 8 short numbers, 16 data atoms
	/// and 32 items and 64 names with 64-bit sizes, 128 images of an implicit type
	#[serde(default, skip_serializing_if = "is_zero")]
	pub more: u32,
}

fn is_zero(n: &u32) -> bool {
	*n == 0
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Foreign {
	pub fmt: Fmt,
	pub seed: u64,
	pub units: u32,
	#[serde(default)]
	pub feats: Vec<Feat>,
	pub tags: Vec<(TagSpec, Layout)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Stored {
	pub f: Foreign,
	#[serde(default)]
	pub noise: Vec<Noise>,
}

// ------------------------------------------------------------------------------------------------
// text

fn text(s: &str, enc: u8, be: bool) -> Vec<u8> {
	match enc % 4 {
		0 => latin1(s),
		1 => {
			let mut v = if be { vec![0xFE, 0xFF] } else { vec![0xFF, 0xFE] };
			for c in s.encode_utf16() {
				v.extend_from_slice(&if be { c.to_be_bytes() } else { c.to_le_bytes() });
			}
			v
		},
		2 => s.encode_utf16().flat_map(u16::to_be_bytes).collect(),
		_ => s.as_bytes().to_vec(),
	}
}

fn latin1(s: &str) -> Vec<u8> {
	s.chars().map(|c| u8::try_from(c as u32).unwrap_or(b'?')).collect()
}

fn end(enc: u8) -> &'static [u8] {
	if matches!(enc % 4, 1 | 2) { &[0, 0] } else { &[0] }
}

fn terminated(s: &str, enc: u8, be: bool) -> Vec<u8> {
	let mut v = text(s, enc, be);
	v.extend_from_slice(end(enc));
	v
}

// ------------------------------------------------------------------------------------------------
// pictures

const MIMES: [&str; 4] = ["image/png", "image/jpeg", "image/gif", "image/bmp"];
const MAGIC: [&[u8]; 4] = [b"\x89PNG\x0D\x0A\x1A\x0A", b"\xFF\xD8\xFF\xE0\0\x10JF", b"GIF89a\0\0", b"BM\0\0\0\0\0\0"];

fn image(p: &PicSpec) -> Vec<u8> {
	let mut d = MAGIC[p.mime as usize % 4].to_vec();
	d.extend_from_slice(&p.data.get());
	d
}

fn desc(p: &PicSpec) -> String {
	p.desc.as_ref().map(Txt::get).unwrap_or_default()
}

/// What is stored about the image of a FLAC picture besides its type
fn flac_info(p: &PicSpec, l: &Layout) -> PictureInformation {
	let mut i = PictureInformation::default();
	if l.be && !cover_art(p, l) {
		let n = image(p).len() as u32;
		i.width = n;
		i.height = n.wrapping_mul(65_537) | 1;
		i.color_depth = [24, 32, 8, 1][n as usize % 4];
		i.num_colors = if n % 4 > 1 { n % 257 } else { 0 };
	}
	i
}

/// In the outdated form, which only has the image
fn cover_art(p: &PicSpec, l: &Layout) -> bool {
	l.exp && p.ty % 21 == 0 && p.desc.is_none()
}

fn flac_picture(p: &PicSpec, l: &Layout) -> Vec<u8> {
	let (m, d, i) = (MIMES[p.mime as usize % 4], desc(p), image(p));
	let info = flac_info(p, l);
	let mut v = u32::from(p.ty % 21).to_be_bytes().to_vec();
	v.extend_from_slice(&(m.len() as u32).to_be_bytes());
	v.extend_from_slice(m.as_bytes());
	v.extend_from_slice(&(d.len() as u32).to_be_bytes());
	v.extend_from_slice(d.as_bytes());
	for n in [info.width, info.height, info.color_depth, info.num_colors] {
		v.extend_from_slice(&n.to_be_bytes());
	}
	v.extend_from_slice(&(i.len() as u32).to_be_bytes());
	v.extend_from_slice(&i);
	v
}

fn base64(d: &[u8]) -> String {
	const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	let mut s = String::new();
	for c in d.chunks(3) {
		let v = u32::from(c[0]) << 16 | u32::from(*c.get(1).unwrap_or(&0)) << 8 | u32::from(*c.get(2).unwrap_or(&0));
		for i in 0..4 {
			s.push(if i <= c.len() { A[(v >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
		}
	}
	s
}

const APE_PICS: [&str; 21] = [
	"Other", "Png Icon", "Icon", "Front", "Back", "Leaflet", "Media", "Lead Artist", "Artist", "Conductor", "Band", "Composer",
	"Lyricist", "Recording Location", "During Recording", "During Performance", "Video Capture", "Fish", "Illustration",
	"Band Logotype", "Publisher Logotype",
];

// ------------------------------------------------------------------------------------------------
// ID3v2

const V2: &[(&str, &str)] = &[
	("TIT2", "TT2"), ("TPE1", "TP1"), ("TALB", "TAL"), ("TPE2", "TP2"), ("TCOM", "TCM"), ("TIT1", "TT1"), ("TENC", "TEN"),
	("TCOP", "TCR"), ("TPUB", "TPB"), ("TRCK", "TRK"), ("TBPM", "TBP"), ("TSRC", "TRC"), ("WOAF", "WAF"), ("WCOM", "WCM"),
	("WOAR", "WAR"), ("WPUB", "WPB"), ("TXXX", "TXX"), ("WXXX", "WXX"), ("COMM", "COM"), ("USLT", "ULT"), ("APIC", "PIC"),
	("POPM", "POP"), ("UFID", "UFI"), ("TIPL", "IPL"), ("ETCO", "ETC"), ("MCDI", "MCI"), ("AENC", "CRA"), ("GEOB", "GEO"),
	("PCNT", "CNT"), ("SYLT", "SLT"), ("TCON", "TCO"),
];

fn id_of(f: &FrameSpec) -> String {
	f.build().id().as_str().to_string()
}

/// ID3v2.2 has Latin-1 and UTF-16 only
fn enc_of(f: &FrameSpec) -> u8 {
	match f {
		FrameSpec::Text { enc, .. }
		| FrameSpec::Genre { enc, .. }
		| FrameSpec::UserText { enc, .. }
		| FrameSpec::UserUrl { enc, .. }
		| FrameSpec::Comment { enc, .. }
		| FrameSpec::Lyrics { enc, .. }
		| FrameSpec::KeyValue { enc, .. }
		| FrameSpec::Pic { enc, .. } => *enc,
		_ => 0,
	}
}

/// Whether the version of ID3v2 has such a frame
fn exists(f: &FrameSpec, version: u8) -> bool {
	let id = id_of(f);
	if version == 2 && (enc_of(f) > 1 || !V2.iter().any(|(a, _)| *a == id)) {
		return false;
	}
	match f {
		FrameSpec::Odd { .. } => false,
		FrameSpec::Pic { p, .. } => version > 2 || p.mime % 4 < 2,
		FrameSpec::KeyValue { id, .. } => version == 4 || id == "TIPL",
		FrameSpec::Time { id, t, .. } if id == "TDOR" && t.len() == 1 => version > 2,
		FrameSpec::Rva2 { .. } | FrameSpec::Time { .. } => version == 4,
		FrameSpec::Enc { .. } => version > 2,
		FrameSpec::Flagged { f, .. } => version > 2 && exists(f, version),
		FrameSpec::Chap { kids, .. } | FrameSpec::Ctoc { kids, .. } => version > 2 && kids.iter().all(|k| exists(k, version)),
		_ => true,
	}
}

fn body(f: &FrameSpec, l: &Layout, fl: u8) -> Vec<u8> {
	let be = l.be;
	let more = |v: &mut Vec<u8>, e: u8| {
		if fl & 8 != 0 {
			v.extend_from_slice(end(e));
		}
	};
	match f {
		FrameSpec::Text { enc, v, .. } => {
			let mut o = vec![*enc % 4];
			o.extend_from_slice(&text(&v.get(), *enc, be));
			more(&mut o, *enc);
			o
		},
		FrameSpec::Genre { enc, list } => {
			let s = if l.version == 4 {
				list.join("\0")
			} else {
				// references in parentheses, and a name at the end
				let (last, refs) = list.split_last().unwrap();
				let mut s: String = refs.iter().map(|g| format!("({g})")).collect();
				s += &if last.parse::<u8>().is_ok() || last == "RX" || last == "CR" { format!("({last})") } else { last.clone() };
				s
			};
			let mut o = vec![*enc % 4];
			o.extend_from_slice(&text(&s, *enc, be));
			more(&mut o, *enc);
			o
		},
		FrameSpec::UserText { enc, d, v } => {
			let mut o = vec![*enc % 4];
			o.extend_from_slice(&terminated(&d.get(), *enc, be));
			o.extend_from_slice(&text(&v.get(), *enc, be));
			more(&mut o, *enc);
			o
		},
		FrameSpec::Url { v, .. } => {
			let mut o = latin1(&v.get());
			if fl & 16 != 0 {
				// "if the textstring is followed by a string termination all the following information
				// should be ignored"
				o.extend_from_slice(b"\0TIT2\0\0\0\x05\0\0\0fake");
			} else {
				more(&mut o, 0);
			}
			o
		},
		FrameSpec::UserUrl { enc, d, v } => {
			let mut o = vec![*enc % 4];
			o.extend_from_slice(&terminated(&d.get(), *enc, be));
			o.extend_from_slice(&latin1(&v.get()));
			if fl & 16 != 0 {
				o.extend_from_slice(b"\0TIT2\0\0\0\x05\0\0\0fake");
			} else {
				more(&mut o, 0);
			}
			o
		},
		FrameSpec::Comment { enc, lang, d, v } | FrameSpec::Lyrics { enc, lang, d, v } => {
			let mut o = vec![*enc % 4];
			o.extend_from_slice(if lang.len() == 3 { lang.as_bytes() } else { b"eng" });
			o.extend_from_slice(&terminated(&d.get(), *enc, be));
			o.extend_from_slice(&text(&v.get(), *enc, be));
			more(&mut o, *enc);
			o
		},
		FrameSpec::Pic { enc, p } => {
			let mut o = vec![*enc % 4];
			if l.version == 2 {
				o.extend_from_slice([b"PNG", b"JPG", b"GIF", b"BMP"][p.mime as usize % 4]);
			} else {
				o.extend_from_slice(&terminated(MIMES[p.mime as usize % 4], 0, be));
			}
			o.push(p.ty % 21);
			o.extend_from_slice(&terminated(&desc(p), *enc, be));
			o.extend_from_slice(&image(p));
			o
		},
		FrameSpec::Popm { email, rating, counter } => {
			let mut o = terminated(&email.get(), 0, be);
			o.push(*rating);
			let c = counter.to_be_bytes();
			// at least 32 bits, or left out
			let skip = c.iter().take(4).take_while(|b| **b == 0).count();
			if *counter != 0 || fl & 8 == 0 {
				o.extend_from_slice(&c[skip..]);
			}
			o
		},
		FrameSpec::KeyValue { enc, kv, .. } => {
			let mut o = vec![*enc % 4];
			for (i, (k, v)) in kv.iter().enumerate() {
				o.extend_from_slice(&terminated(&k.get(), *enc, be));
				if i + 1 == kv.len() && fl & 8 == 0 {
					o.extend_from_slice(&text(&v.get(), *enc, be));
				} else {
					o.extend_from_slice(&terminated(&v.get(), *enc, be));
				}
			}
			o
		},
		FrameSpec::Rva2 { ident, ch } => {
			let mut o = terminated(&ident.get(), 0, be);
			for (t, v, bits) in ch {
				o.push(t % 9);
				o.extend_from_slice(&v.to_be_bytes());
				o.push(*bits);
				o.extend((0..u16::from(*bits).div_ceil(8)).map(|i| i as u8 + 1));
			}
			o
		},
		FrameSpec::Ufid { owner, id } => {
			let mut o = terminated(&owner.get(), 0, be);
			o.extend_from_slice(&id.get());
			o
		},
		FrameSpec::Owne { enc, price, date, seller } => {
			let mut o = vec![*enc % 4];
			o.extend_from_slice(&terminated(&price.get(), 0, be));
			o.extend_from_slice(date.as_bytes());
			o.extend_from_slice(&text(&seller.get(), *enc, be));
			more(&mut o, *enc);
			o
		},
		FrameSpec::Etco { ms, ev } => {
			let mut o = vec![if *ms { 2 } else { 1 }];
			for (t, s) in ev {
				o.push(t % 6);
				o.extend_from_slice(&s.to_be_bytes());
			}
			o
		},
		FrameSpec::Priv { owner, d } => {
			let mut o = terminated(&owner.get(), 0, be);
			o.extend_from_slice(&d.get());
			o
		},
		FrameSpec::Time { enc, t, .. } => {
			let mut s = format!("{:04}", t.first().copied().unwrap_or(2000));
			for (i, v) in t.iter().enumerate().skip(1) {
				s += ["", "-", "-", "T", ":", ":"][i.min(5)];
				s += &format!("{v:02}");
			}
			let mut o = vec![*enc % 4];
			o.extend_from_slice(&text(&s, *enc, be));
			more(&mut o, *enc);
			o
		},
		FrameSpec::Chap { id, a, kids } => {
			let mut o = terminated(&id.get(), 0, be);
			for x in a {
				o.extend_from_slice(&x.to_be_bytes());
			}
			for k in kids {
				o.extend_from_slice(&frame(k, l, 0));
			}
			o
		},
		FrameSpec::Ctoc { id, top, ord, entries, kids } => {
			let mut o = terminated(&id.get(), 0, be);
			o.push(u8::from(*top) << 1 | u8::from(*ord));
			o.push(entries.len() as u8);
			for e in entries {
				o.extend_from_slice(&terminated(&e.get(), 0, be));
			}
			for k in kids {
				o.extend_from_slice(&frame(k, l, 0));
			}
			o
		},
		FrameSpec::Bin { d, .. } => d.get(),
		FrameSpec::Enc { d, .. } => {
			let mut d = d.get();
			if d.is_empty() {
				d.push(1);
			}
			d
		},
		FrameSpec::Odd { .. } => vec![1],
		FrameSpec::Flagged { f, .. } => body(f, l, fl),
	}
}

/// A frame with its header
fn frame(f: &FrameSpec, l: &Layout, fl: u8) -> Vec<u8> {
	let id = id_of(f);
	let mut data = body(f, l, fl);
	let mut o = Vec::new();
	if l.version == 2 {
		let short = V2.iter().find(|(a, _)| *a == id).map_or("XXX", |(_, b)| *b);
		o.extend_from_slice(short.as_bytes());
		o.extend_from_slice(&(data.len() as u32).to_be_bytes()[1..]);
		o.extend_from_slice(&data);
		return o;
	}
	let (mut status, mut group, mut method) = (0, None, None);
	match f {
		FrameSpec::Flagged { fl, group: g, .. } => {
			status = *fl & 7;
			if fl & 8 != 0 {
				group = Some(*g);
			}
		},
		FrameSpec::Enc { method: m, group: g, .. } => {
			method = Some((*m).max(0x81));
			group = *g;
		},
		_ => {},
	}
	let compress = fl & 2 != 0 && method.is_none();
	let size = data.len() as u32;
	if compress {
		data = zlib(&data);
	}
	// the bit of `status`: tag alter, file alter, read only
	let bits = |at: u8| -> u8 { (0..3).filter(|i| status >> i & 1 == 1).map(|i| 1u8 << (at - i)).sum() };
	let mut extra = Vec::new();
	if l.version == 3 {
		let mut f2 = 0u8;
		if compress {
			f2 |= 0x80;
			extra.extend_from_slice(&size.to_be_bytes());
		}
		if let Some(m) = method {
			f2 |= 0x40;
			extra.push(m);
		}
		if let Some(g) = group {
			f2 |= 0x20;
			extra.push(g);
		}
		extra.extend_from_slice(&data);
		let id = match id.as_str() {
			"TIPL" => "IPLS".to_string(),
			"TDOR" => "TORY".to_string(),
			_ => id,
		};
		o.extend_from_slice(id.as_bytes());
		o.extend_from_slice(&(extra.len() as u32).to_be_bytes());
		o.extend_from_slice(&[bits(7), f2]);
		o.extend_from_slice(&extra);
		return o;
	}
	let mut f2 = 0u8;
	// in the order of the flags
	if let Some(g) = group {
		f2 |= 0x40;
		extra.push(g);
	}
	if let Some(m) = method {
		f2 |= 0x04;
		extra.push(m);
	}
	if compress {
		f2 |= 0x08;
	}
	if compress || method.is_some() || fl & 4 != 0 {
		f2 |= 0x01;
		extra.extend_from_slice(&synchsafe(size));
	}
	if fl & 1 != 0 || l.unsync {
		f2 |= 0x02;
		data = unsynchronise(&data);
	}
	extra.extend_from_slice(&data);
	o.extend_from_slice(id.as_bytes());
	o.extend_from_slice(&synchsafe(extra.len() as u32));
	o.extend_from_slice(&[bits(6), f2]);
	o.extend_from_slice(&extra);
	o
}

fn id3v2(frames: &[FrameSpec], l: &Layout) -> Vec<u8> {
	let mut b = Vec::new();
	let put = |b: &mut Vec<u8>, id: &str, s: &str| {
		b.extend_from_slice(id.as_bytes());
		b.extend_from_slice(&(s.len() as u32 + 1).to_be_bytes());
		b.extend_from_slice(&[0, 0, 0]);
		b.extend_from_slice(s.as_bytes());
	};
	if let Some((y, d, t)) = l.date
		&& l.version == 3
	{
		if let Some((h, m)) = t {
			put(&mut b, "TIME", &format!("{h:02}{m:02}"));
		}
		put(&mut b, "TYER", &format!("{y:04}"));
		if let Some((d, m)) = d {
			put(&mut b, "TDAT", &format!("{d:02}{m:02}"));
		}
	}
	for (i, f) in frames.iter().enumerate() {
		b.extend_from_slice(&frame(f, l, l.frames.get(i).copied().unwrap_or(0)));
	}
	let crc = (hash_bytes(&b) as u32 & !0x80).to_be_bytes();
	let footer = l.footer && l.version == 4;
	let pad = if footer { 0 } else { l.pad.min(1 << 16) };
	let mut ext = Vec::new();
	if l.ext & 1 != 0 && l.version == 3 {
		let c = l.ext & 4 != 0;
		ext.extend_from_slice(&(if c { 10u32 } else { 6 }).to_be_bytes());
		ext.extend_from_slice(&[if c { 0x80 } else { 0 }, 0]);
		ext.extend_from_slice(&pad.to_be_bytes());
		if c {
			ext.extend_from_slice(&crc);
		}
	} else if l.ext & 1 != 0 && l.version == 4 {
		let mut x = vec![1, 0];
		if l.ext & 2 != 0 {
			x[1] |= 0x40;
			x.push(0);
		}
		if l.ext & 4 != 0 {
			x[1] |= 0x20;
			x.push(5);
			x.push(crc[0] >> 4);
			let c = u32::from_be_bytes(crc);
			x.extend_from_slice(&synchsafe(c & 0x0FFF_FFFF));
		}
		if l.ext & 8 != 0 {
			x[1] |= 0x10;
			x.extend_from_slice(&[1, l.restrictions()]);
		}
		ext.extend_from_slice(&synchsafe(x.len() as u32 + 4));
		ext.extend_from_slice(&x);
	}
	let has_ext = !ext.is_empty();
	ext.extend_from_slice(&b);
	let mut b = ext;
	b.resize(b.len() + pad as usize, 0);
	if l.unsync && l.version < 4 {
		b = unsynchronise(&b);
	}
	let mut fl = 0;
	if l.unsync {
		fl |= 0x80;
	}
	if has_ext {
		fl |= 0x40;
	}
	if l.exp && l.version > 2 {
		fl |= 0x20;
	}
	if footer {
		fl |= 0x10;
	}
	let mut h = vec![l.version, 0, fl];
	h.extend_from_slice(&synchsafe(b.len() as u32));
	let mut o = b"ID3".to_vec();
	o.extend_from_slice(&h);
	o.extend_from_slice(&b);
	if footer {
		o.extend_from_slice(b"3DI");
		o.extend_from_slice(&h);
	}
	o
}

// ------------------------------------------------------------------------------------------------
// the other formats

fn ape(items: &[crate::tags::ApeSpec], ro: bool, l: &Layout) -> Vec<u8> {
	let v1 = l.version == 1;
	let mut b = Vec::new();
	for i in items {
		let (key, fl, v) = match &i.v {
			ApeVal::Text(t) => (i.key.clone(), 0u32, t.get().into_bytes()),
			ApeVal::Loc(t) => (i.key.clone(), 4, t.get().into_bytes()),
			ApeVal::Bin(d) => (i.key.clone(), 2, d.get()),
			ApeVal::Pic(p) => {
				let mut d = desc(p).into_bytes();
				d.push(0);
				d.extend_from_slice(&image(p));
				(format!("Cover Art ({})", APE_PICS[p.ty as usize % 21]), 2, d)
			},
		};
		b.extend_from_slice(&(v.len() as u32).to_le_bytes());
		b.extend_from_slice(&(if v1 { 0 } else { fl | u32::from(i.ro) }).to_le_bytes());
		b.extend_from_slice(key.as_bytes());
		b.push(0);
		b.extend_from_slice(&v);
	}
	let foot = |fl: u32| {
		let mut f = b"APETAGEX".to_vec();
		for x in [if v1 { 1000 } else { 2000 }, b.len() as u32 + 32, items.len() as u32, if v1 { 0 } else { fl }, 0, 0] {
			f.extend_from_slice(&x.to_le_bytes());
		}
		f
	};
	let mut o = Vec::new();
	if !v1 && l.footer {
		o.extend_from_slice(&foot(0xA000_0000 | u32::from(ro)));
	}
	o.extend_from_slice(&b);
	o.extend_from_slice(&foot(if l.footer { 0x8000_0000 } else { 0 } | u32::from(ro)));
	o
}

/// An atom with a 64-bit size
fn long_atom(name: &[u8], body: &[u8]) -> Vec<u8> {
	let mut o = vec![0, 0, 0, 1];
	o.extend_from_slice(name);
	o.extend_from_slice(&(body.len() as u64 + 16).to_be_bytes());
	o.extend_from_slice(body);
	o
}

/// The fewest bytes that hold a number
fn short(n: i64, signed: bool, size: usize) -> Vec<u8> {
	let b = n.to_be_bytes();
	let mut at = 8 - size;
	while at < 7 {
		let (first, next) = (b[at], b[at + 1]);
		let drop = if signed { (first == 0 && next < 0x80) || (first == 0xFF && next >= 0x80) } else { first == 0 };
		if !drop {
			break;
		}
		at += 1;
	}
	b[at..].to_vec()
}

fn gnre(l: &Layout) -> usize {
	(l.more >> 8) as usize % 192
}

fn ilst(atoms: &[crate::tags::AtomSpec], l: &Layout) -> Vec<u8> {
	let mut o = Vec::new();
	let wrap = |long: bool, name: &[u8], body: &[u8]| if long { long_atom(name, body) } else { atom(name.try_into().unwrap(), body) };
	if l.more & 1 != 0 {
		let mut x = vec![0; 8];
		x.extend_from_slice(&(gnre(l) as u16 + 1).to_be_bytes());
		o.extend_from_slice(&atom(b"gnre", &atom(b"data", &x)));
	}
	for a in atoms {
		let mut b = Vec::new();
		let id = match a.id.split_once(':') {
			Some((m, n)) => {
				for (i, s) in [(b"mean", m), (b"name", n)] {
					let mut x = vec![0; 4];
					x.extend_from_slice(s.as_bytes());
					b.extend_from_slice(&wrap(l.more & 64 != 0, i, &x));
				}
				*b"----"
			},
			None => {
				let mut f = *b"XXXX";
				for (x, c) in f.iter_mut().zip(a.id.chars()) {
					*x = c as u32 as u8;
				}
				f
			},
		};
		for d in &a.data {
			let (code, v) = match d {
				DataSpec::Utf8(t) => (1, t.get().into_bytes()),
				DataSpec::Utf16(t) => (2, text(&t.get(), 2, true)),
				DataSpec::Int(i) => (21, if l.more & 8 == 0 { i.to_be_bytes().to_vec() } else { short(i64::from(*i), true, 4) }),
				DataSpec::Uint(i) => (22, if l.more & 8 == 0 { i.to_be_bytes().to_vec() } else { short(i64::from(*i), false, 4) }),
				DataSpec::Bool => (21, if l.more & 8 == 0 { vec![1] } else { [vec![1], vec![0, 1], vec![0, 0, 0, 1]][(l.more >> 8) as usize % 3].clone() }),
				DataSpec::Raw(c, b) => (*c & 0xFF_FFFF, b.get()),
				DataSpec::Pic(p) => (if l.more & 128 == 0 { [14, 13, 12, 27][p.mime as usize % 4] } else { 0 }, image(p)),
			};
			let mut x = code.to_be_bytes().to_vec();
			x.extend_from_slice(&if l.more & 4 == 0 { [0; 4] } else { *b"\0\x09\x15\xC7" });
			x.extend_from_slice(&v);
			b.extend_from_slice(&wrap(l.more & 16 != 0, b"data", &x));
		}
		o.extend_from_slice(&wrap(l.more & 32 != 0, &id, &b));
		if l.more & 2 != 0 {
			o.extend_from_slice(&atom(if b.len() % 2 == 0 { b"free" } else { b"skip" }, &vec![0; b.len() % 40]));
		}
	}
	o
}

/// Numbers of Vorbis comments: as they are stored, or as they are read
fn numbers(l: &Layout, stored: bool) -> Vec<String> {
	let mut v = Vec::new();
	let (n, t) = (1 + (l.more >> 8) % 300, 1 + (l.more >> 16) % 70_000);
	for (bit, key, total) in [(1, "TRACKNUMBER", "TRACKTOTAL"), (2, "DISCNUMBER", "DISCTOTAL")] {
		if l.more & bit == 0 {
		} else if l.more & 4 != 0 {
			v.push((key, format!("A{n}")));
		} else if l.more & 8 != 0 {
			v.push((key, format!("{n}")));
		} else if stored {
			v.push((key, format!("{n}/{t}")));
		} else {
			v.push((total, format!("{t}")));
			v.push((key, format!("{n}")));
		}
	}
	v.into_iter().map(|(k, x)| if stored { format!("{k}={x}") } else { format!("{k}={x:?}") }).collect()
}

fn vorbis(vendor: &Txt, items: &[(String, Txt)], pics: &[PicSpec], l: &Layout) -> Vec<u8> {
	let v = vendor.get();
	let mut all: Vec<String> = items.iter().map(|(k, v)| format!("{k}={}", v.get())).collect();
	all.extend(numbers(l, true));
	for (i, p) in pics.iter().enumerate() {
		let mut c = if cover_art(p, l) {
			format!("COVERART={}", base64(&image(p)))
		} else {
			format!("METADATA_BLOCK_PICTURE={}", base64(&flac_picture(p, l)))
		};
		if l.unsync {
			let n = c.find('=').unwrap();
			c[..n].make_ascii_lowercase();
		}
		// anywhere between the items
		let at = if l.be { (2 * i).min(all.len()) } else { all.len() };
		all.insert(at, c);
	}
	let mut o = (v.len() as u32).to_le_bytes().to_vec();
	o.extend_from_slice(v.as_bytes());
	o.extend_from_slice(&(all.len() as u32).to_le_bytes());
	for i in all {
		o.extend_from_slice(&(i.len() as u32).to_le_bytes());
		o.extend_from_slice(i.as_bytes());
	}
	o
}

impl Layout {
	fn restrictions(&self) -> u8 {
		(self.ext & 0xF0) | (self.ext >> 4).wrapping_mul(7) & 0xF
	}

	/// What the header and the extended header tell, as in `TagSpec::Id3v2`
	fn head(&self) -> u16 {
		let ext = self.ext & 1 != 0;
		let mut h = 0;
		if ext && self.version > 2 && self.ext & 4 != 0 {
			h |= 1;
		}
		if self.footer && self.version == 4 {
			h |= 2;
		}
		if self.exp && self.version > 2 {
			h |= 4;
		}
		if ext && self.version == 4 && self.ext & 8 != 0 {
			h |= 8 | u16::from(self.restrictions()) << 8;
		}
		h
	}
}

impl Foreign {
	/// Without what the chosen versions do not have
	fn tags(&self) -> Vec<(TagSpec, Layout)> {
		let mut v = self.tags.clone();
		for (t, l) in &mut v {
			match t {
				TagSpec::Id3v2 { frames, .. } => {
					l.version = l.version.clamp(2, 4);
					crate::tags::one_top(frames, &mut false);
					let mut i = 0;
					let mut toc = false;
					let mut dates = Vec::new();
					frames.retain(|f| {
						let mut keep = exists(f, l.version) && crate::tags::first_date(f, &mut dates);
						// one table of contents at most
						if id_of(f) == "CTOC" {
							keep &= !toc;
							toc = true;
						}
						if keep {
							i += 1;
						} else if i < l.frames.len() {
							l.frames.remove(i);
						}
						keep
					});
				},
				TagSpec::Ape { items, ro } if l.version == 1 => {
					*ro = false;
					items.retain(|i| matches!(i.v, ApeVal::Text(_)));
					for i in items {
						i.ro = false;
					}
				},
				// one icon of each kind at most
				TagSpec::Vorbis { pics, .. } => {
					let mut seen = Vec::new();
					pics.retain(|p| {
						let new = !(1..=2).contains(&p.ty) || !seen.contains(&p.ty);
						seen.push(p.ty);
						new
					});
					if l.exp {
						for p in pics.iter_mut().step_by(2) {
							(p.ty, p.desc) = (0, None);
						}
					}
				},
				_ => {},
			}
		}
		v
	}

	/// The file
	pub fn bytes(&self) -> Vec<u8> {
		let mut i = Inject::default();
		let mut feats = self.feats.clone();
		feats.retain(|f| !matches!(f, Feat::Id3v2 { .. } | Feat::Ape { .. } | Feat::Id3v1 { .. } | Feat::Native { .. } | Feat::LeadApe { .. } | Feat::Lyrics3 { .. } | Feat::Pic { .. }));
		for (t, l) in &self.tags() {
			match t {
				TagSpec::Id3v2 { frames, .. } => {
					i.id3v2 = Some(id3v2(frames, l));
					feats.push(Feat::Id3v2 { version: 4, unsync: false, footer: l.exp, pad: 0, text: 1 });
				},
				TagSpec::Ape { items, ro } => {
					i.ape = Some(ape(items, *ro, l));
					feats.push(Feat::Ape { v2: true, header: true, text: 1 });
				},
				TagSpec::Id3v1 { title, artist, album, year, comment, track, genre } => {
					let mut o = b"TAG".to_vec();
					// zero-padded
					let pad = 0;
					let put = |o: &mut Vec<u8>, t: &Option<Txt>, n: usize| {
						let mut b = t.as_ref().map(|t| latin1(&t.get())).unwrap_or_default();
						let p = if b.is_empty() { 0 } else { pad };
						b.resize(n, p);
						o.extend_from_slice(&b);
					};
					put(&mut o, title, 30);
					put(&mut o, artist, 30);
					put(&mut o, album, 30);
					put(&mut o, &year.map(|y| Txt::Lit(format!("{y:04}"))), 4);
					if track.is_some() {
						put(&mut o, comment, 28);
						o.push(0);
						o.push(track.unwrap_or(0));
					} else {
						put(&mut o, comment, 30);
					}
					o.push(genre.unwrap_or(255));
					i.id3v1 = Some(o);
					feats.push(Feat::Id3v1 { text: 1 });
				},
				TagSpec::Vorbis { vendor, items, pics } => {
					if self.fmt == Fmt::Flac && l.more & 16 == 0 {
						i.vorbis = Some(vorbis(vendor, items, &[], l));
						i.pics = pics.iter().map(|p| flac_picture(p, l)).collect();
					} else {
						i.vorbis = Some(vorbis(vendor, items, pics, l));
					}
					feats.push(Feat::Native { text: 1, after: l.footer });
				},
				TagSpec::Ilst { atoms } => {
					i.ilst = Some(ilst(atoms, l));
					feats.push(Feat::Native { text: 1, after: l.footer });
				},
				TagSpec::Riff { items } => {
					let mut o = Vec::new();
					for (k, v) in items {
						let mut b = v.get().into_bytes();
						// terminated as announced, or not, or padded
						b.resize(b.len() + [1, 0, 1, 2, 7][(l.more % 5) as usize], 0);
						chunk(&mut o, k.as_bytes(), &b, false);
					}
					i.riff = Some(o);
					feats.push(Feat::Native { text: 1, after: l.footer });
				},
				TagSpec::Aiff { name, author, copyright, anno, comments } => {
					let mut o: Vec<(&'static [u8; 4], Vec<u8>)> = Vec::new();
					for (id, t) in [(b"NAME", name), (b"AUTH", author), (b"(c) ", copyright)] {
						if let Some(t) = t {
							o.push((id, t.get().into_bytes()));
						}
					}
					for a in anno {
						o.push((b"ANNO", a.get().into_bytes()));
					}
					if !comments.is_empty() {
						let mut b = (comments.len() as u16).to_be_bytes().to_vec();
						for (ts, m, t) in comments {
							let t = t.get().into_bytes();
							b.extend_from_slice(&ts.to_be_bytes());
							b.extend_from_slice(&m.to_be_bytes());
							b.extend_from_slice(&(t.len() as u16).to_be_bytes());
							b.extend_from_slice(&t);
							if t.len() % 2 == 1 {
								b.push(0);
							}
						}
						o.push((b"COMT", b));
					}
					if l.be {
						o.reverse();
						// the annotations in their order
						let mut a: Vec<_> = o.iter().filter(|(i, _)| *i == b"ANNO").cloned().collect();
						for x in &mut o {
							if x.0 == b"ANNO" {
								*x = a.pop().unwrap();
							}
						}
					}
					i.aiff = Some(o);
					feats.push(Feat::Native { text: 1, after: l.footer });
				},
				TagSpec::Generic { .. } => {},
			}
		}
		media::build_with(self.fmt, self.seed, self.units.min(4096), &feats, i)
	}

	/// What the file holds
	pub fn expected(&self) -> Reading {
		let mut r = Reading::default();
		for (t, l) in &self.tags() {
			let mut t = t.clone();
			let mut pictures = Vec::new();
			if let TagSpec::Vorbis { pics, .. } = &mut t {
				pictures = std::mem::take(pics).iter().map(|p| format!("{} {:?}", crate::tags::canon_pic(&p.build()), flac_info(p, l))).collect();
			}
			if self.fmt == Fmt::Flac && l.more & 16 == 0 {
				r.extra.append(&mut pictures);
			}
			if let TagSpec::Id3v2 { head, .. } = &mut t {
				*head = l.head();
			}
			let mut c = t.build().canon();
			if t.kind() == Kind::Vorbis {
				c.extend(numbers(l, false));
			}
			if t.kind() == Kind::Ilst && l.more & 128 != 0 {
				// the type of the image is not given
				for l in c.iter_mut().filter(|l| l.contains("pic ")) {
					for m in ["Png", "Jpeg", "Gif", "Bmp"] {
						*l = l.replace(&format!("Some({m})"), "None");
					}
				}
			}
			if let TagSpec::Ilst { atoms } = &t
				&& l.more & 1 != 0
				&& atoms.iter().all(|a| a.id != "\u{a9}gen")
			{
				let genre = Txt::Lit(GENRES[gnre(l)].into());
				c.extend(TagSpec::Ilst { atoms: vec![crate::tags::AtomSpec { id: "\u{a9}gen".into(), data: vec![DataSpec::Utf8(genre)] }] }.build().canon());
			}
			c.append(&mut pictures);
			if let Some((y, d, tm)) = l.date
				&& l.version == 3
				&& t.kind() == Kind::Id3v2
			{
				let mut s = vec![y];
				if let Some((d, m)) = d {
					s.extend([u16::from(m), u16::from(d)]);
					if let Some((h, m)) = tm {
						s.extend([u16::from(h), u16::from(m)]);
					}
				}
				let date = TagSpec::Id3v2 { frames: vec![FrameSpec::Time { id: "TDRC".into(), enc: 0, t: s }], head: 0 };
				c.extend(date.build().canon());
				if let (None, Some((h, m))) = (d, tm) {
					// a time without a date stays as it is
					let s = format!("{h:02}{m:02}");
					c.push(format!("TIME 000 gNone c0 eNone u0 dfalse | Latin1 {s:?}"));
				}
			}
			r.tags.insert(t.kind(), c);
		}
		r
	}
}

/// The tags a format can be found with
pub fn holds(f: Fmt) -> &'static [Kind] {
	match f {
		Fmt::Mp3 | Fmt::Ape | Fmt::Mpc7 | Fmt::Mpc8 => &[Kind::Id3v2, Kind::Id3v1, Kind::Ape],
		Fmt::Aac => &[Kind::Id3v2, Kind::Id3v1],
		Fmt::Wv => &[Kind::Id3v1, Kind::Ape],
		Fmt::Wav => &[Kind::Id3v2, Kind::Riff],
		Fmt::Aiff => &[Kind::Id3v2, Kind::AiffText],
		Fmt::Flac => &[Kind::Vorbis, Kind::Id3v2],
		Fmt::OggVorbis | Fmt::OggOpus | Fmt::OggSpeex => &[Kind::Vorbis],
		Fmt::Mp4 => &[Kind::Ilst],
	}
}

pub fn gen_layout(r: &mut Rng, k: Kind, spec: &mut TagSpec) -> Layout {
	let mut l = Layout {
		version: if k == Kind::Ape { 1 + r.below(2) as u8 } else { 2 + r.below(3) as u8 },
		unsync: r.chance(1, 4),
		ext: if r.chance(1, 4) { 1 | r.below(128) as u8 * 2 } else { 0 },
		footer: r.chance(1, 3),
		exp: r.chance(1, 8),
		pad: if r.chance(1, 2) { r.size(3000, &[0, 1, 9, 10, 11, 1024]) as u32 } else { 0 },
		be: r.chance(1, 2),
		frames: Vec::new(),
		date: None,
		more: if matches!(k, Kind::Vorbis | Kind::Ilst | Kind::Riff) && r.chance(1, 2) { r.u64() as u32 } else { 0 },
	};
	match spec {
		TagSpec::Id3v2 { frames, .. } => {
			frames.retain(|f| exists(f, l.version));
			if l.version == 3 && r.chance(1, 4) {
				let d = Some((1 + r.below(28) as u8, 1 + r.below(12) as u8));
				let t = Some((r.below(24) as u8, r.below(60) as u8));
				l.date = Some((1000 + r.below(9000) as u16, d.filter(|_| r.chance(2, 3)), t.filter(|_| r.chance(1, 2))));
			}
			l.frames = frames
				.iter()
				.map(|f| {
					let mut m = if r.chance(1, 2) { 0 } else { r.below(32) as u8 };
					if !r.chance(1, 4) {
						m &= !2;
					}
					if matches!(f, FrameSpec::Enc { .. }) {
						m &= !2;
					}
					m
				})
				.collect();
		},
		TagSpec::Ape { items, .. } if l.version == 1 => {
			for i in items.iter_mut() {
				i.ro = false;
				if !matches!(i.v, ApeVal::Text(_)) || i.key == "Year" || i.key == "Track" {
					continue;
				}
				i.v = ApeVal::Text(Txt::Gen { g: r.below(1 << 20), n: 1 + r.below(200) as u32, c: 0 });
			}
			items.retain(|i| matches!(i.v, ApeVal::Text(_)));
		},
		TagSpec::Id3v1 { comment: Some(_), track, .. } if track.is_none() => {},
		TagSpec::Riff { items } => {
			let mut seen = Vec::new();
			items.retain(|(k, _)| {
				let new = !seen.contains(k);
				seen.push(k.clone());
				new
			});
		},
		_ => {},
	}
	l
}

impl Foreign {
	fn parts(&self) -> Vec<&crate::parts::PartSpec> {
		let mut v = Vec::new();
		for (t, _) in &self.tags {
			if let TagSpec::Id3v2 { frames, .. } = t {
				v.extend(crate::parts::of(frames, false));
			}
		}
		v
	}
}

pub fn gen_foreign(r: &mut Rng, fmts: &[Fmt], big: u32) -> Foreign {
	let fmt = *r.pick(fmts);
	let base = media::gen_base(r, fmt);
	let (seed, units, feats) = match base {
		media::Base::Synth { seed, units, feats, .. } => (seed, units.min(100), feats),
		_ => (0, 3, Vec::new()),
	};
	let g = GenOpts { v23: false, big };
	let mut tags = Vec::new();
	for k in holds(fmt) {
		if holds(fmt).len() > 1 && !r.chance(2, 3) {
			continue;
		}
		let mut spec = gen_tag(r, *k, &g);
		let mut l = gen_layout(r, *k, &mut spec);
		if fmt == Fmt::Flac {
			l.more &= !16;
		}
		if spec.build().is_empty() && l.date.is_none() {
			continue;
		}
		tags.push((spec, l));
	}
	Foreign { fmt, seed, units, feats, tags }
}

pub fn gen_stored(r: &mut Rng) -> Stored {
	let big = *r.pick(&[40, 300, 3000]);
	let mut f = gen_foreign(r, ALL_FMTS, big);
	if f.fmt == Fmt::Flac && r.chance(1, 4) {
		// saving moves them into blocks
		for (_, l) in &mut f.tags {
			l.more |= 16;
		}
	}
	Stored { f, noise: (0..r.below(3)).map(|_| gen_noise(r)).collect() }
}

pub fn exec_stored(c: &Stored, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let data = c.f.bytes();
	let want = c.f.expected();
	let fmt = c.f.fmt;
	stats::named(&format!("fmt.{}", fmt.name()));
	let plans = std::iter::once(Plan::default()).chain(c.noise.iter().map(|n| Plan::noise(*n)));
	for plan in plans {
		let noisy = plan.noise;
		let mut d = SimDisk::with_plan(data.clone(), plan);
		d.budget = 40 * op_budget(data.len());
		let (o, r) = outcome(catch(|| AnyFile::read(fmt, &mut d, POpts::default().get()).map(|f| f.reading())));
		ctx.sim(&d, d.soft_fired.get() > 0);
		match &o {
			Outcome::Panic(p) => return Ok(vec![viol("panic", p.clone())]),
			Outcome::Budget => return Ok(vec![viol("no termination", "")]),
			_ => {},
		}
		let Some(got) = r else {
			return Ok(vec![viol("unreadable", format!("{} ({noisy:?}): {o:?}", fmt.name()))]);
		};
		for (k, w) in &want.tags {
			stats::named(&format!("tag.{k:?}"));
			let Some(g) = got.tags.get(k) else {
				return Ok(vec![viol(format!("{k:?} not found"), format!("{} ({noisy:?}): stored {}", fmt.name(), show(w)))]);
			};
			let (mut a, mut b) = (w.clone(), g.clone());
			if *k == Kind::Id3v2 && c.f.tags.iter().any(|(_, l)| l.date.is_some()) {
				a.sort();
				b.sort();
			}
			if *k == Kind::Id3v2 {
				let (mut have, mut n) = (g.clone(), 0);
				for p in c.f.parts() {
					n += 1;
					let want = format!(" {}", p.view());
					match have.iter().position(|l| l.contains(&want)) {
						Some(i) => have[i] = have[i].replacen(&want, "", 1),
						None => return Ok(vec![viol("frame content read differently", format!("{} ({noisy:?}): stored {} of {want} in {:?}, read {}", fmt.name(), p.id(), p.bytes(), show(g)))]),
					}
				}
				if n > 0 {
					stats::named("parts");
				}
			}
			if a != b {
				return Ok(vec![viol(format!("{k:?} read differently"), format!("{} ({noisy:?}): stored / read {}", fmt.name(), diff_lines(&a, &b)))]);
			}
		}
		for k in got.tags.keys() {
			if !want.tags.contains_key(k) && !(*k == Kind::Vorbis && fmt != Fmt::Flac) {
				return Ok(vec![viol(format!("{k:?} out of nowhere"), format!("{}: {}", fmt.name(), show(&got.tags[k])))]);
			}
		}
		if got.extra != want.extra {
			return Ok(vec![viol("pictures read differently", format!("{}: {}", fmt.name(), diff_lines(&want.extra, &got.extra)))]);
		}
	}
	Ok(Vec::new())
}
