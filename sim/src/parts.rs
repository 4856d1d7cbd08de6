//! Frames that the library keeps as they are stored, and reads and writes by request: objects (GEOB), synchronised
//! text (SYLT) and audio text (ATXT). They are encoded and decoded here on their own.

use crate::rng::Rng;
use crate::tags::{Blob, FrameSpec, Txt, bin};
use lofty::TextEncoding;
use lofty::config::WriteOptions;
use lofty::id3::v2::{AudioTextFrame, AudioTextFrameFlags, Frame, FrameFlags, GeneralEncapsulatedObject, SyncTextContentType, SynchronizedTextFrame, TimestampFormat};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Body {
	Geob { name: Option<Txt>, desc: Option<Txt>, data: Blob },
	/// `bom`: every text has a byte order mark, or only the description
	Sylt { lang: String, unit: u8, kind: u8, desc: Option<Txt>, lines: Vec<(u32, Txt)>, bom: bool },
	Atxt { scr: bool, text: Txt, data: Blob },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct PartSpec {
	pub enc: u8,
	#[serde(default)]
	pub be: bool,
	pub mime: Option<Txt>,
	pub body: Body,
}

fn text(s: &str, enc: u8, be: bool, bom: bool, o: &mut Vec<u8>) {
	match enc {
		0 => o.extend(s.chars().map(|c| c as u32 as u8).chain([0])),
		3 => o.extend(s.bytes().chain([0])),
		_ => {
			let be = be || enc == 2;
			let mark = (enc == 1 && bom).then_some(0xFEFF);
			for u in mark.into_iter().chain(s.encode_utf16()).chain([0]) {
				o.extend_from_slice(&if be { u.to_be_bytes() } else { u.to_le_bytes() });
			}
		},
	}
}

/// The text up to its terminator
fn read_text(d: &mut &[u8], enc: u8) -> Result<String, String> {
	if matches!(enc, 0 | 3) {
		let n = d.iter().position(|b| *b == 0).ok_or("a text without a terminator")?;
		let (t, rest) = (&d[..n], &d[n + 1..]);
		*d = rest;
		return if enc == 0 {
			Ok(t.iter().map(|b| char::from(*b)).collect())
		} else {
			std::str::from_utf8(t).map(str::to_string).map_err(|e| e.to_string())
		};
	}
	let raw: Vec<[u8; 2]> = d.chunks_exact(2).map(|c| [c[0], c[1]]).collect();
	let n = raw.iter().position(|c| *c == [0, 0]).ok_or("a text without a terminator")?;
	*d = &d[2 * (n + 1)..];
	let (be, from) = match (enc, raw[..n].first()) {
		(2, _) => (true, 0),
		(_, None) => (true, 0),
		(_, Some([0xFE, 0xFF])) => (true, 1),
		(_, Some([0xFF, 0xFE])) => (false, 1),
		_ => return Err("UTF-16 without a byte order mark".into()),
	};
	let u: Vec<u16> = raw[from..n].iter().map(|c| if be { u16::from_be_bytes(*c) } else { u16::from_le_bytes(*c) }).collect();
	String::from_utf16(&u).map_err(|e| e.to_string())
}

/// Any description describes something
fn norm(lang: &str, unit: u8, kind: u8) -> (String, u8, u8) {
	let lang = if lang.len() == 3 && lang.bytes().all(|c| c.is_ascii_alphabetic()) { lang } else { "XXX" };
	(lang.into(), unit.clamp(1, 2), kind % 9)
}

/// What the encoding has characters for
fn fit(t: &Txt, enc: u8) -> String {
	let t = t.get();
	if enc == 0 { t.chars().map(|c| if c as u32 > 0xFF { '?' } else { c }).collect() } else { t }
}

fn some(t: &Option<Txt>, enc: u8) -> Option<String> {
	t.as_ref().map(|t| fit(t, enc))
}

fn opt(t: &Option<Txt>, enc: u8) -> String {
	some(t, enc).unwrap_or_default()
}

impl PartSpec {
	pub fn id(&self) -> &'static str {
		match self.body {
			Body::Geob { .. } => "GEOB",
			Body::Sylt { .. } => "SYLT",
			Body::Atxt { .. } => "ATXT",
		}
	}

	pub fn bytes(&self) -> Vec<u8> {
		let (e, be) = (self.enc % 4, self.be);
		let mut o = vec![e];
		match &self.body {
			Body::Geob { name, desc, data } => {
				text(&opt(&self.mime, 0), 0, false, false, &mut o);
				text(&opt(name, self.enc % 4), e, be, true, &mut o);
				text(&opt(desc, self.enc % 4), e, be, true, &mut o);
				o.extend(data.get());
			},
			Body::Sylt { lang, unit, kind, desc, lines, bom } => {
				let (lang, unit, kind) = norm(lang, *unit, *kind);
				o.extend_from_slice(lang.as_bytes());
				o.extend([unit, kind]);
				text(&opt(desc, self.enc % 4), e, be, true, &mut o);
				for (t, l) in lines {
					text(&fit(l, self.enc % 4), e, be, *bom, &mut o);
					o.extend_from_slice(&t.to_be_bytes());
				}
			},
			Body::Atxt { scr, text: t, data } => {
				text(&opt(&self.mime, 0), 0, false, false, &mut o);
				o.push(u8::from(*scr));
				text(&fit(t, self.enc % 4), e, be, true, &mut o);
				o.extend(data.get());
			},
		}
		o
	}

	fn view_in(&self, enc: u8) -> String {
		match &self.body {
			Body::Geob { name, desc, data } => show(enc, &[opt(&self.mime, 0), opt(name, self.enc % 4), opt(desc, self.enc % 4)], &[], &data.get()),
			Body::Sylt { lang, unit, kind, desc, lines, .. } => {
				let l: Vec<(u32, String)> = lines.iter().map(|(t, l)| (*t, fit(l, self.enc % 4))).collect();
				let (lang, unit, kind) = norm(lang, *unit, *kind);
				show(enc, &[lang, format!("{unit} {kind}"), opt(desc, self.enc % 4)], &l, &[])
			},
			Body::Atxt { scr, text, data } => show(enc, &[opt(&self.mime, 0), format!("{scr}"), fit(text, self.enc % 4)], &[], &data.get()),
		}
	}

	pub fn view(&self) -> String {
		short(&self.view_in(self.enc % 4))
	}

	fn written(&self, o: WriteOptions) -> Result<Vec<u8>, String> {
		let e = crate::tags::enc(self.enc);
		let r = match &self.body {
			Body::Geob { name, desc, data } => GeneralEncapsulatedObject::new(e, some(&self.mime, 0), some(name, self.enc % 4), some(desc, self.enc % 4), data.get()).as_bytes(o),
			Body::Sylt { lang, unit, kind, desc, lines, .. } => {
				let (lang, unit, kind) = norm(lang, *unit, *kind);
				let lang: [u8; 3] = lang.as_bytes().try_into().map_err(|_| "language")?;
				let unit = TimestampFormat::try_from(unit).map_err(|_| "unit")?;
				let kind = SyncTextContentType::try_from(kind).map_err(|_| "kind")?;
				SynchronizedTextFrame::new(e, lang, unit, kind, some(desc, self.enc % 4), lines.iter().map(|(t, l)| (*t, fit(l, self.enc % 4))).collect()).as_bytes(o)
			},
			Body::Atxt { scr, text, data } => AudioTextFrame::new(e, opt(&self.mime, 0), AudioTextFrameFlags { scrambling: *scr }, fit(text, self.enc % 4), data.get()).as_bytes(o),
		};
		r.map_err(|e| format!("refused: {e}"))
	}

	/// What is wrong with the frame as the library writes it
	pub fn problem(&self, v23: bool) -> Option<String> {
		// as `WriteOptions::use_id3v23` documents it
		let enc = if v23 && self.enc % 4 > 1 { 1 } else { self.enc % 4 };
		let d = match crate::run::catch(|| self.written(WriteOptions::new().use_id3v23(v23))) {
			Ok(Ok(d)) => d,
			Ok(Err(e)) => return Some(format!("{}: {e}", self.id())),
			Err(p) => return Some(format!("{}: {p:?}", self.id())),
		};
		let want = self.view_in(enc);
		match decode(self.id(), &d) {
			Ok(got) if got == want => None,
			Ok(got) => Some(format!("{} with encoding {} (2.3: {v23}): {want} is written as {got}", self.id(), self.enc)),
			Err(e) => Some(format!("{} with encoding {} (2.3: {v23}): {e}", self.id(), self.enc)),
		}
	}
}

fn show(enc: u8, texts: &[String], lines: &[(u32, String)], data: &[u8]) -> String {
	format!("part {enc} {texts:?} {lines:?} {}", bin(data))
}

fn short(s: &str) -> String {
	format!("as {}", bin(s.as_bytes()))
}

fn decode(id: &str, d: &[u8]) -> Result<String, String> {
	let (enc, mut d) = d.split_first().map(|(e, d)| (*e, d)).ok_or("empty")?;
	if enc > 3 {
		return Err(format!("encoding {enc}"));
	}
	match id {
		"GEOB" => {
			let t = [read_text(&mut d, 0)?, read_text(&mut d, enc)?, read_text(&mut d, enc)?];
			Ok(show(enc, &t, &[], d))
		},
		"ATXT" => {
			let m = read_text(&mut d, 0)?;
			let (s, rest) = d.split_first().ok_or("no flags")?;
			d = rest;
			let t = [m, format!("{}", s & 1 != 0), read_text(&mut d, enc)?];
			Ok(show(enc, &t, &[], d))
		},
		_ => {
			let (h, rest) = d.split_at_checked(5).ok_or("no header")?;
			d = rest;
			let t = [String::from_utf8_lossy(&h[..3]).into_owned(), format!("{} {}", h[3], h[4]), read_text(&mut d, enc)?];
			let mut l = Vec::new();
			while !d.is_empty() {
				let s = read_text(&mut d, enc)?;
				let (n, rest) = d.split_at_checked(4).ok_or("a text without a time")?;
				d = rest;
				l.push((u32::from_be_bytes([n[0], n[1], n[2], n[3]]), s));
			}
			Ok(show(enc, &t, &l, &[]))
		},
	}
}

/// What the library makes of a frame it keeps as it is stored
pub fn view(id: &str, d: &[u8]) -> Option<String> {
	let f = FrameFlags::default();
	Some(match id {
		"GEOB" => match GeneralEncapsulatedObject::parse(d, f) {
			Ok(g) => show(g.encoding as u8, &[g.mime_type, g.file_name, g.descriptor].map(Option::unwrap_or_default), &[], &g.data),
			Err(_) => "part unreadable".into(),
		},
		"SYLT" => match SynchronizedTextFrame::parse(d, f) {
			Ok(s) => show(
				s.encoding as u8,
				&[
					String::from_utf8_lossy(&s.language).into_owned(),
					format!("{} {}", s.timestamp_format as u8, s.content_type as u8),
					s.description.unwrap_or_default(),
				],
				&s.content,
				&[],
			),
			Err(_) => "part unreadable".into(),
		},
		"ATXT" => match AudioTextFrame::parse(d, f) {
			Ok(a) => show(a.encoding as u8, &[a.mime_type.clone(), format!("{}", a.flags.scrambling), a.equivalent_text.clone()], &[], &a.audio_data),
			Err(_) => "part unreadable".into(),
		},
		_ => return None,
	})
}

pub fn view_of(f: &Frame<'_>) -> String {
	match f {
		Frame::Binary(b) if f.flags().encryption.is_none() => view(f.id_str(), &b.data).map(|v| format!(" {}", short(&v))).unwrap_or_default(),
		_ => String::new(),
	}
}

/// The described frames among `f`
pub fn of(f: &[FrameSpec], deep: bool) -> Vec<&PartSpec> {
	let mut v = Vec::new();
	for f in f {
		match f {
			FrameSpec::Bin { d: Blob::Part { part }, .. } => v.push(&**part),
			FrameSpec::Chap { kids, .. } | FrameSpec::Ctoc { kids, .. } if deep => v.extend(of(kids, true)),
			FrameSpec::Flagged { f, .. } => v.extend(of(std::slice::from_ref(&**f), deep)),
			_ => {},
		}
	}
	v
}

pub fn generate(r: &mut Rng, enc: u8, c: u8) -> PartSpec {
	let t = |r: &mut Rng| Txt::Gen { g: r.below(1 << 20), n: 1 + r.below(20) as u32, c };
	let o = |r: &mut Rng| r.chance(2, 3).then(|| t(r));
	let b = |r: &mut Rng| Blob::Gen { b: r.below(1 << 20), n: r.size(600, &[0, 1, 4, 127, 128, 256]) as u32, k: r.below(3) as u8 };
	let mime = match r.below(4) {
		0 => None,
		1 => Some(Txt::Gen { g: r.below(1 << 20), n: 1 + r.below(12) as u32, c: 1 }),
		_ => Some(Txt::Lit("audio/mpeg".into())),
	};
	let body = match r.below(3) {
		0 => Body::Geob { name: o(r), desc: o(r), data: b(r) },
		1 => Body::Sylt {
			lang: (*r.pick(&["eng", "deu", "XXX"])).into(),
			unit: 1 + r.below(2) as u8,
			kind: r.below(9) as u8,
			desc: o(r),
			lines: (0..r.below(6)).map(|i| (i as u32 * 1000 + r.below(1000) as u32, t(r))).collect(),
			bom: r.chance(1, 2),
		},
		_ => Body::Atxt { scr: r.chance(1, 2), text: t(r), data: b(r) },
	};
	PartSpec { enc, be: r.chance(1, 3), mime, body }
}
