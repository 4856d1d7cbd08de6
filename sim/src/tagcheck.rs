//! Independent validation of tags as lofty wrote them: what their specifications ask of a writer. Shares no
//! code with lofty; unknown frames, items and atoms are judged by their outer form only.

use crate::dissect::Kind;
use crate::media::Fmt;

struct Out(Vec<String>);

impl Out {
	fn bad(&mut self, s: impl Into<String>) {
		if self.0.len() < 4 {
			self.0.push(s.into());
		}
	}
}

/// What is wrong with a tag of this kind
pub fn problems(k: Kind, raw: &[u8], fmt: Fmt) -> Vec<String> {
	let mut o = Out(Vec::new());
	match k {
		Kind::Id3v2 => id3v2(raw, fmt, &mut o),
		Kind::Id3v1 => id3v1(raw, &mut o),
		Kind::Ape => ape(raw, &mut o),
		Kind::Vorbis => vorbis(raw, &mut o),
		Kind::Ilst => ilst(raw, &mut o),
		Kind::Riff => riff(raw, &mut o),
		Kind::AiffText => aiff(raw, &mut o),
		Kind::Lyrics3 => {},
	}
	o.0
}

fn be(d: &[u8]) -> usize {
	d.iter().fold(0, |a, b| a << 8 | *b as usize)
}
fn le(d: &[u8]) -> usize {
	d.iter().rev().fold(0, |a, b| a << 8 | *b as usize)
}
fn safe(d: &[u8]) -> Option<usize> {
	d.iter().all(|b| b & 0x80 == 0).then(|| d.iter().fold(0, |a, b| a << 7 | *b as usize))
}
fn name(id: &[u8]) -> String {
	String::from_utf8_lossy(id).into_owned()
}

fn crc32(d: &[u8]) -> u32 {
	let mut c = !0u32;
	for b in d {
		c ^= u32::from(*b);
		for _ in 0..8 {
			c = if c & 1 == 1 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 };
		}
	}
	!c
}

fn id3v2(d: &[u8], fmt: Fmt, o: &mut Out) {
	let v = d[3];
	if !(3..=4).contains(&v) || d[4] != 0 {
		return o.bad(format!("version 2.{v}.{}", d[4]));
	}
	let fl = d[5];
	if fl & if v == 3 { 0x1F } else { 0x0F } != 0 {
		o.bad(format!("header flags {fl:02x} that 2.{v} does not define"));
	}
	let footer = v == 4 && fl & 0x10 != 0;
	let n = safe(&d[6..10]).unwrap_or(0);
	if footer {
		if matches!(fmt, Fmt::Wav | Fmt::Aiff) {
			o.bad("a footer in a chunk");
		}
		let f = &d[10 + n..];
		if f.len() != 10 || &f[..3] != b"3DI" || f[3..] != d[3..10] {
			return o.bad("the footer is not a copy of the header");
		}
	}
	if fl & 0x80 != 0 {
		let b = &d[10..10 + n];
		if b.windows(2).any(|w| w[0] == 0xFF && w[1] >= 0xE0) {
			o.bad("marked as unsynchronised, but it is not");
		}
		if v == 3 {
			return;
		}
	}
	let mut p = 10;
	let end = 10 + n;
	let mut crc = None;
	if fl & 0x40 != 0 {
		if v == 3 {
			let s = be(&d[10..14]);
			if s != 6 && s != 10 {
				return o.bad(format!("extended header of {s} bytes"));
			}
			p += 4 + s;
		} else {
			let Some(s) = d.get(10..14).and_then(safe) else { return o.bad("extended header size is not synchsafe") };
			if s < 6 || 10 + s > end {
				return o.bad(format!("extended header of {s} bytes"));
			}
			let x = &d[14..10 + s];
			if x[0] != 1 {
				o.bad(format!("{} flag bytes in the extended header", x[0]));
			}
			if x[1] & 0x8F != 0 {
				o.bad(format!("extended flags {:02x}", x[1]));
			}
			let mut q = 2;
			for (bit, len) in [(0x40, 0usize), (0x20, 5), (0x10, 1)] {
				if x[1] & bit == 0 {
					continue;
				}
				if x.get(q).copied() != Some(len as u8) || q + 1 + len > x.len() {
					return o.bad(format!("data of extended flag {bit:02x}"));
				}
				let data = &x[q + 1..q + 1 + len];
				if bit == 0x20 {
					match safe(data) {
						Some(c) => crc = Some(c),
						None => o.bad("the CRC is not synchsafe"),
					}
				}
				q += 1 + len;
			}
			if q != x.len() {
				o.bad("the extended header has other data than its flags announce");
			}
			p += s;
		}
	}
	let first = p;
	let used = frames(d, p, end, v, true, o);
	p = used;
	if d[p..end].iter().any(|b| *b != 0) {
		o.bad("padding that is not zero");
	}
	if footer && p != end {
		o.bad("padding before a footer");
	}
	if p == first {
		o.bad("no frames");
	}
	// whether the padding takes part is a matter of taste
	if let Some(c) = crc
		&& c != crc32(&d[first..p]) as usize
		&& c != crc32(&d[first..end]) as usize
	{
		o.bad("the CRC is wrong");
	}
}

/// The frames from `p` on; where they end
fn frames(d: &[u8], mut p: usize, end: usize, v: u8, padded: bool, o: &mut Out) -> usize {
	let mut seen: Vec<Vec<u8>> = Vec::new();
	while p + 10 <= end {
		let id = &d[p..p + 4];
		if padded && id[0] == 0 {
			break;
		}
		if !id.iter().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit()) {
			o.bad(format!("frame ID {id:02x?}"));
			return p;
		}
		let n = if v == 3 { Some(be(&d[p + 4..p + 8])) } else { safe(&d[p + 4..p + 8]) };
		let Some(n) = n.filter(|n| p + 10 + n <= end) else {
			o.bad(format!("{} does not fit its tag", name(id)));
			return p;
		};
		if n == 0 {
			o.bad(format!("{} is empty", name(id)));
		}
		let (s, f) = (d[p + 8], d[p + 9]);
		let wrong = if v == 3 { s & 0x1F != 0 || f & 0x1F != 0 } else { s & 0x8F != 0 || f & 0xB0 != 0 };
		if wrong {
			o.bad(format!("{} has flags {s:02x} {f:02x}", name(id)));
		}
		let body = &d[p + 10..p + 10 + n];
		frame(id, body, v, f, o);
		// lists of people, times and encrypted frames are the program's to merge
		let encrypted = f & if v == 3 { 0x40 } else { 4 } != 0;
		if id[0] == b'T' && !encrypted && !id.starts_with(b"TD") && ![&b"TXXX"[..], b"TIPL", b"TMCL"].contains(&id) {
			if seen.iter().any(|s| s == id) {
				o.bad(format!("second {}", name(id)));
			}
			seen.push(id.to_vec());
		}
		p += 10 + n;
	}
	p
}

fn frame(id: &[u8], d: &[u8], v: u8, f: u8, o: &mut Out) {
	let who = name(id);
	let mut p = 0;
	let (group, method, compressed, dli, unsync) =
		if v == 3 { (f & 0x20 != 0, f & 0x40 != 0, f & 0x80 != 0, f & 0x80 != 0, false) } else { (f & 0x40 != 0, f & 4 != 0, f & 8 != 0, f & 1 != 0, f & 2 != 0) };
	if v == 4 && compressed && !dli {
		o.bad(format!("{who} is compressed without its length"));
	}
	let mut size = None;
	let mut symbol = |d: &[u8], at: usize, method: bool| {
		if method && d.get(at).is_some_and(|m| *m <= 0x80) {
			o.bad(format!("{who} is encrypted by a method nobody can register"));
		}
	};
	let need = if v == 3 {
		if dli {
			p += 4;
		}
		symbol(d, p, method);
		p += usize::from(method) + usize::from(group);
		p
	} else {
		symbol(d, usize::from(group), method);
		p += usize::from(group) + usize::from(method);
		if dli {
			match d.get(p..p + 4).and_then(safe) {
				Some(s) => size = Some(s),
				None => o.bad(format!("{who}: its data length is not synchsafe")),
			}
			p += 4;
		}
		p
	};
	if need > d.len() {
		return o.bad(format!("{who} is too short for its flags"));
	}
	let mut d = d[p..].to_vec();
	if unsync {
		if d.windows(2).any(|w| w[0] == 0xFF && w[1] >= 0xE0) {
			o.bad(format!("{who} is marked as unsynchronised, but it is not"));
		}
		let mut u = Vec::new();
		let mut ff = false;
		for b in d {
			if !(ff && b == 0) {
				u.push(b);
			}
			ff = b == 0xFF;
		}
		d = u;
	}
	if compressed || method {
		return;
	}
	if size.is_some_and(|s| s != d.len()) {
		o.bad(format!("{who}: its data length is {size:?}, it has {} bytes", d.len()));
	}
	if d.is_empty() {
		return o.bad(format!("{who} has no content"));
	}
	content(id, &d, v, o);
}

/// Split at the terminator of the encoding
fn until(d: &[u8], enc: u8) -> Option<(&[u8], &[u8])> {
	if enc == 1 || enc == 2 {
		let i = (0..d.len() / 2).find(|i| d[2 * i..2 * i + 2] == [0, 0])?;
		Some((&d[..2 * i], &d[2 * i + 2..]))
	} else {
		let i = d.iter().position(|b| *b == 0)?;
		Some((&d[..i], &d[i + 1..]))
	}
}

/// `last`: the text runs to the end and may hold several values
fn text(who: &str, what: &str, d: &[u8], enc: u8, last: bool, o: &mut Out) {
	match enc {
		1 | 2 => {
			if d.len() % 2 != 0 {
				return o.bad(format!("{who}: {what} of {} bytes in UTF-16", d.len()));
			}
			let mut rest = d;
			let mut parts = Vec::new();
			while let Some((a, b)) = until(rest, enc) {
				parts.push(a);
				rest = b;
			}
			parts.push(rest);
			for (i, p) in parts.iter().enumerate() {
				let marked = p.starts_with(&[0xFF, 0xFE]) || p.starts_with(&[0xFE, 0xFF]);
				// the first string says how the others are stored
				if enc == 1 && !marked && !p.is_empty() && i == 0 {
					o.bad(format!("{who}: {what} has no byte order mark"));
				}
				if enc == 2 && marked {
					o.bad(format!("{who}: {what} has a byte order mark in UTF-16BE"));
				}
				let big = enc == 2 || p.starts_with(&[0xFE, 0xFF]);
				let u: Vec<u16> = p.chunks(2).map(|c| if big { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) }).collect();
				if String::from_utf16(&u).is_err() {
					o.bad(format!("{who}: {what} is not UTF-16"));
				}
			}
			if !last && parts.len() > 1 {
				o.bad(format!("{who}: {what} ends early"));
			}
		},
		3 => {
			if std::str::from_utf8(d).is_err() {
				o.bad(format!("{who}: {what} is not UTF-8"));
			}
		},
		_ => {},
	}
}

fn content(id: &[u8], d: &[u8], v: u8, o: &mut Out) {
	let who = name(id);
	let max = if v == 3 { 1 } else { 3 };
	let encoding = |o: &mut Out| {
		if d[0] > max {
			o.bad(format!("{who}: text encoding {} in 2.{v}", d[0]));
		}
		d[0]
	};
	match id {
		b"TXXX" | b"WXXX" => {
			let e = encoding(o);
			let Some((desc, rest)) = until(&d[1..], e) else { return o.bad(format!("{who}: its description has no end")) };
			text(&who, "description", desc, e, false, o);
			if id == b"TXXX" {
				text(&who, "text", rest, e, true, o);
			}
		},
		_ if id[0] == b'T' => {
			let e = encoding(o);
			text(&who, "text", &d[1..], e, true, o);
			if v == 3 && [&b"TYER"[..], b"TDAT", b"TIME", b"TORY"].contains(&id) && e == 0 {
				let s = &d[1..];
				let s = s.strip_suffix(&[0]).unwrap_or(s);
				if s.len() != 4 || !s.iter().all(u8::is_ascii_digit) {
					o.bad(format!("{who}: {:?}", String::from_utf8_lossy(s)));
				}
			}
			if v == 4 && [&b"TDRC"[..], b"TDRL", b"TDOR", b"TDEN", b"TDTG"].contains(&id) && (e == 0 || e == 3) {
				let s = &d[1..];
				let s = s.strip_suffix(&[0]).unwrap_or(s);
				let form = b"0000-00-00T00:00:00";
				let ok = [4, 7, 10, 13, 16, 19].contains(&s.len()) && s.iter().zip(form).all(|(c, f)| if *f == b'0' { c.is_ascii_digit() } else { c == f });
				if !ok {
					o.bad(format!("{who}: {:?}", String::from_utf8_lossy(s)));
				}
			}
		},
		b"COMM" | b"USLT" => {
			let e = encoding(o);
			if d.len() < 4 {
				return o.bad(format!("{who}: no language"));
			}
			let Some((desc, rest)) = until(&d[4..], e) else { return o.bad(format!("{who}: its description has no end")) };
			text(&who, "description", desc, e, false, o);
			text(&who, "text", rest, e, true, o);
		},
		b"IPLS" => {
			let e = encoding(o);
			text(&who, "list", &d[1..], e, true, o);
		},
		b"APIC" => {
			let e = encoding(o);
			let Some((mime, rest)) = until(&d[1..], 0) else { return o.bad("APIC: its MIME type has no end") };
			if mime.iter().any(|b| !(0x20..0x7F).contains(b)) {
				o.bad("APIC: MIME type");
			}
			if rest.is_empty() || rest[0] > 20 {
				return o.bad("APIC: picture type");
			}
			let Some((desc, _)) = until(&rest[1..], e) else { return o.bad("APIC: its description has no end") };
			text(&who, "description", desc, e, false, o);
		},
		b"UFID" => match until(d, 0) {
			Some((owner, _)) if !owner.is_empty() => {},
			_ => o.bad("UFID: owner"),
		},
		b"PRIV" if until(d, 0).is_none() => o.bad("PRIV: its owner has no end"),
		b"POPM" => match until(d, 0) {
			Some((_, rest)) if rest.len() == 1 || rest.len() >= 5 => {},
			_ => o.bad(format!("POPM of {} bytes", d.len())),
		},
		b"RVA2" => {
			let Some((_, mut r)) = until(d, 0) else { return o.bad("RVA2: its identification has no end") };
			while !r.is_empty() {
				if r.len() < 4 || r[0] > 8 {
					return o.bad("RVA2: channel");
				}
				let n = usize::from(r[3]).div_ceil(8);
				if r.len() < 4 + n {
					return o.bad("RVA2: peak");
				}
				r = &r[4 + n..];
			}
		},
		b"ETCO" => {
			if !(1..=2).contains(&d[0]) || (d.len() - 1) % 5 != 0 {
				return o.bad("ETCO: form");
			}
			let t: Vec<usize> = d[1..].chunks(5).map(|c| be(&c[1..])).collect();
			if t.windows(2).any(|w| w[0] > w[1]) {
				o.bad("ETCO: its events are not in order");
			}
		},
		b"OWNE" => {
			let e = encoding(o);
			let Some((_, rest)) = until(&d[1..], 0) else { return o.bad("OWNE: its price has no end") };
			if rest.len() < 8 || !rest[..8].iter().all(u8::is_ascii_digit) {
				return o.bad("OWNE: date");
			}
			text(&who, "seller", &rest[8..], e, true, o);
		},
		b"CHAP" => {
			let Some((eid, rest)) = until(d, 0) else { return o.bad("CHAP: its ID has no end") };
			if eid.is_empty() || rest.len() < 16 {
				return o.bad("CHAP: form");
			}
			sub(&who, &rest[16..], v, o);
		},
		b"CTOC" => {
			let Some((eid, rest)) = until(d, 0) else { return o.bad("CTOC: its ID has no end") };
			if eid.is_empty() || rest.len() < 2 || rest[0] & 0xFC != 0 {
				return o.bad("CTOC: form");
			}
			let n = rest[1];
			let mut rest = &rest[2..];
			for _ in 0..n {
				let Some((e, r)) = until(rest, 0) else { return o.bad("CTOC: entries") };
				if e.is_empty() {
					o.bad("CTOC: an entry without an ID");
				}
				rest = r;
			}
			sub(&who, rest, v, o);
		},
		_ if id[0] == b'W' => {
			if d.contains(&0) && d.iter().position(|b| *b == 0) != Some(d.len() - 1) {
				o.bad(format!("{who}: URL holds a terminator"));
			}
		},
		_ => {},
	}
}

fn sub(who: &str, d: &[u8], v: u8, o: &mut Out) {
	let p = frames(d, 0, d.len(), v, false, o);
	if p != d.len() {
		o.bad(format!("{who}: its frames do not fill it"));
	}
}

fn id3v1(d: &[u8], o: &mut Out) {
	let zero = |d: &[u8]| {
		let n = d.iter().position(|b| *b == 0).unwrap_or(d.len());
		d[n..].iter().all(|b| *b == 0)
	};
	for (n, r) in [("title", 3..33), ("artist", 33..63), ("album", 63..93), ("year", 93..97)] {
		if !zero(&d[r]) {
			o.bad(format!("{n} is not padded with zeros"));
		}
	}
	let c = if d[125] == 0 && d[126] != 0 { &d[97..125] } else { &d[97..127] };
	if !zero(c) {
		o.bad("comment is not padded with zeros");
	}
	let y = &d[93..97];
	if !(y.iter().all(u8::is_ascii_digit) || y == [0; 4]) {
		o.bad(format!("year {y:02x?}"));
	}
}

/// Does an APE tag claim to lack the footer it has?
pub fn lacks_footer(d: &[u8]) -> bool {
	d.len() >= 32 && le(&d[d.len() - 12..d.len() - 8]) & 1 << 30 != 0
}

fn ape(d: &[u8], o: &mut Out) {
	if d.len() < 32 {
		return o.bad("shorter than a footer");
	}
	let head = d.starts_with(b"APETAGEX") && d.len() >= 64 && le(&d[20..24]) & 1 << 29 != 0;
	let f = &d[d.len() - 32..];
	if &f[..8] != b"APETAGEX" {
		return o.bad("no footer");
	}
	if !head {
		return o.bad("no header");
	}
	let (ver, size, count, flags) = (le(&f[8..12]), le(&f[12..16]), le(&f[16..20]), le(&f[20..24]));
	if ver != 2000 {
		o.bad(format!("version {ver}"));
	}
	// bit 30 is judged by `lacks_footer`
	if flags & !(1 << 30 | 1) != 1 << 31 {
		o.bad(format!("footer flags {flags:08x}"));
	}
	if le(&d[20..24]) & !(1 << 30) != 1 << 31 | 1 << 29 | flags & 1 {
		o.bad(format!("header flags {:08x}", le(&d[20..24])));
	}
	if d[8..20] != f[8..20] {
		o.bad("header and footer differ");
	}
	if f[24..32] != [0; 8] || d[24..32] != [0; 8] {
		o.bad("reserved bytes");
	}
	if size + 32 != d.len() {
		return o.bad(format!("size {size}, the tag has {}", d.len()));
	}
	let end = d.len() - 32;
	let mut p = 32;
	let mut seen: Vec<String> = Vec::new();
	for _ in 0..count {
		if p + 8 > end {
			return o.bad("fewer items than announced");
		}
		let n = le(&d[p..p + 4]);
		let fl = le(&d[p + 4..p + 8]);
		let Some(k) = d[p + 8..end].iter().position(|b| *b == 0) else { return o.bad("a key has no end") };
		let key = &d[p + 8..p + 8 + k];
		let who = name(key);
		if !(2..=255).contains(&k) || key.iter().any(|b| !(0x20..=0x7E).contains(b)) || ["ID3", "TAG", "OggS", "MP+"].contains(&&*who) {
			o.bad(format!("key {who:?}"));
		}
		if fl & !7 != 0 || fl >> 1 & 3 == 3 {
			o.bad(format!("{who}: flags {fl:08x}"));
		}
		let s = p + 8 + k + 1;
		if s + n > end {
			return o.bad(format!("{who} does not fit its tag"));
		}
		if fl >> 1 & 3 != 1 && std::str::from_utf8(&d[s..s + n]).is_err() {
			o.bad(format!("{who} is not UTF-8"));
		}
		let low = who.to_ascii_lowercase();
		if seen.contains(&low) {
			o.bad(format!("second {who}"));
		}
		seen.push(low);
		p = s + n;
	}
	if p != end {
		o.bad("more items than announced");
	}
	if count == 0 {
		o.bad("no items");
	}
}

fn unbase64(s: &[u8]) -> Option<Vec<u8>> {
	if s.len() % 4 != 0 {
		return None;
	}
	let mut o = Vec::new();
	for (i, c) in s.chunks(4).enumerate() {
		let last = (i + 1) * 4 == s.len();
		let pad = c.iter().rev().take_while(|b| **b == b'=').count();
		if pad > 2 || pad > 0 && !last {
			return None;
		}
		let mut n = 0u32;
		for b in &c[..4 - pad] {
			let x = match b {
				b'A'..=b'Z' => b - b'A',
				b'a'..=b'z' => b - b'a' + 26,
				b'0'..=b'9' => b - b'0' + 52,
				b'+' => 62,
				b'/' => 63,
				_ => return None,
			};
			n = n << 6 | u32::from(x);
		}
		n <<= 6 * pad;
		o.extend_from_slice(&n.to_be_bytes()[1..4 - pad]);
	}
	Some(o)
}

/// What is wrong with a FLAC picture
pub fn picture(d: &[u8]) -> Option<String> {
	let mut p = 0;
	let mut num = |p: &mut usize| {
		let n = d.get(*p..*p + 4).map(be);
		*p += 4;
		n
	};
	let mut go = || -> Option<Result<(), String>> {
		let ty = num(&mut p)?;
		if ty > 20 {
			return Some(Err(format!("picture type {ty}")));
		}
		let n = num(&mut p)?;
		let mime = d.get(p..p.checked_add(n)?)?;
		p += n;
		if mime.iter().any(|b| !(0x20..0x7F).contains(b)) {
			return Some(Err("MIME type".into()));
		}
		let n = num(&mut p)?;
		let desc = d.get(p..p.checked_add(n)?)?;
		p += n;
		if std::str::from_utf8(desc).is_err() {
			return Some(Err("description is not UTF-8".into()));
		}
		p += 16;
		let n = num(&mut p)?;
		(p + n == d.len()).then_some(Ok(()))
	};
	match go() {
		None => Some("a picture is malformed".into()),
		Some(Err(e)) => Some(e),
		Some(Ok(())) => None,
	}
}

fn vorbis(d: &[u8], o: &mut Out) {
	let Some(l) = crate::dissect::vorbis_len(d) else { return o.bad("malformed") };
	if l != d.len() {
		o.bad(format!("{} bytes after the comments", d.len() - l));
	}
	let n = le(&d[..4]);
	if std::str::from_utf8(&d[4..4 + n]).is_err() {
		o.bad("the vendor is not UTF-8");
	}
	let mut p = 4 + n;
	let c = le(&d[p..p + 4]);
	p += 4;
	for _ in 0..c {
		let n = le(&d[p..p + 4]);
		let s = &d[p + 4..p + 4 + n];
		p += 4 + n;
		let Some(i) = s.iter().position(|b| *b == b'=') else {
			o.bad("a comment without a key");
			continue;
		};
		let key = name(&s[..i]);
		if i == 0 || s[..i].iter().any(|b| !(0x20..=0x7D).contains(b)) {
			o.bad(format!("key {key:?}"));
		}
		if std::str::from_utf8(&s[i + 1..]).is_err() {
			o.bad(format!("{key} is not UTF-8"));
		}
		if key.eq_ignore_ascii_case("METADATA_BLOCK_PICTURE") {
			match unbase64(&s[i + 1..]) {
				None => o.bad("a picture is not base64"),
				Some(b) => {
					if let Some(e) = picture(&b) {
						o.bad(e);
					}
				},
			}
		}
	}
}

fn boxes(d: &[u8]) -> Option<Vec<(&[u8], &[u8])>> {
	let mut v = Vec::new();
	let mut p = 0;
	while p < d.len() {
		let n = be(d.get(p..p + 4)?);
		if n < 8 {
			return None;
		}
		v.push((&d[p + 4..(p + 8).min(d.len())], d.get(p + 8..p + n)?));
		p += n;
	}
	Some(v)
}

fn ilst(d: &[u8], o: &mut Out) {
	let Some(items) = boxes(d) else { return o.bad("its atoms do not add up") };
	for (id, b) in items {
		if id == b"free" {
			continue;
		}
		let who = name(id);
		let Some(kids) = boxes(b) else {
			o.bad(format!("{who}: its atoms do not add up"));
			continue;
		};
		let mut rest = &kids[..];
		if id == b"----" {
			for want in [b"mean", b"name"] {
				match rest.first() {
					Some((k, b)) if k == want && b.len() >= 4 && b[..4] == [0; 4] && std::str::from_utf8(&b[4..]).is_ok() => {},
					_ => o.bad(format!("{who}: no {}", name(want))),
				}
				rest = rest.get(1..).unwrap_or(&[]);
			}
		}
		if rest.is_empty() {
			o.bad(format!("{who}: no data"));
		}
		for (k, b) in rest {
			if k != b"data" || b.len() < 8 {
				o.bad(format!("{who}: {} of {} bytes", name(k), b.len()));
				continue;
			}
			let code = be(&b[1..4]);
			if b[0] != 0 {
				o.bad(format!("{who}: type set {}", b[0]));
			}
			if b[4..8] != [0; 4] {
				o.bad(format!("{who}: locale"));
			}
			let v = &b[8..];
			match code {
				1 if std::str::from_utf8(v).is_err() => o.bad(format!("{who} is not UTF-8")),
				2 => {
					let u: Vec<u16> = v.chunks(2).map(|c| be(c) as u16).collect();
					if v.len() % 2 != 0 || String::from_utf16(&u).is_err() {
						o.bad(format!("{who} is not UTF-16BE"));
					}
				},
				13 if !v.starts_with(&[0xFF, 0xD8]) && !v.is_empty() && id == b"covr" => o.bad("covr: not a JPEG"),
				14 if !v.starts_with(b"\x89PNG") && !v.is_empty() && id == b"covr" => o.bad("covr: not a PNG"),
				21 | 22 if ![1, 2, 3, 4, 8].contains(&v.len()) => o.bad(format!("{who}: integer of {} bytes", v.len())),
				_ => {},
			}
			if (id == b"trkn" || id == b"disk") && code == 0 && v.len() != 8 && v.len() != 6 {
				o.bad(format!("{who} of {} bytes", v.len()));
			}
		}
	}
}

fn riff(d: &[u8], o: &mut Out) {
	let mut p = 4;
	while p + 8 <= d.len() {
		let id = &d[p..p + 4];
		let who = name(id);
		let n = le(&d[p + 4..p + 8]);
		let Some(v) = d.get(p + 8..p + 8 + n) else { return o.bad(format!("{who} does not fit")) };
		if id.iter().any(|b| !(0x20..=0x7E).contains(b)) {
			o.bad(format!("ID {id:02x?}"));
		}
		if v.last() != Some(&0) {
			o.bad(format!("{who} is not terminated"));
		}
		if v[..n.saturating_sub(1)].contains(&0) && v.iter().position(|b| *b == 0).is_some_and(|i| v[i..].iter().any(|b| *b != 0)) {
			o.bad(format!("{who} ends early"));
		}
		if std::str::from_utf8(v).is_err() {
			o.bad(format!("{who} is not UTF-8"));
		}
		if n % 2 == 1 && d.get(p + 8 + n).is_some_and(|b| *b != 0) {
			o.bad(format!("{who}: pad byte"));
		}
		p += 8 + n + n % 2;
	}
	if p == 4 {
		o.bad("no items");
	}
}

fn aiff(d: &[u8], o: &mut Out) {
	let (id, b) = (&d[..4], &d[8..]);
	if id != b"COMT" {
		if b.is_empty() {
			o.bad(format!("{} is empty", name(id)));
		}
		return;
	}
	let Some(n) = b.get(..2).map(be) else { return o.bad("COMT: no count") };
	let mut p = 2;
	for _ in 0..n {
		let Some(m) = b.get(p + 6..p + 8).map(be) else { return o.bad("COMT: fewer comments than announced") };
		p += 8 + m;
		if m % 2 == 1 {
			if b.get(p).is_some_and(|b| *b != 0) {
				o.bad("COMT: pad byte");
			}
			p += 1;
		}
		if p > b.len() {
			return o.bad("COMT: a comment does not fit");
		}
	}
	if p != b.len() {
		o.bad("COMT: more than the announced comments");
	}
}
