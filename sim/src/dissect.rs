//! Independent container parsers. They say what is in a file (audio payload, raw tags by kind, every
//! other block) and what is structurally wrong with it, and share no code with lofty.

use crate::media::{Fmt, ogg_crc};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
pub enum Kind {
	Id3v2,
	Id3v1,
	Ape,
	Lyrics3,
	Vorbis,
	Ilst,
	Riff,
	AiffText,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Anatomy {
	/// The audio, independent of where it sits
	pub payload: Vec<u8>,
	pub tags: BTreeMap<Kind, Vec<Vec<u8>>>,
	/// Everything else that is not padding, in order
	pub others: Vec<(String, Vec<u8>)>,
	pub problems: Vec<String>,
	/// Bytes of padding of any kind
	pub padding: u64,
}

impl Anatomy {
	pub fn count(&self, k: Kind) -> usize {
		self.tags.get(&k).map_or(0, Vec::len)
	}
	fn tag(&mut self, k: Kind, d: &[u8]) {
		self.tags.entry(k).or_default().push(d.to_vec());
	}
	fn bad(&mut self, s: impl Into<String>) {
		if self.problems.len() < 8 {
			self.problems.push(s.into());
		}
	}
}

fn be32(d: &[u8], o: usize) -> Option<u32> {
	Some(u32::from_be_bytes(d.get(o..o + 4)?.try_into().ok()?))
}
fn be64(d: &[u8], o: usize) -> Option<u64> {
	Some(u64::from_be_bytes(d.get(o..o + 8)?.try_into().ok()?))
}
fn le32(d: &[u8], o: usize) -> Option<u32> {
	Some(u32::from_le_bytes(d.get(o..o + 4)?.try_into().ok()?))
}

/// Length of the ID3v2 tag at the start of `d`
pub fn id3v2_len(d: &[u8]) -> Option<usize> {
	if d.len() < 10 || &d[..3] != b"ID3" || !(2..=4).contains(&d[3]) {
		return None;
	}
	if d[6..10].iter().any(|b| *b & 0x80 != 0) {
		return None;
	}
	let n = d[6..10].iter().fold(0usize, |a, b| a << 7 | *b as usize);
	let foot = if d[3] == 4 && d[5] & 0x10 != 0 { 10 } else { 0 };
	let t = 10 + n + foot;
	if t <= d.len() { Some(t) } else { None }
}

/// Start of the APE tag that ends at `end`
fn ape_before(d: &[u8], end: usize) -> Option<usize> {
	if end < 32 || &d[end - 32..end - 24] != b"APETAGEX" {
		return None;
	}
	let size = le32(d, end - 20)? as usize;
	let flags = le32(d, end - 12)?;
	if flags & (1 << 29) != 0 || size < 32 || size > end {
		return None;
	}
	let mut start = end - size;
	if flags & (1 << 31) != 0 && start >= 32 && &d[start - 32..start - 24] == b"APETAGEX" {
		start -= 32;
	}
	Some(start)
}

fn ape_at(d: &[u8], at: usize) -> Option<usize> {
	if d.len() < at + 32 || &d[at..at + 8] != b"APETAGEX" {
		return None;
	}
	let size = le32(d, at + 12)? as usize;
	let flags = le32(d, at + 20)?;
	if flags & (1 << 29) == 0 || at + 32 + size > d.len() {
		return None;
	}
	Some(32 + size)
}

fn envelope(d: &[u8], fmt: Fmt) -> Anatomy {
	let mut a = Anatomy::default();
	let mut s = 0;
	loop {
		if fmt != Fmt::Wv
			&& let Some(n) = id3v2_len(&d[s..])
		{
			a.tag(Kind::Id3v2, &d[s..s + n]);
			s += n;
			continue;
		}
		if fmt != Fmt::Aac
			&& let Some(n) = ape_at(d, s)
		{
			a.tag(Kind::Ape, &d[s..s + n]);
			s += n;
			continue;
		}
		break;
	}
	let mut e = d.len();
	loop {
		let preamble = e >= s + 131 && &d[e - 131..e - 123] == b"APETAGEX";
		if e >= s + 128 && &d[e - 128..e - 125] == b"TAG" && !preamble {
			a.tag(Kind::Id3v1, &d[e - 128..e]);
			e -= 128;
			continue;
		}
		if e >= s + 15 && &d[e - 9..e] == b"LYRICS200" {
			let n: Option<usize> = std::str::from_utf8(&d[e - 15..e - 9])
				.ok()
				.and_then(|x| x.parse().ok());
			if let Some(n) = n
				&& e >= s + 15 + n
				&& d[e - 15 - n..].starts_with(b"LYRICSBEGIN")
			{
				a.tag(Kind::Lyrics3, &d[e - 15 - n..e]);
				e -= 15 + n;
				continue;
			}
		}
		if fmt != Fmt::Aac
			&& let Some(st) = ape_before(d, e)
			&& st >= s
		{
			a.tag(Kind::Ape, &d[st..e]);
			e = st;
			continue;
		}
		break;
	}
	a.payload = d[s..e].to_vec();
	a
}

fn iff(d: &[u8], be: bool) -> Anatomy {
	let mut a = Anatomy::default();
	let n32 = |o: usize| if be { be32(d, o) } else { le32(d, o) };
	if d.len() < 12 {
		a.bad("file shorter than its container header");
		return a;
	}
	let total = n32(4).unwrap_or(0) as usize;
	let mut end = 8 + total;
	if end > d.len() {
		// a missing final pad byte is tolerated by everyone
		a.bad(format!(
			"container size {total} exceeds the file ({} bytes)",
			d.len()
		));
		end = d.len();
	}
	if d.len() > end {
		a.others.push(("trailing".into(), d[end..].to_vec()));
	}
	a.others.push(("form".into(), d[8..12].to_vec()));
	let mut p = 12;
	while p + 8 <= end {
		let id = &d[p..p + 4];
		let n = n32(p + 4).unwrap_or(0) as usize;
		if p + 8 + n > end {
			a.bad(format!(
				"chunk {} of {n} bytes at {p} does not fit the container (end {end})",
				String::from_utf8_lossy(id)
			));
			break;
		}
		let body = &d[p + 8..p + 8 + n];
		match (id, be) {
			(b"ID3 " | b"id3 ", _) => {
				let t = id3v2_len(body).unwrap_or(body.len());
				if id3v2_len(body).is_none() {
					a.bad("ID3 chunk holds no complete ID3v2 tag");
				}
				a.tag(Kind::Id3v2, &body[..t]);
			},
			(b"JUNK", false) => a.padding += n as u64 + 8,
			(b"data", false) | (b"SSND", true) => a.payload.extend_from_slice(body),
			(b"LIST", false) if body.starts_with(b"INFO") => {
				let mut q = 4;
				while q + 8 <= body.len() {
					let m = le32(body, q + 4).unwrap_or(0) as usize;
					if q + 8 + m > body.len() {
						a.bad("INFO item does not fit its list");
						break;
					}
					q += 8 + m + m % 2;
				}
				if q != body.len() && q != body.len() + 1 {
					a.bad(format!("INFO items end at {q}, list has {}", body.len()));
				}
				a.tag(Kind::Riff, body);
			},
			(b"NAME" | b"AUTH" | b"(c) " | b"ANNO" | b"COMT", true) => {
				a.tag(Kind::AiffText, &d[p..p + 8 + n]);
			},
			_ => a
				.others
				.push((String::from_utf8_lossy(id).into_owned(), body.to_vec())),
		}
		let tag = matches!((id, be), (b"ID3 " | b"id3 ", _) | (b"NAME" | b"AUTH" | b"(c) " | b"ANNO" | b"COMT", true))
			|| id == b"LIST" && body.starts_with(b"INFO");
		if tag && n % 2 == 1 && d.get(p + 8 + n).is_some_and(|b| *b != 0) {
			a.bad(format!("pad byte of chunk {} is not zero", String::from_utf8_lossy(id)));
		}
		p += 8 + n + n % 2;
	}
	if p != end && p != end + 1 {
		if p < end {
			a.bad(format!("chunks end at {p}, container at {end}"));
		}
	} else if p == end + 1 {
		a.bad("last chunk lacks its pad byte inside the container");
	}
	a
}

fn flac(d: &[u8]) -> Anatomy {
	let mut a = Anatomy::default();
	let mut s = 0;
	while let Some(n) = id3v2_len(&d[s..]) {
		a.tag(Kind::Id3v2, &d[s..s + n]);
		s += n;
	}
	if d.get(s..s + 4) != Some(b"fLaC") {
		a.bad(format!("no stream marker at {s}"));
		return a;
	}
	s += 4;
	let mut pics = Vec::new();
	let mut vc = None;
	let mut first = true;
	loop {
		let Some(h) = d.get(s..s + 4) else {
			a.bad("metadata blocks run past the end");
			return a;
		};
		let last = h[0] & 0x80 != 0;
		let ty = h[0] & 0x7F;
		let n = u32::from_be_bytes([0, h[1], h[2], h[3]]) as usize;
		let Some(body) = d.get(s + 4..s + 4 + n) else {
			a.bad(format!("block of type {ty} and {n} bytes does not fit"));
			return a;
		};
		if first && ty != 0 {
			a.bad("first block is not STREAMINFO");
		}
		if !first && ty == 0 {
			a.bad("second STREAMINFO");
		}
		first = false;
		match ty {
			1 => a.padding += 4 + n as u64,
			4 => {
				if vc.is_some() {
					a.bad("more than one VORBIS_COMMENT block");
				}
				vc = Some(body.to_vec());
			},
			6 => pics.push(body.to_vec()),
			127 => a.bad("invalid block type 127"),
			_ => a.others.push((format!("block{ty}"), body.to_vec())),
		}
		s += 4 + n;
		if last {
			break;
		}
	}
	if let Some(v) = vc {
		a.tag(Kind::Vorbis, &v);
	}
	for p in pics {
		a.others.push(("picture".into(), p));
	}
	a.payload = d[s..].to_vec();
	a
}

pub struct Page<'a> {
	pub at: usize,
	pub flags: u8,
	pub gp: u64,
	pub serial: u32,
	pub seq: u32,
	pub lacing: &'a [u8],
	pub body: &'a [u8],
	pub crc_ok: bool,
	pub len: usize,
}

pub fn page_at(d: &[u8], at: usize) -> Option<Page<'_>> {
	if d.get(at..at + 4)? != b"OggS" {
		return None;
	}
	let h = d.get(at..at + 27)?;
	let n = h[26] as usize;
	let lacing = d.get(at + 27..at + 27 + n)?;
	let bl: usize = lacing.iter().map(|x| *x as usize).sum();
	let body = d.get(at + 27 + n..at + 27 + n + bl)?;
	let len = 27 + n + bl;
	let mut copy = d[at..at + len].to_vec();
	copy[22..26].copy_from_slice(&[0; 4]);
	let crc = ogg_crc_fast(&copy);
	Some(Page {
		at,
		flags: h[5],
		gp: u64::from_le_bytes(h[6..14].try_into().ok()?),
		serial: le32(h, 14)?,
		seq: le32(h, 18)?,
		lacing,
		body,
		crc_ok: crc == le32(h, 22)?,
		len,
	})
}

fn ogg_crc_fast(d: &[u8]) -> u32 {
	use std::sync::OnceLock;
	static T: OnceLock<[u32; 256]> = OnceLock::new();
	let t = T.get_or_init(|| {
		let mut t = [0; 256];
		for (i, e) in t.iter_mut().enumerate() {
			*e = ogg_crc(&[i as u8]);
		}
		t
	});
	let mut c = 0u32;
	for b in d {
		c = (c << 8) ^ t[((c >> 24) as u8 ^ b) as usize];
	}
	c
}

#[derive(Default, Clone, Debug)]
pub struct OggStream {
	pub serial: u32,
	/// packets with the granule position of the page they end on
	pub packets: Vec<(Vec<u8>, u64)>,
	pub open: Option<Vec<u8>>,
	pub next_seq: u32,
	pub bos: bool,
	pub eos: bool,
	pub pages: usize,
}

/// Split an Ogg file into logical streams
pub fn ogg_streams(d: &[u8], problems: &mut Vec<String>) -> (Vec<OggStream>, usize) {
	let mut v: Vec<OggStream> = Vec::new();
	let mut at = 0;
	while at < d.len() {
		let Some(p) = page_at(d, at) else { break };
		if !p.crc_ok {
			problems.push(format!("page at {at}: checksum mismatch"));
		}
		let i = match v.iter().position(|s| s.serial == p.serial) {
			Some(i) => i,
			None => {
				v.push(OggStream {
					serial: p.serial,
					next_seq: p.seq,
					..OggStream::default()
				});
				v.len() - 1
			},
		};
		let s = &mut v[i];
		if s.pages == 0 {
			s.bos = p.flags & 2 != 0;
			if !s.bos {
				problems.push(format!("stream {i} starts without a beginning-of-stream page"));
			}
		} else if p.flags & 2 != 0 {
			problems.push(format!("page at {at}: second beginning-of-stream page"));
		}
		if p.seq != s.next_seq {
			problems.push(format!(
				"page at {at}: sequence number {} instead of {}",
				p.seq, s.next_seq
			));
		}
		s.next_seq = p.seq.wrapping_add(1);
		if s.eos {
			problems.push(format!("page at {at} after the end of its stream"));
		}
		s.eos |= p.flags & 4 != 0;
		let cont = p.flags & 1 != 0;
		if s.pages > 0 && cont != s.open.is_some() {
			problems.push(format!(
				"page at {at}: continued flag {cont} but open packet {}",
				s.open.is_some()
			));
		}
		let mut off = 0;
		let mut cur = s.open.take();
		let mut completed = false;
		for l in p.lacing {
			let n = *l as usize;
			cur.get_or_insert_with(Vec::new)
				.extend_from_slice(&p.body[off..off + n]);
			off += n;
			if n < 255 {
				s.packets.push((cur.take().unwrap(), p.gp));
				completed = true;
			}
		}
		if completed && p.gp == u64::MAX {
			problems.push(format!(
				"page at {at}: a packet ends on it but it has no granule position"
			));
		}
		s.open = cur;
		s.pages += 1;
		at += p.len;
	}
	(v, at)
}

fn ogg(d: &[u8], fmt: Fmt) -> Anatomy {
	let mut a = Anatomy::default();
	let mut probs = Vec::new();
	let (streams, end) = ogg_streams(d, &mut probs);
	for p in probs {
		a.bad(p);
	}
	if end < d.len() {
		a.others.push(("trailing".into(), d[end..].to_vec()));
	}
	let main = streams.iter().position(|s| {
		s.packets.first().is_some_and(|p| {
			p.0.starts_with(b"\x01vorbis") || p.0.starts_with(b"OpusHead") || p.0.starts_with(b"Speex   ")
		})
	});
	let Some(main) = main else {
		a.bad("no audio stream");
		return a;
	};
	let put = |out: &mut Vec<u8>, p: &(Vec<u8>, u64), with_gp: bool| {
		out.extend_from_slice(&(p.0.len() as u32).to_le_bytes());
		if with_gp {
			out.extend_from_slice(&p.1.to_le_bytes());
		}
		out.extend_from_slice(&p.0);
	};
	for (i, s) in streams.iter().enumerate() {
		if i == main {
			for (j, p) in s.packets.iter().enumerate() {
				if j == 1 {
					let magic: &[u8] = match fmt {
						Fmt::OggVorbis => b"\x03vorbis",
						Fmt::OggOpus => b"OpusTags",
						_ => b"",
					};
					if !p.0.starts_with(magic) {
						a.bad("second packet is not the comment header");
					}
					let mut body = &p.0[magic.len().min(p.0.len())..];
					if fmt == Fmt::OggVorbis && body.last() == Some(&1) {
						body = &body[..body.len() - 1];
					}
					if fmt == Fmt::OggVorbis {
						let whole = &p.0[magic.len().min(p.0.len())..];
						if vorbis_len(whole).and_then(|l| whole.get(l)).is_none_or(|b| b & 1 == 0) {
							a.bad("comment header lacks its framing bit");
						}
					}
					if vorbis_len(body).is_none() {
						a.bad("comment header is not a well-formed Vorbis comment");
					}
					a.tag(Kind::Vorbis, body);
				} else {
					// header packets end on pages with granule position 0 in any layout
					put(&mut a.payload, p, true);
				}
			}
			if let Some(o) = &s.open {
				a.others.push(("open packet".into(), o.clone()));
			}
			a.others
				.push(("stream".into(), [s.bos as u8, s.eos as u8].to_vec()));
		} else {
			let mut o = Vec::new();
			for p in &s.packets {
				put(&mut o, p, true);
			}
			a.others.push((format!("stream {:08x}", s.serial), o));
		}
	}
	a
}

/// Length of the Vorbis comment structure at the start of `d`
pub fn vorbis_len(d: &[u8]) -> Option<usize> {
	let n = le32(d, 0)? as usize;
	let mut p = 4usize.checked_add(n)?;
	let c = le32(d, p)?;
	p += 4;
	for _ in 0..c {
		let n = le32(d, p)? as usize;
		p = p.checked_add(4)?.checked_add(n)?;
		if p > d.len() {
			return None;
		}
	}
	if p > d.len() { None } else { Some(p) }
}

pub struct Atom<'a> {
	pub id: [u8; 4],
	pub at: usize,
	pub len: usize,
	pub body: &'a [u8],
	pub body_at: usize,
}

pub fn atoms(d: &[u8], base: usize, what: &str, top: bool, probs: &mut Vec<String>) -> Vec<Atom<'static>> {
	let mut v = Vec::new();
	let mut p = 0;
	while p < d.len() {
		if p + 8 > d.len() {
			// up to 4 zero bytes may end a udta
			if !(what == "udta" && d[p..].iter().all(|b| *b == 0)) {
				probs.push(format!("{what}: {} stray bytes at the end", d.len() - p));
			}
			break;
		}
		let n = be32(d, p).unwrap() as u64;
		let id: [u8; 4] = d[p + 4..p + 8].try_into().unwrap();
		let (h, n) = match n {
			1 => (16, be64(d, p + 8).unwrap_or(0)),
			0 if top => (8, (d.len() - p) as u64),
			n => (8, n),
		};
		if n < h as u64 || n > (d.len() - p) as u64 {
			probs.push(format!(
				"{what}: box {} at {} of {n} bytes does not fit",
				String::from_utf8_lossy(&id),
				base + p
			));
			break;
		}
		v.push(Atom {
			id,
			at: base + p,
			len: n as usize,
			body: &[],
			body_at: base + p + h,
		});
		p += n as usize;
	}
	v
}

fn kids(d: &[u8], a: &Atom<'_>, skip: usize, probs: &mut Vec<String>) -> Vec<Atom<'static>> {
	let s = (a.body_at + skip).min(a.at + a.len);
	let e = a.at + a.len;
	atoms(&d[s..e], s, &String::from_utf8_lossy(&a.id), false, probs)
}

fn bytes<'a>(d: &'a [u8], a: &Atom<'_>) -> &'a [u8] {
	&d[a.body_at..a.at + a.len]
}

/// Sizes of the chunks of a track, and their offsets
fn chunk_table(d: &[u8], stbl: &[Atom<'_>]) -> Option<Vec<(u64, u64)>> {
	let get = |id: &[u8; 4]| stbl.iter().find(|a| &a.id == id).map(|a| bytes(d, a));
	let stsz = get(b"stsz")?;
	let uniform = be32(stsz, 4)? as u64;
	let count = be32(stsz, 8)? as usize;
	let stsc = get(b"stsc")?;
	let n = be32(stsc, 4)? as usize;
	let offs: Vec<u64> = if let Some(c) = get(b"stco") {
		(0..be32(c, 4)? as usize)
			.map(|i| be32(c, 8 + i * 4).map(u64::from))
			.collect::<Option<_>>()?
	} else {
		let c = get(b"co64")?;
		(0..be32(c, 4)? as usize)
			.map(|i| be64(c, 8 + i * 8))
			.collect::<Option<_>>()?
	};
	let mut out = Vec::new();
	let mut sample = 0usize;
	let mut run = 0;
	for (ci, o) in offs.iter().enumerate() {
		while run + 1 < n && be32(stsc, 8 + (run + 1) * 12)? as usize <= ci + 1 {
			run += 1;
		}
		let per = be32(stsc, 8 + run * 12 + 4)? as usize;
		let mut size = 0u64;
		for _ in 0..per {
			if sample >= count {
				break;
			}
			size += if uniform != 0 {
				uniform
			} else {
				u64::from(be32(stsz, 12 + sample * 4)?)
			};
			sample += 1;
		}
		out.push((*o, size));
	}
	Some(out)
}

fn mp4(d: &[u8]) -> Anatomy {
	let mut a = Anatomy::default();
	let mut probs = Vec::new();
	let top = atoms(d, 0, "file", true, &mut probs);
	let mut mdats: Vec<(usize, usize)> = Vec::new();
	for t in &top {
		if &t.id == b"mdat" {
			mdats.push((t.body_at, t.at + t.len));
		}
	}
	let mut media = |a: &mut Anatomy, o: u64, n: u64, who: &str| {
		let ok = mdats
			.iter()
			.any(|(s, e)| o >= *s as u64 && o.saturating_add(n) <= *e as u64);
		if !ok {
			a.bad(format!("{who}: {n} bytes at {o} are not inside the media data"));
			a.payload.extend_from_slice(b"<outside>");
			return;
		}
		a.payload.extend_from_slice(&(n as u32).to_le_bytes());
		a.payload.extend_from_slice(&d[o as usize..(o + n) as usize]);
	};
	let mut moovs = 0;
	for t in &top {
		match &t.id {
			b"free" | b"skip" | b"wide" => a.padding += t.len as u64,
			b"mdat" => a
				.others
				.push(("mdat length".into(), (t.len as u64).to_le_bytes().to_vec())),
			b"moov" => {
				moovs += 1;
				for k in kids(d, t, 0, &mut probs) {
					match &k.id {
						b"trak" => {
							let mut neutral = d[k.body_at..k.at + k.len].to_vec();
							let mut blank = |x: &Atom<'_>| {
								let s = x.body_at + 8 - k.body_at;
								let e = x.at + x.len - k.body_at;
								if s <= e {
									neutral[s..e].fill(0);
								}
							};
							let mut table = None;
							for m in kids(d, &k, 0, &mut probs) {
								if &m.id != b"mdia" {
									continue;
								}
								for i in kids(d, &m, 0, &mut probs) {
									if &i.id != b"minf" {
										continue;
									}
									for s in kids(d, &i, 0, &mut probs) {
										if &s.id != b"stbl" {
											continue;
										}
										let st = kids(d, &s, 0, &mut probs);
										table = chunk_table(d, &st);
										for x in &st {
											if &x.id == b"stco" || &x.id == b"co64" {
												blank(x);
											}
										}
									}
								}
							}
							if let Some(t) = table {
								for (c, (o, n)) in t.into_iter().enumerate() {
									media(&mut a, o, n, &format!("chunk {c}"));
								}
							}
							a.others.push(("trak".into(), neutral));
						},
						b"udta" => {
							for u in kids(d, &k, 0, &mut probs) {
								if &u.id == b"meta" {
									let b = bytes(d, &u);
									let skip = if b.len() >= 8 && b[4..8].iter().all(|c| c.is_ascii_alphanumeric()) && &b[4..8] != b"\0\0\0\0" && be32(b, 0) != Some(0) { 0 } else { 4 };
									for m in kids(d, &u, skip, &mut probs) {
										match &m.id {
											b"ilst" => {
												let body = bytes(d, &m).to_vec();
												for item in kids(d, &m, 0, &mut probs) {
													let skip = 0;
													let _ = kids(d, &item, skip, &mut probs);
												}
												a.tag(Kind::Ilst, &body);
											},
											b"free" => a.padding += m.len as u64,
											b"hdlr" => a.others.push((
												"meta hdlr".into(),
												bytes(d, &m).to_vec(),
											)),
											_ => a.others.push((
												format!("meta {}", String::from_utf8_lossy(&m.id)),
												bytes(d, &m).to_vec(),
											)),
										}
									}
								} else if &u.id == b"free" {
									a.padding += u.len as u64;
								} else {
									a.others.push((
										format!("udta {}", String::from_utf8_lossy(&u.id)),
										bytes(d, &u).to_vec(),
									));
								}
							}
						},
						b"free" => a.padding += k.len as u64,
						_ => a.others.push((
							format!("moov {}", String::from_utf8_lossy(&k.id)),
							bytes(d, &k).to_vec(),
						)),
					}
				}
			},
			b"moof" => {
				let mut neutral = bytes(d, t).to_vec();
				for k in kids(d, t, 0, &mut probs) {
					if &k.id != b"traf" {
						continue;
					}
					let tk = kids(d, &k, 0, &mut probs);
					let base = tk.iter().find(|x| &x.id == b"tfhd").and_then(|x| {
						let b = bytes(d, x);
						if be32(b, 0)? & 1 == 1 {
							let s = x.body_at + 8 - t.body_at;
							neutral[s..s + 8].fill(0);
							be64(b, 8)
						} else {
							None
						}
					});
					let size = tk.iter().find(|x| &x.id == b"trun").and_then(|x| {
						let b = bytes(d, x);
						// the layout of our own builder: sample sizes only
						if be32(b, 0)? != 0x200 {
							return None;
						}
						(0..be32(b, 4)? as usize)
							.map(|i| be32(b, 8 + i * 4).map(u64::from))
							.sum::<Option<u64>>()
					});
					if let (Some(b), Some(s)) = (base, size) {
						media(&mut a, b, s, "fragment");
					}
				}
				a.others.push(("moof".into(), neutral));
			},
			b"mfra" => {
				let mut neutral = bytes(d, t).to_vec();
				for k in kids(d, t, 0, &mut probs) {
					if &k.id != b"tfra" {
						continue;
					}
					let b = bytes(d, &k);
					let wide = usize::from(b.first() == Some(&1)) * 4 + 4;
					let lens = be32(b, 8).unwrap_or(0);
					let more = (0..3).map(|j| (lens >> (j * 2) & 3) as usize + 1).sum::<usize>();
					for i in 0..be32(b, 12).unwrap_or(0) as usize {
						let at = 16 + i * (2 * wide + more) + wide;
						let Some(x) = b.get(at..at + wide) else {
							a.bad("random access table ends early".to_string());
							break;
						};
						let to = x.iter().fold(0u64, |n, b| n << 8 | u64::from(*b));
						let s = k.body_at + at - t.body_at;
						neutral[s..s + wide].fill(0);
						// the fragment it points at, by its number
						match top.iter().find(|m| &m.id == b"moof" && m.at as u64 == to) {
							Some(m) => a.payload.extend_from_slice(&d[m.body_at..(m.body_at + 16).min(d.len())]),
							None => {
								a.bad(format!("random access entry {i}: no fragment at {to}"));
								a.payload.extend_from_slice(b"<outside>");
							},
						}
					}
				}
				a.others.push(("mfra".into(), neutral));
			},
			_ => a
				.others
				.push((String::from_utf8_lossy(&t.id).into_owned(), bytes(d, t).to_vec())),
		}
	}
	if moovs != 1 {
		a.bad(format!("{moovs} movie boxes"));
	}
	// the media data as such
	for (i, (s, e)) in mdats.iter().enumerate() {
		a.others.push((format!("mdat {i}"), d[*s..*e].to_vec()));
	}
	for p in probs {
		a.bad(p);
	}
	a
}

pub fn dissect(d: &[u8], fmt: Fmt) -> Anatomy {
	match fmt {
		Fmt::Wav => iff(d, false),
		Fmt::Aiff => iff(d, true),
		Fmt::Flac => flac(d),
		Fmt::OggVorbis | Fmt::OggOpus | Fmt::OggSpeex => ogg(d, fmt),
		Fmt::Mp4 => mp4(d),
		_ => envelope(d, fmt),
	}
}

/// Describe the first difference of two byte strings
pub fn diff(a: &[u8], b: &[u8]) -> String {
	let at = a
		.iter()
		.zip(b)
		.position(|(x, y)| x != y)
		.unwrap_or(a.len().min(b.len()));
	let show = |d: &[u8]| -> String {
		d[at.min(d.len())..(at + 12).min(d.len())]
			.iter()
			.map(|b| format!("{b:02x}"))
			.collect()
	};
	format!(
		"lengths {} / {}, first difference at {at}: {} / {}",
		a.len(),
		b.len(),
		show(a),
		show(b)
	)
}

/// Recompute the checksum of every page
pub fn fix_ogg_crcs(d: &mut [u8]) {
	let mut at = 0;
	while at + 27 <= d.len() {
		if &d[at..at + 4] != b"OggS" {
			at += 1;
			continue;
		}
		let Some(len) = page_at(d, at).map(|p| p.len) else {
			at += 4;
			continue;
		};
		d[at + 22..at + 26].fill(0);
		let c = ogg_crc_fast(&d[at..at + len]);
		d[at + 22..at + 26].copy_from_slice(&c.to_le_bytes());
		at += len;
	}
}
