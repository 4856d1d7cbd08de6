//! Tags that are written to a stream of their own (`dump_to`): placed into a file, they say what the same tag says
//! when it is saved to a file.

use crate::disk::SimDisk;
use crate::dissect::Kind;
use crate::engine::{Violation, viol};
use crate::files::{AnyFile, POpts, Reading, WOpts};
use crate::media::{Feat, Fmt, Inject, build_with};
use crate::run::catch;
use crate::tags::{TagSpec, writable};

fn chunks(mut d: &[u8], big: bool) -> Option<Vec<([u8; 4], Vec<u8>)>> {
	let mut v = Vec::new();
	while !d.is_empty() {
		let (h, rest) = d.split_at_checked(8)?;
		let n: [u8; 4] = h[4..].try_into().ok()?;
		let n = if big { u32::from_be_bytes(n) } else { u32::from_le_bytes(n) } as usize;
		v.push((h[..4].try_into().ok()?, rest.get(..n)?.to_vec()));
		d = rest.get((n + n % 2).min(rest.len())..)?;
	}
	Some(v)
}

/// The file that holds the bytes of the tag
fn embed(k: Kind, fmt: Fmt, d: &[u8]) -> Option<Vec<u8>> {
	let mut i = Inject::default();
	let mut feats = Vec::new();
	let native = Feat::Native { text: 1, after: false };
	match k {
		Kind::Id3v2 => {
			i.id3v2 = Some(d.to_vec());
			feats.push(Feat::Id3v2 { version: 4, unsync: false, footer: false, pad: 0, text: 1 });
		},
		Kind::Id3v1 => {
			if d.len() != 128 {
				return None;
			}
			i.id3v1 = Some(d.to_vec());
			feats.push(Feat::Id3v1 { text: 1 });
		},
		Kind::Ape => {
			i.ape = Some(d.to_vec());
			feats.push(Feat::Ape { v2: true, header: true, text: 1 });
		},
		Kind::Vorbis => {
			i.vorbis = Some(d.to_vec());
			feats.push(native);
		},
		Kind::Ilst => {
			if d.get(4..8)? != b"ilst" || u32::from_be_bytes(d[..4].try_into().ok()?) as usize != d.len() {
				return None;
			}
			i.ilst = Some(d[8..].to_vec());
			feats.push(native);
		},
		Kind::Riff => {
			let c = chunks(d, false)?;
			let [(id, list)] = &c[..] else { return None };
			if id != b"LIST" || list.get(..4)? != b"INFO" {
				return None;
			}
			i.riff = Some(list[4..].to_vec());
			feats.push(native);
		},
		Kind::AiffText => {
			let mut o: Vec<(&'static [u8; 4], Vec<u8>)> = Vec::new();
			for (id, c) in chunks(d, true)? {
				o.push((*[b"NAME", b"AUTH", b"(c) ", b"ANNO", b"COMT"].iter().find(|x| ***x == id)?, c));
			}
			i.aiff = Some(o);
			feats.push(native);
		},
		Kind::Lyrics3 => return None,
	}
	Some(build_with(fmt, 0, 3, &feats, i))
}

fn read(fmt: Fmt, d: Vec<u8>) -> Result<Reading, String> {
	let mut d = SimDisk::new(d);
	match catch(|| AnyFile::read(fmt, &mut d, POpts::default().get()).map(|f| f.reading())) {
		Ok(Ok(r)) => Ok(r),
		Ok(Err(e)) => Err(format!("{e:?}")),
		Err(p) => Err(format!("panic: {p}")),
	}
}

pub fn compare(fmt: Fmt, spec: &TagSpec, o: &WOpts) -> Vec<Violation> {
	let k = spec.kind();
	let t = spec.build();
	if matches!(spec, TagSpec::Generic { .. }) || !writable(fmt).contains(&k) || t.is_empty() {
		return Vec::new();
	}
	if matches!(spec, TagSpec::Vorbis { pics, .. } if fmt == Fmt::Flac && !pics.is_empty()) {
		// saving to a file makes blocks of them
		return Vec::new();
	}
	let mut bytes = Vec::new();
	let dumped = match catch(|| t.dump_to(&mut bytes, o.get())) {
		Ok(r) => r,
		Err(p) => return vec![viol("content of a dump", format!("{k:?}: panic: {p}"))],
	};
	let mut d = SimDisk::new(build_with(fmt, 0, 3, &[], Inject::default()));
	let saved = match catch(|| t.save_to(&mut d, o.get()).map_err(|e| format!("{e:?}"))) {
		Ok(r) => r,
		Err(_) => return Vec::new(),
	};
	if dumped.is_err() != saved.is_err() {
		return vec![viol("content of a dump", format!("{k:?}: written alone: {dumped:?}, saved to a file: {saved:?}"))];
	}
	if dumped.is_err() {
		return Vec::new();
	}
	crate::stats::named(&format!("dump.{k:?}"));
	let Ok(want) = read(fmt, d.data.clone()) else { return Vec::new() };
	let Some(file) = embed(k, fmt, &bytes) else {
		return vec![viol("content of a dump", format!("{k:?}: the bytes are no such tag: {:02x?}", &bytes[..bytes.len().min(40)]))];
	};
	let got = match read(fmt, file) {
		Ok(r) => r,
		Err(e) => return vec![viol("content of a dump", format!("{k:?}: unreadable: {e}"))],
	};
	// a file keeps its vendor, and a chunk has no place for a footer
	let of = |r: &Reading| -> Vec<String> {
		let own = |l: &&String| !l.starts_with("vendor ") && !(l.starts_with("HEAD ") && matches!(fmt, Fmt::Wav | Fmt::Aiff));
		r.tags.get(&k).into_iter().flatten().filter(own).cloned().collect()
	};
	let (a, mut b) = (of(&want), of(&got));
	if a.is_empty() {
		// a file has no tags without content
		b.retain(|l| !l.starts_with("HEAD "));
	}
	if a != b {
		return vec![viol("content of a dump", format!("{k:?}: saved / written alone: {}", crate::engine::diff_lines(&a, &b)))];
	}
	let vendor = |l: &[String]| l.iter().find(|l| l.starts_with("vendor ")).cloned();
	let (a, b) = (vendor(&t.canon()), got.tags.get(&k).and_then(|l| vendor(l)));
	if k == Kind::Vorbis && a != b {
		return vec![viol("content of a dump", format!("{k:?}: vendor {a:?}, written alone: {b:?}"))];
	}
	Vec::new()
}
