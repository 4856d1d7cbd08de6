//! One simulated user session: a file on the simulated device, a sequence of library calls made on it
//! under a fault plan, and the model of what the file must contain after each of them.

use crate::disk::{Fault, Noise, Plan, SimDisk};
use crate::dissect::{Anatomy, Kind, diff, dissect};
use crate::files::{AnyFile, POpts, Reading, WOpts, canon_tagged, file_type, read_concrete};
use crate::media::{Base, Fmt};
use crate::run::{BUDGET, CRASHED, catch};
use crate::tags::{AnyTag, TagSpec, Txt, kind_type};
use lofty::prelude::*;
use lofty::probe::Probe;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Seek, SeekFrom};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Via {
	/// `TagExt::save_to` / `TagType::remove_from` on the handle
	Tag,
	/// Read the concrete file type, change it, `AudioFile::save_to`
	File,
	/// `Probe::read`, change the `TaggedFile`, `save_to`
	Tagged,
	/// `Probe::read_bound`, change, `BoundTaggedFile::save`
	Bound,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
	Save {
		tag: TagSpec,
		#[serde(default)]
		o: WOpts,
		via: Via,
	},
	/// `TagType::remove_from` (Tag), or saving an emptied tag (others)
	Remove { kind: Kind, via: Via },
	/// Read-modify-write of the title
	Edit {
		kind: Kind,
		title: Txt,
		#[serde(default)]
		o: WOpts,
		via: Via,
	},
	/// Read the file and save it unchanged
	Resave {
		#[serde(default)]
		o: WOpts,
		via: Via,
	},
}

/// A fault placed relative to the operations of the call: `at` / 65536 of the way through them
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Hit {
	pub at: u32,
	pub f: Fault,
}

impl Hit {
	pub fn op(&self, ops: u64) -> u64 {
		u64::from(self.at.min(65535)) * ops >> 16
	}
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
	pub act: Act,
	/// Legal but unusual delivery (short transfers, EINTR)
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub hits: Vec<Hit>,
	/// The device is full this many bytes beyond the file's present length
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub room: Option<u32>,
	/// Power loss after this fraction (of 65536) of the bytes the call writes
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub crash: Option<u32>,
	/// Where the handle stands when the call is made
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub start: Option<u32>,
}

impl Step {
	pub fn clean(act: Act) -> Self {
		Self {
			act,
			noise: None,
			hits: Vec::new(),
			room: None,
			crash: None,
			start: None,
		}
	}
	pub fn faulty(&self) -> bool {
		!self.hits.is_empty() || self.room.is_some() || self.crash.is_some()
	}
	pub fn plan(&self, len: u64, ops: u64, written: u64) -> Plan {
		Plan {
			noise: self.noise,
			faults: self
				.hits
				.iter()
				.map(|h| crate::disk::FaultAt {
					op: h.op(ops),
					fault: h.f,
				})
				.collect(),
			capacity: self.room.map(|r| len + u64::from(r)),
			crash_after_bytes: self.crash.map(|c| u64::from(c.min(65535)) * written >> 16),
		}
	}
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
	Ok,
	/// The call refused before looking at the device (wrong tag for the file type and the like)
	Err(String),
	Panic(String),
	Crash,
	Budget,
}

impl Outcome {
	pub fn ok(&self) -> bool {
		*self == Outcome::Ok
	}
}

/// Operations a call may take before it counts as not terminating
pub fn op_budget(len: usize) -> u64 {
	400_000 + 64 * len as u64
}

pub fn outcome<T, E: std::fmt::Debug>(r: Result<Result<T, E>, String>) -> (Outcome, Option<T>) {
	match r {
		Ok(Ok(v)) => (Outcome::Ok, Some(v)),
		Ok(Err(e)) => (Outcome::Err(format!("{e:?}")), None),
		Err(s) if s == CRASHED => (Outcome::Crash, None),
		Err(s) if s == BUDGET => (Outcome::Budget, None),
		Err(s) => (Outcome::Panic(s), None),
	}
}

/// An error of any of lofty's types
#[derive(Debug)]
pub struct AnyErr(#[allow(dead_code)] pub String);

impl<E: std::error::Error> From<E> for AnyErr {
	fn from(e: E) -> Self {
		let mut s = e.to_string();
		let mut c = e.source();
		while let Some(x) = c {
			s.push_str(": ");
			s.push_str(&x.to_string());
			c = x.source();
		}
		AnyErr(s)
	}
}

/// Make the call of a step on the device
pub fn perform(d: &mut SimDisk, fmt: Fmt, act: &Act) -> Outcome {
	perform_sized(d, fmt, act, 0)
}

/// The same; the file is expected to grow to `len` bytes
pub fn perform_sized(d: &mut SimDisk, fmt: Fmt, act: &Act, len: usize) -> Outcome {
	d.budget = op_budget(len.max(d.data.len()));
	outcome(catch(|| perform_inner(d, fmt, act))).0
}

fn perform_inner(d: &mut SimDisk, fmt: Fmt, act: &Act) -> Result<(), AnyErr> {
	let po = POpts::default().get();
	let probe = |d: &mut SimDisk| -> Result<lofty::file::TaggedFile, AnyErr> {
		d.seek(SeekFrom::Start(0))?;
		Ok(Probe::with_file_type(d, file_type(fmt)).options(po).read()?)
	};
	match act {
		Act::Save { tag, o, via } => {
			let t = tag.build();
			match via {
				Via::Tag => t.save_to(d, o.get())?,
				Via::File => {
					d.seek(SeekFrom::Start(0))?;
					let mut f = AnyFile::read(fmt, d, po)?;
					if !f.set(t.concrete()) {
						return Err(AnyErr("unsupported tag".into()));
					}
					d.seek(SeekFrom::Start(0))?;
					f.save_to(d, o.get())?;
				},
				Via::Tagged => {
					let mut f = probe(d)?;
					f.insert_tag(t.to_generic());
					f.save_to(d, o.get())?;
				},
				Via::Bound => {
					d.seek(SeekFrom::Start(0))?;
					let mut f = Probe::with_file_type(d, file_type(fmt)).options(po).read_bound()?;
					f.insert_tag(t.to_generic());
					f.save(o.get())?;
				},
			}
		},
		Act::Remove { kind, via } => {
			let Some(ty) = kind_type(*kind) else {
				return Err(AnyErr("no such tag type".into()));
			};
			match via {
				Via::Tag => ty.remove_from(d, WOpts::default().get())?,
				_ => {
					let mut t = lofty::tag::Tag::new(ty);
					t.clear();
					AnyTag::Generic(t).save_to(d, WOpts::default().get())?;
				},
			}
		},
		Act::Edit { kind, title, o, via } => match via {
			Via::Tag | Via::File => {
				d.seek(SeekFrom::Start(0))?;
				let mut f = AnyFile::read(fmt, d, po)?;
				let Some(mut t) = f.get(*kind) else {
					return Err(AnyErr("no tag to edit".into()));
				};
				t.set_title(title.get());
				d.seek(SeekFrom::Start(0))?;
				if *via == Via::Tag {
					t.save_to(d, o.get())?;
				} else {
					f.set(t);
					f.save_to(d, o.get())?;
				}
			},
			_ => {
				let Some(ty) = kind_type(*kind) else {
					return Err(AnyErr("no such tag type".into()));
				};
				let mut f = probe(d)?;
				let Some(t) = f.tag_mut(ty) else {
					return Err(AnyErr("no tag to edit".into()));
				};
				t.set_title(title.get());
				f.save_to(d, o.get())?;
			},
		},
		Act::Resave { o, via } => match via {
			Via::Tag | Via::File => {
				d.seek(SeekFrom::Start(0))?;
				let f = AnyFile::read(fmt, d, po)?;
				d.seek(SeekFrom::Start(0))?;
				f.save_to(d, o.get())?;
			},
			Via::Tagged => {
				let f = probe(d)?;
				f.save_to(d, o.get())?;
			},
			Via::Bound => {
				d.seek(SeekFrom::Start(0))?;
				let mut f = Probe::with_file_type(d, file_type(fmt)).options(po).read_bound()?;
				f.save(o.get())?;
			},
		},
	}
	Ok(())
}

pub fn read_tagged(data: &[u8], fmt: Fmt, o: POpts) -> (Outcome, Option<Reading>) {
	let mut d = SimDisk::new(data.to_vec());
	d.budget = op_budget(data.len());
	outcome(catch(|| -> Result<Reading, AnyErr> {
		let f = Probe::with_file_type(&mut d, file_type(fmt)).options(o.get()).read()?;
		Ok(canon_tagged(&f))
	}))
}

pub fn read_clean(data: &[u8], fmt: Fmt, o: POpts) -> (Outcome, Option<Reading>) {
	let mut d = SimDisk::new(data.to_vec());
	d.budget = op_budget(data.len());
	outcome(catch(|| read_concrete(fmt, &mut d, o.get())))
}

pub fn guess(data: &[u8]) -> Option<String> {
	let mut d = SimDisk::new(data.to_vec());
	catch(|| Probe::new(&mut d).guess_file_type().ok().and_then(|p| p.file_type()))
		.ok()
		.flatten()
		.map(|t| format!("{t:?}"))
}

#[derive(Clone, Debug)]
pub struct Violation {
	/// What kind of guarantee broke; stable under minimisation
	pub class: String,
	pub detail: String,
}

pub fn viol(class: impl Into<String>, detail: impl Into<String>) -> Violation {
	Violation {
		class: class.into(),
		detail: detail.into(),
	}
}

/// Digits and quoted parts removed: the shape of a message
pub fn shape(s: &str) -> String {
	let mut o = String::new();
	let mut dig = false;
	for c in s.chars() {
		if c.is_ascii_digit() {
			if !dig {
				o.push('#');
			}
			dig = true;
		} else {
			dig = false;
			o.push(c);
		}
	}
	o
}

/// What the file must look like
#[derive(Clone, Debug)]
pub struct Model {
	pub fmt: Fmt,
	/// expected canonical content per tag kind (absent: no such tag)
	pub tags: BTreeMap<Kind, Vec<String>>,
	/// kinds whose expected content is given as `AnyTag::loose`
	pub loose: BTreeMap<Kind, Vec<String>>,
	/// FLAC picture blocks
	pub extra: Vec<String>,
	pub anatomy: Anatomy,
	/// problem shapes the initial file already had
	pub tolerated: Vec<String>,
	pub file_type: Option<String>,
	pub duration_props: String,
}

impl Model {
	pub fn of(data: &[u8], fmt: Fmt) -> Option<Self> {
		let (o, r) = read_clean(data, fmt, POpts::default());
		if !o.ok() {
			return None;
		}
		let r = r?;
		let anatomy = dissect(data, fmt);
		Some(Self {
			fmt,
			tags: r.tags,
			loose: BTreeMap::new(),
			extra: r.extra,
			tolerated: anatomy.problems.iter().map(|p| shape(p)).collect(),
			anatomy,
			file_type: guess(data),
			duration_props: r.props,
		})
	}
}

pub fn show(v: &[String]) -> String {
	let mut s = format!("{v:?}");
	if s.len() > 700 {
		let mut c = 700;
		while !s.is_char_boundary(c) {
			c -= 1;
		}
		s.truncate(c);
		s.push_str("...");
	}
	s
}

pub fn diff_lines(a: &[String], b: &[String]) -> String {
	let miss: Vec<String> = a.iter().filter(|x| !b.contains(x)).cloned().collect();
	let extra: Vec<String> = b.iter().filter(|x| !a.contains(x)).cloned().collect();
	if miss.is_empty() && extra.is_empty() {
		return format!("order differs: {} / {}", show(a), show(b));
	}
	format!("missing {} unexpected {}", show(&miss), show(&extra))
}

/// The order of entries with different keys is not part of the content
fn by_key(v: &Vec<String>) -> Vec<String> {
	let mut v = v.clone();
	v.sort_by(|a, b| {
		let k = |s: &String| s.split([' ', '=']).next().unwrap_or("").to_string();
		k(a).cmp(&k(b))
	});
	v
}

/// Compare the device with the model; `touched` are the kinds the last step wrote
pub fn check(m: &Model, data: &[u8], touched: &[Kind]) -> Vec<Violation> {
	let mut v = Vec::new();
	let an = dissect(data, m.fmt);
	for p in &an.problems {
		if !m.tolerated.contains(&shape(p)) {
			v.push(viol("structure", p.clone()));
			break;
		}
	}
	if an.payload != m.anatomy.payload {
		v.push(viol("payload", format!("audio payload changed: {}", diff(&m.anatomy.payload, &an.payload))));
	}
	let pics = |o: &[(String, Vec<u8>)], want: bool| -> Vec<(String, Vec<u8>)> {
		o.iter().filter(|(n, _)| (n == "picture") == want).cloned().collect()
	};
	let (oa, mut ob) = (pics(&m.anatomy.others, false), pics(&an.others, false));
	// a metadata atom that had to be created comes with a handler
	if !oa.iter().any(|(n, _)| n == "meta hdlr") {
		let made: Vec<_> = ob.extract_if(.., |(n, _)| n == "meta hdlr").collect();
		for (_, h) in &made {
			let zeros = |r: std::ops::Range<usize>| h[r].iter().all(|b| *b == 0);
			if h.len() < 25 || !zeros(0..8) || &h[8..16] != b"mdirappl" || !zeros(16..24) || h.last() != Some(&0) {
				v.push(viol("form Ilst", format!("Ilst: the handler of the metadata is {h:?}")));
			}
		}
		if made.is_empty() && an.count(Kind::Ilst) > m.anatomy.count(Kind::Ilst) && !oa.iter().any(|(n, _)| n.starts_with("meta ")) {
			v.push(viol("form Ilst", "Ilst: metadata without a handler".to_string()));
		}
	}
	if oa != ob {
		let names = |x: &[(String, Vec<u8>)]| x.iter().map(|(n, d)| format!("{n}:{}", d.len())).collect::<Vec<_>>();
		let first = oa
			.iter()
			.zip(&ob)
			.find(|(a, b)| a != b)
			.map(|(a, b)| format!("{} vs {}: {}", a.0, b.0, diff(&a.1, &b.1)))
			.unwrap_or_default();
		v.push(viol(
			"others",
			format!("blocks that are not tags changed: {} -> {} {first}", show(&names(&oa)), show(&names(&ob))),
		));
	}
	// every tag that was not written is still there, byte for byte
	for (k, raw) in &m.anatomy.tags {
		if touched.contains(k) {
			continue;
		}
		let now = an.tags.get(k).cloned().unwrap_or_default();
		if now != *raw {
			v.push(viol(
				format!("untouched {k:?}"),
				format!(
					"{k:?} tag was not written but changed: {} -> {} {}",
					raw.len(),
					now.len(),
					match (raw.first(), now.first()) {
						(Some(a), Some(b)) => diff(a, b),
						_ => String::new(),
					}
				),
			));
		}
	}
	for k in an.tags.keys() {
		if !touched.contains(k) && !m.anatomy.tags.contains_key(k) {
			v.push(viol(format!("appeared {k:?}"), format!("a {k:?} tag nobody wrote appeared")));
		}
	}
	let (o, r) = read_clean(data, m.fmt, POpts::default());
	match (o, r) {
		(Outcome::Ok, Some(r)) => {
			let mut kinds: Vec<Kind> = m.tags.keys().copied().collect();
			kinds.extend(r.tags.keys().copied().filter(|k| !m.tags.contains_key(k)));
			for k in kinds {
				let a = m.tags.get(&k);
				let b = r.tags.get(&k);
				if let (Some(a), Some(b)) = (m.loose.get(&k), r.loose.get(&k)) {
					if a != b {
						v.push(viol(format!("content {k:?}"), format!("{k:?}: {}", diff_lines(a, b))));
					}
					continue;
				}
				if a.map(by_key) != b.map(by_key) {
					let class = match (a, b) {
						(Some(_), None) => format!("lost {k:?}"),
						(None, Some(_)) => format!("remains {k:?}"),
						_ => format!("content {k:?}"),
					};
					let e = Vec::new();
					v.push(viol(
						class,
						format!("{k:?}: {}", diff_lines(a.unwrap_or(&e), b.unwrap_or(&e))),
					));
				}
			}
			if m.extra != r.extra {
				v.push(viol("pictures", format!("picture blocks: {}", diff_lines(&m.extra, &r.extra))));
			}
		},
		(o, _) => v.push(viol("unreadable", format!("the file can no longer be read: {o:?}"))),
	}
	let ft = guess(data);
	if ft != m.file_type {
		v.push(viol("file type", format!("detected as {ft:?} instead of {:?}", m.file_type)));
	}
	// what was written is what the specification asks for
	for k in touched {
		let old = m.anatomy.tags.get(k);
		for raw in an.tags.get(k).into_iter().flatten() {
			if old.is_some_and(|o| o.contains(raw)) {
				continue;
			}
			if let Some(p) = crate::tagcheck::problems(*k, raw, m.fmt).first() {
				v.push(viol(format!("form {k:?}"), format!("{k:?}: {p}")));
			}
		}
	}
	for (n, p) in &ob {
		if n == "picture"
			&& !oa.contains(&(n.clone(), p.clone()))
			&& let Some(p) = crate::tagcheck::picture(p)
		{
			v.push(viol("form picture", p));
		}
	}
	// at most one tag of the kind that was just written
	for &k in touched {
		let n = an.count(k);
		let limit = match k {
			Kind::AiffText => usize::MAX,
			_ => usize::from(m.tags.contains_key(&k)).max(m.anatomy.count(k).min(1) * usize::from(m.tags.contains_key(&k))),
		};
		if n > limit {
			v.push(viol(format!("duplicate {k:?}"), format!("{n} {k:?} tags in the file, expected {limit}")));
		}
	}
	v
}

pub fn build_base(b: &Base) -> Option<(Vec<u8>, Fmt)> {
	let d = b.build()?;
	let fmt = match b {
		Base::Synth { fmt, .. } => *fmt,
		Base::Asset { name } => asset_fmt(name, &d)?,
		Base::Foreign { f } => f.fmt,
		Base::Hex { .. } => return None,
	};
	Some((d, fmt))
}

pub fn asset_fmt(name: &str, d: &[u8]) -> Option<Fmt> {
	Some(match name.rsplit('.').next()? {
		"mp3" | "mp1" => Fmt::Mp3,
		"aac" => Fmt::Aac,
		"ape" => Fmt::Ape,
		"wv" => Fmt::Wv,
		"mpc" => {
			if d.starts_with(b"MPCK") {
				Fmt::Mpc8
			} else if d.starts_with(b"MP+") {
				Fmt::Mpc7
			} else {
				return None;
			}
		},
		"wav" => Fmt::Wav,
		"aiff" | "aifc" => Fmt::Aiff,
		"flac" => Fmt::Flac,
		"ogg" => Fmt::OggVorbis,
		"opus" => Fmt::OggOpus,
		"spx" => Fmt::OggSpeex,
		"m4a" | "m4v" | "mp4" => Fmt::Mp4,
		_ => return None,
	})
}
