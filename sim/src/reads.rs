//! Properties of reading: delivery independence, faithful errors, robustness, memory, options, detection.

use crate::disk::{Fault, FaultAt, Noise, Plan, SimDisk};
use crate::engine::*;
use crate::files::{POpts, Reading, canon_tagged, file_type, read_concrete, read_probe};
use crate::hist::{HistGen, gen_act, gen_any_base, gen_noise};
use crate::media::{ALL_FMTS, Base, Fmt};
use crate::prop::Ctx;
use crate::rng::{Rng, mix};
use crate::run::catch;
use crate::stats;
use lofty::probe::Probe;
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom};

/// A file: a base, and saves made on it by the library on a healthy device (they may refuse)
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Subject {
	pub base: Base,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub prep: Vec<Act>,
}

pub fn gen_subject(r: &mut Rng, assets: u64, big: u32, synth_only: bool) -> Subject {
	let (base, fmt) = gen_any_base(r, ALL_FMTS, if synth_only { 0 } else { assets }, if synth_only { 0 } else { 100 });
	let g = HistGen {
		removes: 40,
		resaves: 40,
		big,
		..HistGen::default()
	};
	let n = *r.pick(&[0, 0, 1, 1, 1, 2, 3]);
	Subject {
		prep: (0..n).map(|_| gen_act(r, &g, fmt)).collect(),
		base,
	}
}

impl Subject {
	pub fn build(&self) -> Option<(Vec<u8>, Fmt)> {
		let (mut data, fmt) = build_base(&self.base)?;
		for a in &self.prep {
			let mut d = SimDisk::new(data.clone());
			d.record_mutations = false;
			if perform(&mut d, fmt, a).ok() {
				data = d.data;
			}
		}
		Some((data, fmt))
	}
}

/// How a stream is read
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum How {
	/// the concrete file type
	Concrete,
	/// `Probe` told the type
	Tagged,
	/// `Probe` guessing the type
	Probe,
}

pub const HOWS: &[How] = &[How::Concrete, How::Tagged, How::Probe];

pub fn read_as(how: How, fmt: Fmt, d: &mut SimDisk, o: POpts) -> (Outcome, Option<Reading>) {
	outcome(catch(|| -> Result<Reading, AnyErr> {
		d.seek(SeekFrom::Start(0))?;
		Ok(match how {
			How::Concrete => read_concrete(fmt, d, o.get())?,
			How::Tagged => {
				let f = Probe::with_file_type(d, file_type(fmt)).options(o.get()).read()?;
				canon_tagged(&f)
			},
			How::Probe => read_probe(d, o.get())?,
		})
	}))
}

pub fn gen_popts(r: &mut Rng) -> POpts {
	POpts {
		no_props: r.chance(1, 5),
		no_tags: r.chance(1, 6),
		mode: *r.pick(&[0, 1, 1, 1, 2]),
		no_art: r.chance(1, 6),
		no_conv: r.chance(1, 6),
		junk: if r.chance(1, 8) { Some(r.below(2048) as u32) } else { None },
	}
}

pub fn differs(a: &Reading, b: &Reading) -> String {
	if a.file_type != b.file_type {
		return format!("file type {} / {}", a.file_type, b.file_type);
	}
	for (k, v) in &a.tags {
		match b.tags.get(k) {
			None => return format!("no {k:?} tag"),
			Some(w) if w != v => return format!("{k:?}: {}", diff_lines(v, w)),
			_ => {},
		}
	}
	for k in b.tags.keys() {
		if !a.tags.contains_key(k) {
			return format!("unexpected {k:?} tag");
		}
	}
	if a.extra != b.extra {
		return diff_lines(&a.extra, &b.extra);
	}
	if a.props != b.props {
		return format!("properties {} / {}", a.props, b.props);
	}
	"equal".into()
}

fn same(a: &Option<Reading>, b: &Option<Reading>) -> bool {
	match (a, b) {
		(Some(a), Some(b)) => a.tags == b.tags && a.extra == b.extra && a.props == b.props && a.file_type == b.file_type,
		_ => false,
	}
}

fn died(o: &Outcome, what: &str) -> Option<Violation> {
	match o {
		Outcome::Panic(p) => Some(viol(format!("panic {what}"), p.clone())),
		Outcome::Budget => Some(viol(format!("no termination {what}"), "the call does not terminate")),
		_ => None,
	}
}

// ------------------------------------------------------------------------------------------------
// delivery

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Delivery {
	pub s: Subject,
	pub how: How,
	pub o: POpts,
	pub noise: Vec<Noise>,
}

pub fn gen_delivery(r: &mut Rng) -> Delivery {
	let mut noise = vec![
		Noise { seed: r.below(1 << 20), short: 1000, eintr: 0, max: 1 },
		gen_noise(r),
		gen_noise(r),
	];
	if r.chance(1, 2) {
		noise.push(Noise { seed: r.below(1 << 20), short: 0, eintr: *r.pick(&[20, 100, 400]), max: 1 });
	}
	Delivery {
		s: gen_subject(r, 150, 2500, false),
		how: *r.pick(HOWS),
		o: gen_popts(r),
		noise,
	}
}

pub fn exec_delivery(c: &Delivery, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let (data, fmt) = c.s.build().ok_or("no such base")?;
	stats::named(&format!("fmt.{}", fmt.name()));
	let mut d = SimDisk::new(data.clone());
	d.budget = op_budget(data.len());
	let (o0, r0) = read_as(c.how, fmt, &mut d, c.o);
	ctx.sim(&d, false);
	if let Some(v) = died(&o0, "") {
		return Ok(vec![v]);
	}
	stats::named(if o0.ok() { "read.ok" } else { "read.err" });
	for n in &c.noise {
		let mut d = SimDisk::with_plan(data.clone(), Plan::noise(*n));
		d.budget = 40 * op_budget(data.len());
		let (o, r) = read_as(c.how, fmt, &mut d, c.o);
		ctx.sim(&d, d.soft_fired.get() > 0);
		if let Some(v) = died(&o, "with short or interrupted transfers") {
			return Ok(vec![v]);
		}
		match (&o0, &o) {
			(Outcome::Ok, Outcome::Ok) => {
				if !same(&r0, &r) {
					return Ok(vec![viol(
						"different reading",
						format!("{} read with {n:?}: {}", fmt.name(), differs(r0.as_ref().unwrap(), r.as_ref().unwrap())),
					)]);
				}
			},
			(Outcome::Ok, o) => {
				return Ok(vec![viol("delivery fails", format!("{} readable, but not with {n:?}: {o:?}", fmt.name()))]);
			},
			(e, Outcome::Ok) => {
				return Ok(vec![viol("delivery succeeds", format!("{} unreadable ({e:?}), but readable with {n:?}", fmt.name()))]);
			},
			_ => {},
		}
	}
	Ok(Vec::new())
}

// ------------------------------------------------------------------------------------------------
// hard faults while reading

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ReadFault {
	pub s: Subject,
	pub how: How,
	pub o: POpts,
	pub hits: Vec<Hit>,
	/// Also every operation in turn, when there are at most this many
	#[serde(default)]
	pub sweep: u32,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
}

fn read_fault(r: &mut Rng) -> Fault {
	match r.below(6) {
		0..=2 => Fault::Eio,
		3 => Fault::Timeout,
		4 => Fault::Denied,
		_ => Fault::Gone,
	}
}

pub fn gen_read_fault(r: &mut Rng) -> ReadFault {
	ReadFault {
		s: gen_subject(r, 150, 1200, false),
		how: *r.pick(HOWS),
		o: gen_popts(r),
		hits: (0..6)
			.map(|_| Hit {
				at: r.below(65536) as u32,
				f: read_fault(r),
			})
			.collect(),
		sweep: if r.chance(1, 4) { 160 } else { 0 },
		noise: if r.chance(1, 4) { Some(gen_noise(r)) } else { None },
	}
}

pub fn exec_read_fault(c: &ReadFault, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let (data, fmt) = c.s.build().ok_or("no such base")?;
	stats::named(&format!("fmt.{}", fmt.name()));
	let mk = |faults: Vec<FaultAt>| {
		let mut d = SimDisk::with_plan(
			data.clone(),
			Plan {
				noise: c.noise,
				faults,
				..Plan::default()
			},
		);
		d.budget = 40 * op_budget(data.len());
		d
	};
	let mut d = mk(Vec::new());
	let (o0, r0) = read_as(c.how, fmt, &mut d, c.o);
	let ops = d.ops.get();
	ctx.sim(&d, false);
	if let Some(v) = died(&o0, "") {
		return Ok(vec![v]);
	}
	if !o0.ok() {
		stats::named("read.err");
		ctx.cut += 1;
		return Ok(Vec::new());
	}
	let mut plans: Vec<FaultAt> = c
		.hits
		.iter()
		.map(|h| FaultAt {
			op: h.op(ops),
			fault: h.f,
		})
		.collect();
	if ops <= u64::from(c.sweep) {
		let f = c.hits.first().map_or(Fault::Eio, |h| h.f);
		plans = (0..ops).map(|op| FaultAt { op, fault: f }).collect();
		stats::named("sweep");
	}
	for p in plans {
		let mut d = mk(vec![p]);
		let (o, r) = read_as(c.how, fmt, &mut d, c.o);
		let hard = d.hard_fired.borrow().clone();
		ctx.sim(&d, !hard.is_empty());
		if let Some(v) = died(&o, "under fault") {
			return Ok(vec![viol(v.class, format!("{} {hard:?}: {}", fmt.name(), v.detail))]);
		}
		if o.ok() && !same(&r0, &r) {
			return Ok(vec![viol(
				"wrong reading despite failed operation",
				format!(
					"{} with {hard:?} ({ops} operations) read as if whole: {}",
					fmt.name(),
					differs(r0.as_ref().unwrap(), r.as_ref().unwrap())
				),
			)]);
		}
		stats::named(if o.ok() { "fault.harmless" } else { "fault.reported" });
	}
	Ok(Vec::new())
}

// ------------------------------------------------------------------------------------------------
// damaged streams

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
	/// flip a bit
	Flip { at: u32, bit: u8 },
	Byte { at: u32, v: u8 },
	/// overwrite 1, 2, 4 or 8 bytes with an interesting number
	Num { at: u32, size: u8, v: u8, le: bool },
	/// the `n`th four-character code: overwrite the number after (or before) it
	Size { n: u32, v: u8, le: bool, before: bool },
	Cut { at: u32 },
	Drop { at: u32, n: u32 },
	Dup { at: u32, n: u32 },
	Zero { at: u32, n: u32 },
	Noise { at: u32, n: u32, g: u32 },
	Grow { n: u32 },
	/// Only every sector selected by `g` of the file has reached the device
	Torn { g: u32, sector: u16 },
	/// Fix the checksums of Ogg pages, so that the damage gets past them
	OggCrc,
}

const NUMS: &[u64] = &[
	0,
	1,
	2,
	3,
	4,
	7,
	8,
	9,
	10,
	11,
	0x10,
	0x7F,
	0x80,
	0xFF,
	0x100,
	0x7FFF,
	0x8000,
	0xFFFF,
	0x1_0000,
	0xFF_FFFF,
	0x100_0000,
	0x0FFF_FFFF,
	0x7FFF_FFFF,
	0x8000_0000,
	0xFFFF_FFF0,
	0xFFFF_FFFE,
	0xFFFF_FFFF,
	0x1_0000_0000,
	0x7FFF_FFFF_FFFF_FFFF,
	0xFFFF_FFFF_FFFF_FFFF,
];

pub fn gen_damage(r: &mut Rng) -> Damage {
	// most of what matters is near the ends
	let at = match r.below(4) {
		0 => r.below(200) as u32,
		1 => (0xFFFF_FF00 + r.below(256)) as u32,
		2 => r.below(3000) as u32,
		_ => r.below(1 << 24) as u32,
	};
	match r.below(20) {
		0..=2 => Damage::Flip { at, bit: r.below(8) as u8 },
		3 | 4 => Damage::Byte { at, v: *r.pick(&[0, 1, 0x7F, 0x80, 0xFE, 0xFF, b'T', b' ']) },
		5..=7 => Damage::Num {
			at,
			size: *r.pick(&[1, 2, 4, 4, 4, 8]),
			v: r.below(NUMS.len() as u64) as u8,
			le: r.chance(1, 2),
		},
		8..=12 => Damage::Size {
			n: r.below(1 << 16) as u32,
			v: r.below(NUMS.len() as u64) as u8,
			le: r.chance(1, 2),
			before: r.chance(1, 3),
		},
		13 => Damage::Cut { at },
		14 => Damage::Drop { at, n: 1 + r.size(600, &[1, 4, 8]) as u32 },
		15 => Damage::Dup { at, n: 1 + r.size(600, &[1, 4, 8]) as u32 },
		16 => Damage::Zero { at, n: 1 + r.size(600, &[1, 4, 8, 512]) as u32 },
		17 => Damage::Noise {
			at,
			n: 1 + r.size(64, &[1, 4, 8]) as u32,
			g: r.below(1 << 20) as u32,
		},
		18 => Damage::Grow { n: r.size(5000, &[1, 4, 8, 128]) as u32 },
		_ => {
			if r.chance(1, 2) {
				Damage::OggCrc
			} else {
				Damage::Torn {
					g: r.below(1 << 20) as u32,
					sector: *r.pick(&[16, 64, 512]),
				}
			}
		},
	}
}

/// Offsets above `0xFFFF_FF00` count from the end
fn place(at: u32, len: usize) -> usize {
	if len == 0 {
		return 0;
	}
	if at >= 0xFFFF_FF00 {
		len.saturating_sub(1 + (at & 0xFF) as usize)
	} else {
		at as usize % len
	}
}

fn fourccs(d: &[u8]) -> Vec<usize> {
	let ok = |c: u8| c.is_ascii_alphanumeric() || c == b' ' || c == 0xA9 || c == b'-';
	let lim = d.len().min(60_000);
	(0..lim.saturating_sub(8))
		.filter(|&i| ok(d[i]) && ok(d[i + 1]) && ok(d[i + 2]) && ok(d[i + 3]) && (!ok(d[i + 4]) || i == 0 || !ok(d[i - 1])))
		.collect()
}

fn num(v: u8) -> u64 {
	NUMS[v as usize % NUMS.len()]
}

fn put_num(d: &mut [u8], at: usize, size: usize, v: u64, le: bool) {
	for i in 0..size {
		let b = if le { (v >> (8 * i)) as u8 } else { (v >> (8 * (size - 1 - i))) as u8 };
		if let Some(x) = d.get_mut(at + i) {
			*x = b;
		}
	}
}

pub fn apply_damage(d: &mut Vec<u8>, m: Damage) {
	let len = d.len();
	if len == 0 && !matches!(m, Damage::Grow { .. }) {
		return;
	}
	match m {
		Damage::Flip { at, bit } => d[place(at, len)] ^= 1 << (bit & 7),
		Damage::Byte { at, v } => d[place(at, len)] = v,
		Damage::Num { at, size, v, le } => put_num(d, place(at, len), size as usize, num(v), le),
		Damage::Size { n, v, le, before } => {
			let c = fourccs(d);
			if c.is_empty() {
				return;
			}
			let at = c[n as usize % c.len()];
			let at = if before { at.saturating_sub(4) } else { at + 4 };
			// sometimes relative to what is there
			let v = if v % 5 == 4 {
				let mut b = [0; 4];
				for (i, x) in b.iter_mut().enumerate() {
					*x = d.get(at + i).copied().unwrap_or(0);
				}
				let old = if le { u32::from_le_bytes(b) } else { u32::from_be_bytes(b) };
				u64::from(old.wrapping_add(u32::from(v)).wrapping_sub(14))
			} else {
				num(v)
			};
			put_num(d, at, 4, v, le);
		},
		Damage::Cut { at } => d.truncate(place(at, len)),
		Damage::Drop { at, n } => {
			let a = place(at, len);
			let e = (a + n as usize).min(len);
			d.drain(a..e);
		},
		Damage::Dup { at, n } => {
			let a = place(at, len);
			let e = (a + n as usize).min(len);
			let x = d[a..e].to_vec();
			d.splice(e..e, x);
		},
		Damage::Zero { at, n } => {
			let a = place(at, len);
			let e = (a + n as usize).min(len);
			d[a..e].fill(0);
		},
		Damage::Noise { at, n, g } => {
			let a = place(at, len);
			let e = (a + n as usize).min(len);
			let b = Rng::new(u64::from(g)).bytes(e - a);
			d[a..e].copy_from_slice(&b);
		},
		Damage::Grow { n } => d.resize(len + n.min(1 << 20) as usize, 0),
		Damage::Torn { g, sector } => {
			let s = usize::from(sector.max(1));
			for (i, c) in d.chunks_mut(s).enumerate() {
				if mix(&[u64::from(g), i as u64]) % 5 == 0 {
					c.fill(0);
				}
			}
		},
		Damage::OggCrc => crate::dissect::fix_ogg_crcs(d),
	}
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Damaged {
	pub s: Subject,
	pub damage: Vec<Damage>,
	pub o: POpts,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
	/// calls that write, made on the damaged file
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub acts: Vec<Act>,
}

pub fn gen_damaged(r: &mut Rng) -> Damaged {
	let s = gen_subject(r, 250, 600, false);
	let fmt = build_base(&s.base).map_or(Fmt::Mp3, |x| x.1);
	let n = *r.pick(&[1, 1, 1, 1, 2, 2, 3, 5]);
	let g = HistGen {
		big: 300,
		removes: 350,
		..HistGen::default()
	};
	let mut damage: Vec<Damage> = (0..n).map(|_| gen_damage(r)).collect();
	if matches!(fmt, Fmt::OggVorbis | Fmt::OggOpus | Fmt::OggSpeex) {
		damage.push(Damage::OggCrc);
	}
	Damaged {
		acts: if r.chance(1, 3) { vec![gen_act(r, &g, fmt)] } else { Vec::new() },
		s,
		damage,
		o: gen_popts(r),
		noise: if r.chance(1, 10) { Some(gen_noise(r)) } else { None },
	}
}

pub fn exec_damaged(c: &Damaged, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let (mut data, fmt) = c.s.build().ok_or("no such base")?;
	stats::named(&format!("fmt.{}", fmt.name()));
	for m in &c.damage {
		apply_damage(&mut data, *m);
		stats::named(&format!("damage.{}", format!("{m:?}").split([' ', '{']).next().unwrap_or("")));
	}
	for how in HOWS {
		let mut d = SimDisk::new(data.clone());
		d.plan.noise = c.noise;
		d.budget = if c.noise.is_some() { 40 } else { 1 } * op_budget(data.len());
		let (o, _) = read_as(*how, fmt, &mut d, c.o);
		ctx.sim(&d, true);
		if let Some(v) = died(&o, "") {
			return Ok(vec![viol(v.class, format!("{} {how:?}: {}", fmt.name(), v.detail))]);
		}
		stats::named(if o.ok() { "read.ok" } else { "read.err" });
	}
	for a in &c.acts {
		let mut d = SimDisk::new(data.clone());
		d.plan.noise = c.noise;
		d.record_mutations = false;
		let o = perform(&mut d, fmt, a);
		ctx.sim(&d, true);
		if let Some(v) = died(&o, "while writing") {
			return Ok(vec![viol(v.class, format!("{} {}: {}", fmt.name(), crate::hist::describe_short(a), v.detail))]);
		}
		stats::named(if o.ok() { "write.ok" } else { "write.err" });
	}
	Ok(Vec::new())
}

// ------------------------------------------------------------------------------------------------
// what the options select

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Select {
	pub s: Subject,
	pub mode: u8,
	pub how: How,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
	/// which options are switched off together
	#[serde(default)]
	pub both: u8,
}

pub fn gen_select(r: &mut Rng) -> Select {
	Select {
		s: gen_subject(r, 200, 1500, false),
		mode: *r.pick(&[0, 1, 1, 2]),
		how: *r.pick(HOWS),
		noise: if r.chance(1, 3) { Some(gen_noise(r)) } else { None },
		both: r.below(4) as u8,
	}
}

fn is_picture_line(l: &str) -> bool {
	crate::tags::picture_line(l)
}

pub fn exec_select(c: &Select, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let (data, fmt) = c.s.build().ok_or("no such base")?;
	stats::named(&format!("fmt.{}", fmt.name()));
	let full = POpts {
		mode: c.mode,
		..POpts::default()
	};
	let mut go = |o: POpts| {
		let mut d = SimDisk::new(data.clone());
		d.plan.noise = c.noise;
		d.budget = 40 * op_budget(data.len());
		let r = read_as(c.how, fmt, &mut d, o);
		ctx.sim(&d, true);
		r
	};
	let (o0, r0) = go(full);
	if let Some(v) = died(&o0, "") {
		return Ok(vec![v]);
	}
	let Some(r0) = r0 else {
		stats::named("read.err");
		return Ok(Vec::new());
	};
	let bad = |what: &str, d: String| Ok(vec![viol(what, format!("{} {:?}: {d}", fmt.name(), c.how))]);
	// without tags
	let (o, r) = go(POpts { no_tags: true, ..full });
	let no_tags = match (o, r) {
		(Outcome::Ok, Some(r)) => {
			if r.props != r0.props {
				return bad("properties depend on tags being read", format!("{} / {}", r0.props, r.props));
			}
			if r.file_type != r0.file_type {
				return bad("type depends on tags being read", format!("{} / {}", r0.file_type, r.file_type));
			}
			for (k, v) in &r.tags {
				// Ogg files always have a (possibly empty) comment; the picture blocks of FLAC files have
				// an option of their own
				if v.iter().all(|l| l.starts_with("pic ") || l.starts_with("vendor ") || (fmt == Fmt::Flac && l.starts_with("EncoderSoftware"))) {
					continue;
				}
				if !v.is_empty() && !(*k == crate::dissect::Kind::Vorbis && v.len() <= 1) {
					return bad("tags read although switched off", format!("{k:?}"));
				}
			}
			r
		},
		(o, _) => return bad("unreadable without tags", format!("{o:?}")),
	};
	// without properties
	let (o, r) = go(POpts { no_props: true, ..full });
	match (o, r) {
		(Outcome::Ok, Some(r)) => {
			if r.tags != r0.tags || r.extra != r0.extra {
				return bad("tags depend on properties being read", differs(&r0.clone().without_props(), &r.without_props()));
			}
		},
		(o, _) => return bad("unreadable without properties", format!("{o:?}")),
	}
	// without pictures
	let nested = r0.tags.values().flatten().any(|l| l.starts_with("CHAP ") || l.starts_with("CTOC "));
	let (o, r) = crate::tags::without_nested_pictures(|| go(POpts { no_art: true, ..full }));
	let no_art = match (o, r) {
		(Outcome::Ok, Some(mut r)) => {
			let whole = r.clone();
			let mut want = if nested {
				match crate::tags::without_nested_pictures(|| go(full)) {
					(Outcome::Ok, Some(r)) => r,
					(o, _) => return bad("not readable again", format!("{o:?}")),
				}
			} else {
				r0.clone()
			};
			for (k, v) in want.tags.iter_mut() {
				let _ = k;
				v.retain(|l| !is_picture_line(l));
			}
			want.extra.retain(|l| !is_picture_line(l));
			for r in [&mut want, &mut r] {
				if fmt == Fmt::Flac && c.how != How::Concrete {
					r.tags.values_mut().for_each(|v| v.retain(|l| !l.starts_with("EncoderSoftware ")));
				}
				// frames that replace a repeated one are moved around
				r.tags.values_mut().for_each(|v| v.sort());
				// a tag that held nothing but pictures may be absent
				r.tags.retain(|_, v| v.len() > usize::from(fmt.is_vorbis()));
				r.loose.clear();
				r.extra.retain(|l| !l.starts_with("Some(") && !l.starts_with("None"));
			}
			if r.props != want.props || r.tags != want.tags || r.extra != want.extra {
				return bad("not merely the pictures are left out", differs(&want, &r));
			}
			whole
		},
		(o, _) => return bad("unreadable without pictures", format!("{o:?}")),
	};
	// Several of them: what one option leaves out does not depend on the others
	let (o, r) = crate::tags::without_nested_pictures(|| {
		go(POpts {
			no_tags: c.both != 0,
			no_props: c.both != 1,
			no_art: c.both != 2,
			..full
		})
	});
	match (o, r) {
		(Outcome::Ok, Some(r)) => {
			let wants = if c.both == 0 { &no_art } else { &no_tags };
			let same = match c.both {
				0 => r.tags == wants.tags && r.extra == wants.extra,
				1 => r.props == wants.props,
				_ => r.tags.keys().all(|k| wants.tags.contains_key(k)),
			};
			if !same || r.file_type != wants.file_type {
				return bad("options depend on each other", differs(&wants.clone().without_props(), &r.clone().without_props()));
			}
			if c.both == 1 && r.props != no_tags.props {
				return bad("options depend on each other", format!("{} / {}", no_tags.props, r.props));
			}
		},
		(o, _) => return bad("unreadable with several options off", format!("{o:?}")),
	}
	Ok(Vec::new())
}

// ------------------------------------------------------------------------------------------------
// detection

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Detect {
	pub s: Subject,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub hit: Option<Hit>,
	/// bytes in front of the file
	#[serde(default)]
	pub offset: u32,
}

pub fn gen_detect(r: &mut Rng) -> Detect {
	Detect {
		s: gen_subject(r, 250, 1500, false),
		noise: if r.chance(2, 3) { Some(gen_noise(r)) } else { None },
		hit: if r.chance(1, 3) { Some(Hit { at: r.below(65536) as u32, f: read_fault(r) }) } else { None },
		offset: if r.chance(1, 3) { r.below(5000) as u32 } else { 0 },
	}
}

fn detect(d: &mut SimDisk, start: u64) -> (Outcome, Option<(String, u64)>) {
	outcome(catch(|| -> Result<(String, u64), AnyErr> {
		d.pos = start;
		let p = Probe::new(&mut *d).guess_file_type()?;
		let t = format!("{:?}", p.file_type());
		drop(p);
		Ok((t, d.pos))
	}))
}

pub fn exec_detect(c: &Detect, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let (file, fmt) = c.s.build().ok_or("no such base")?;
	stats::named(&format!("fmt.{}", fmt.name()));
	let want = match build_base(&c.s.base).and_then(|(d, _)| guess(&d)) {
		_ if matches!(c.s.base, Base::Synth { .. }) => Some(format!("{:?}", file_type(fmt))),
		w => w,
	};
	let want = format!("Some({})", want.unwrap_or_default());
	if matches!(c.s.base, Base::Asset { .. }) && want == "Some()" {
		ctx.cut += 1;
		return Ok(Vec::new());
	}
	let mut data = vec![0x55; c.offset as usize];
	data.extend_from_slice(&file);
	let start = u64::from(c.offset);
	let mut ops = 0;
	for (n, noise) in [None, c.noise].into_iter().enumerate() {
		let mut d = SimDisk::new(data.clone());
		d.plan.noise = noise;
		d.budget = 40 * op_budget(data.len());
		let (o, r) = detect(&mut d, start);
		ctx.sim(&d, n == 1);
		ops = d.ops.get();
		if let Some(v) = died(&o, "") {
			return Ok(vec![v]);
		}
		let Some((t, pos)) = r else {
			return Ok(vec![viol("detection fails", format!("{}: {o:?}", fmt.name()))]);
		};
		if t != want {
			return Ok(vec![viol("wrong type", format!("{} detected as {t}, not {want}; {noise:?}", fmt.name()))]);
		}
		if pos != start {
			return Ok(vec![viol("stream moved", format!("{}: the stream was at {start} and is left at {pos}", fmt.name()))]);
		}
	}
	if let Some(h) = c.hit {
		let mut d = SimDisk::with_plan(data.clone(), Plan::one(h.op(ops), h.f));
		d.plan.noise = c.noise;
		let (o, r) = detect(&mut d, start);
		let hard = d.hard_fired.borrow().clone();
		ctx.sim(&d, !hard.is_empty());
		if let Some(v) = died(&o, "under fault") {
			return Ok(vec![v]);
		}
		if let Some((t, _)) = r
			&& t != want
		{
			return Ok(vec![viol("wrong type despite failed operation", format!("{} detected as {t} with {hard:?}", fmt.name()))]);
		}
	}
	Ok(Vec::new())
}
