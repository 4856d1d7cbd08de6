//! Failed calls: what they leave on the device (C04) and in memory (C11).

use crate::disk::{Fault, FaultAt, Noise, Plan, Shared, SimDisk};
use crate::dissect::Kind;
use crate::engine::*;
use crate::files::{AnyFile, POpts, WOpts, canon_tagged, file_type};
use crate::hist::{HistGen, describe_short, gen_act, gen_fault, gen_noise, via_of};
use crate::media::Fmt;
use crate::prop::Ctx;
use crate::reads::{Damage, Subject, apply_damage, gen_damage, gen_subject};
use crate::rng::Rng;
use crate::run::catch;
use crate::stats;
use crate::tags::{AnyTag, FrameSpec, GenOpts, ODD, PicSpec, Blob, TagSpec, Txt, gen_nonempty, kind_type, writable};
use lofty::config::{GlobalOptions, apply_global_options};
use lofty::file::{AudioFile, BoundTaggedFile, TaggedFile, TaggedFileExt};
use lofty::probe::Probe;
use lofty::tag::{Accessor, Tag, TagExt};
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom};

/// Run with another limit for the allocation of a single item
pub fn with_limit<T>(limit: Option<u32>, f: impl FnOnce() -> T) -> T {
	struct Reset;
	impl Drop for Reset {
		fn drop(&mut self) {
			apply_global_options(GlobalOptions::new());
		}
	}
	let _r = Reset;
	if let Some(l) = limit {
		apply_global_options(GlobalOptions::new().allocation_limit(l as usize));
	}
	f()
}

const EVERY: &[Kind] = &[Kind::Id3v2, Kind::Id3v1, Kind::Ape, Kind::Vorbis, Kind::Ilst, Kind::Riff, Kind::AiffText];

/// A save of something that (probably) cannot be stored
pub fn gen_odd_act(r: &mut Rng, fmt: Fmt) -> Act {
	let g = GenOpts { v23: false, big: 600 };
	let w = writable(fmt);
	let tag = match r.below(10) {
		// not a tag of this format
		0..=2 => {
			let k = *r.pick(EVERY);
			gen_nonempty(r, k, &g)
		},
		3 if w.contains(&Kind::AiffText) || r.chance(1, 8) => TagSpec::Aiff {
			name: Some(Txt::Gen { g: r.below(1 << 20), n: 20, c: 0 }),
			author: None,
			copyright: None,
			anno: Vec::new(),
			comments: vec![(0, 0, Txt::Gen { g: r.below(1 << 20), n: 65_530 + r.below(20) as u32, c: 0 })],
		},
		4 if w.contains(&Kind::Vorbis) && r.chance(1, 12) => TagSpec::Vorbis {
			vendor: Txt::Lit("v".into()),
			items: vec![("TITLE".into(), Txt::Lit("t".into()))],
			pics: vec![PicSpec {
				mime: 0,
				ty: 3,
				desc: None,
				data: Blob::Gen { b: 1, n: (1 << 24) - r.below(100) as u32, k: 2 },
			}],
		},
		5 => {
			let k = *r.pick(w);
			gen_nonempty(r, k, &g)
		},
		_ => {
			let mut frames = match gen_nonempty(r, Kind::Id3v2, &g) {
				TagSpec::Id3v2 { frames, .. } => frames,
				_ => Vec::new(),
			};
			let at = r.usize(frames.len() + 1);
			let f = FrameSpec::Odd { w: r.below(u64::from(ODD)) as u8 };
			frames.insert(at, f);
			TagSpec::Id3v2 { frames, head: 0 }
		},
	};
	Act::Save {
		tag,
		o: WOpts {
			pad: if r.chance(1, 2) { Some(*r.pick(&[0, 1, 8, 100, 5000, 0xFFFF_FF00])) } else { None },
			..WOpts::default()
		},
		via: Via::Tag,
	}
}

// ------------------------------------------------------------------------------------------------
// a call that fails before it began to write has changed nothing

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Refusal {
	pub s: Subject,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub damage: Vec<Damage>,
	pub act: Act,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub hits: Vec<Hit>,
	/// every operation in turn fails, when there are at most this many
	#[serde(default)]
	pub sweep: u32,
	/// allocation limit
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub limit: Option<u32>,
}

fn hard(r: &mut Rng) -> Fault {
	loop {
		match gen_fault(r) {
			Fault::Crash(_) | Fault::FakeEof => {},
			f => return f,
		}
	}
}

pub fn gen_refusal(r: &mut Rng) -> Refusal {
	let s = gen_subject(r, 150, 600, false);
	let fmt = build_base(&s.base).map_or(Fmt::Mp3, |x| x.1);
	let g = HistGen { big: 600, removes: 300, resaves: 0, ..HistGen::default() };
	let mut damage = Vec::new();
	if r.chance(1, 2) {
		for _ in 0..*r.pick(&[1, 1, 2, 3]) {
			damage.push(gen_damage(r));
		}
		if matches!(fmt, Fmt::OggVorbis | Fmt::OggOpus | Fmt::OggSpeex) {
			damage.push(Damage::OggCrc);
		}
	}
	let act = if r.chance(1, 2) {
		gen_odd_act(r, fmt)
	} else {
		loop {
			let mut a = gen_act(r, &g, fmt);
			match &mut a {
				Act::Save { via, .. } | Act::Edit { via, .. } | Act::Remove { via, .. } => *via = Via::Tag,
				Act::Resave { .. } => continue,
			}
			break a;
		}
	};
	Refusal {
		s,
		damage,
		act,
		noise: if r.chance(1, 8) { Some(gen_noise(r)) } else { None },
		hits: (0..r.below(5)).map(|_| Hit { at: r.below(65536) as u32, f: hard(r) }).collect(),
		sweep: if r.chance(1, 6) { 120 } else { 0 },
		limit: if r.chance(1, 10) { Some(r.size(20_000, &[0, 1, 100]) as u32) } else { None },
	}
}

pub fn exec_refusal(c: &Refusal, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let (mut data, fmt) = c.s.build().ok_or("no such base")?;
	if via_of(&c.act) != Via::Tag {
		return Err("calls that write several tags are not covered".into());
	}
	stats::named(&format!("fmt.{}", fmt.name()));
	for m in &c.damage {
		apply_damage(&mut data, *m);
	}
	let mut run = |faults: Vec<FaultAt>| -> (Outcome, SimDisk) {
		let mut d = SimDisk::with_plan(data.clone(), Plan { noise: c.noise, faults, ..Plan::default() });
		let o = with_limit(c.limit, || perform(&mut d, fmt, &c.act));
		let h = !o.ok();
		ctx.sim(&d, h);
		(o, d)
	};
	let judge = |o: &Outcome, d: &SimDisk| -> Option<Violation> {
		match o {
			Outcome::Err(e) if d.data != data => {
				let fired = d.hard_fired.borrow().clone();
				// a failed write, or a fault that came when the file was already being rewritten
				if d.write_side_fault() || d.changes_at_fault.get().is_some_and(|n| n > 0) {
					stats::named("failed.while_writing");
					return None;
				}
				Some(viol(
					"modified by failed call",
					format!("{} {}: refused ({e}) after {fired:?}, but {}", fmt.name(), describe_short(&c.act), crate::dissect::diff(&data, &d.data)),
				))
			},
			Outcome::Err(_) => {
				stats::named("failed.unchanged");
				None
			},
			_ => None,
		}
	};
	let (o, d) = run(Vec::new());
	let ops = d.ops.get();
	stats::named(if o.ok() { "clean.ok" } else { "clean.refused" });
	if let Some(v) = judge(&o, &d) {
		return Ok(vec![v]);
	}
	let mut plans: Vec<FaultAt> = c.hits.iter().map(|h| FaultAt { op: h.op(ops), fault: h.f }).collect();
	if ops <= u64::from(c.sweep) {
		let f = c.hits.first().map_or(Fault::Eio, |h| h.f);
		plans = (0..ops).map(|op| FaultAt { op, fault: f }).collect();
		stats::named("sweep");
	}
	for p in plans {
		let (o, d) = run(vec![p]);
		if let Some(v) = judge(&o, &d) {
			return Ok(vec![v]);
		}
	}
	Ok(Vec::new())
}

// ------------------------------------------------------------------------------------------------
// a failed save can be repeated

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Attempt {
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub hits: Vec<Hit>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub room: Option<u32>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub limit: Option<u32>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Retry {
	pub s: Subject,
	pub act: Act,
	pub attempts: Vec<Attempt>,
}

pub fn gen_retry(r: &mut Rng) -> Retry {
	let s = gen_subject(r, 150, 1200, false);
	let fmt = build_base(&s.base).map_or(Fmt::Mp3, |x| x.1);
	let g = HistGen { big: 1200, removes: 150, resaves: 150, ..HistGen::default() };
	let act = loop {
		let mut a = gen_act(r, &g, fmt);
		match &mut a {
			Act::Save { via, .. } | Act::Edit { via, .. } | Act::Remove { via, .. } => *via = *r.pick(&[Via::Tag, Via::File, Via::Tagged, Via::Bound, Via::Bound]),
			_ => {},
		}
		break a;
	};
	Retry {
		s,
		act,
		attempts: (0..1 + r.below(3))
			.map(|_| {
				let mut a = Attempt {
					hits: Vec::new(),
					room: None,
					noise: if r.chance(1, 6) { Some(gen_noise(r)) } else { None },
					limit: None,
				};
				match r.below(8) {
					0 => a.room = Some(r.size(3000, &[0, 1]) as u32),
					1 => a.limit = Some(r.size(2000, &[0, 1]) as u32),
					_ => {
						for _ in 0..1 + r.below(2) {
							let f = hard(r);
							a.hits.push(Hit { at: r.below(65536) as u32, f });
						}
					},
				}
				a
			})
			.collect(),
	}
}

/// What a program holds in memory while it tries to save
enum Held {
	Tag(AnyTag),
	File(AnyFile),
	Tagged(TaggedFile),
	Bound(BoundTaggedFile<Shared>),
	Removal(Kind),
}

impl Held {
	fn prepare(act: &Act, fmt: Fmt, disk: &Shared) -> Result<Option<Self>, AnyErr> {
		let po = POpts::default().get();
		let via = match act {
			Act::Remove { kind, via: Via::Tag } => return Ok(Some(Held::Removal(*kind))),
			Act::Remove { via, .. } => *via,
			_ => via_of(act),
		};
		let mut h = match via {
			Via::Tag => match act {
				Act::Save { tag, .. } => return Ok(Some(Held::Tag(tag.build()))),
				Act::Edit { kind, title, .. } => {
					let f = AnyFile::read(fmt, &mut disk.clone(), po)?;
					let Some(mut t) = f.get(*kind) else { return Ok(None) };
					t.set_title(title.get());
					return Ok(Some(Held::Tag(t)));
				},
				_ => return Ok(None),
			},
			Via::File => Held::File(AnyFile::read(fmt, &mut disk.clone(), po)?),
			Via::Tagged => Held::Tagged(Probe::with_file_type(disk.clone(), file_type(fmt)).options(po).read()?),
			Via::Bound => Held::Bound(Probe::with_file_type(disk.clone(), file_type(fmt)).options(po).read_bound()?),
		};
		match act {
			Act::Save { tag, .. } => {
				let t = tag.build();
				match &mut h {
					Held::File(f) => {
						if !f.set(t.concrete()) {
							return Ok(None);
						}
					},
					Held::Tagged(f) => drop(f.insert_tag(t.to_generic())),
					Held::Bound(f) => drop(f.insert_tag(t.to_generic())),
					_ => {},
				}
			},
			Act::Edit { kind, title, .. } => {
				let Some(ty) = kind_type(*kind) else { return Ok(None) };
				match &mut h {
					Held::File(f) => {
						let Some(mut t) = f.get(*kind) else { return Ok(None) };
						t.set_title(title.get());
						if !f.set(t) {
							return Ok(None);
						}
					},
					Held::Tagged(f) => {
						let Some(t) = f.tag_mut(ty) else { return Ok(None) };
						t.set_title(title.get());
					},
					Held::Bound(f) => {
						let Some(t) = f.tag_mut(ty) else { return Ok(None) };
						t.set_title(title.get());
					},
					_ => {},
				}
			},
			// saved when it holds nothing anymore
			Act::Remove { kind, .. } => {
				let Some(ty) = kind_type(*kind) else { return Ok(None) };
				match &mut h {
					Held::File(f) => {
						let Some(mut t) = f.get(*kind) else { return Ok(None) };
						t.clear();
						if !f.set(t) {
							return Ok(None);
						}
					},
					Held::Tagged(f) => match f.tag_mut(ty) {
						Some(t) => t.clear(),
						None => drop(f.insert_tag(Tag::new(ty))),
					},
					Held::Bound(f) => match f.tag_mut(ty) {
						Some(t) => t.clear(),
						None => drop(f.insert_tag(Tag::new(ty))),
					},
					_ => {},
				}
			},
			Act::Resave { .. } => {},
		}
		Ok(Some(h))
	}

	fn canon(&self) -> String {
		match self {
			Held::Tag(t) => format!("{:?} {:?}", t.kind(), t.canon()),
			Held::File(f) => format!("{:?}", f.reading()),
			Held::Tagged(f) => format!("{:?}", canon_tagged(f)),
			Held::Bound(f) => {
				let mut s = format!("{:?} {:?}", f.file_type(), f.properties());
				for t in f.tags() {
					s.push_str(&format!(" {:?} {:?}", t.tag_type(), crate::tags::canon_generic(t)));
				}
				s
			},
			Held::Removal(k) => format!("{k:?}"),
		}
	}

	fn save(&mut self, disk: &Shared, o: WOpts) -> Result<(), AnyErr> {
		let mut d = disk.clone();
		match self {
			Held::Tag(t) => {
				d.seek(SeekFrom::Start(0))?;
				t.save_to(&mut d, o.get())?;
			},
			Held::File(f) => {
				d.seek(SeekFrom::Start(0))?;
				f.save_to(&mut d, o.get())?;
			},
			Held::Tagged(f) => f.save_to(&mut d, o.get())?,
			Held::Bound(f) => f.save(o.get())?,
			Held::Removal(k) => {
				d.seek(SeekFrom::Start(0))?;
				kind_type(*k).ok_or(AnyErr("no such type".into()))?.remove_from(&mut d, o.get())?;
			},
		}
		Ok(())
	}
}

pub fn exec_retry(c: &Retry, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let (data, fmt) = c.s.build().ok_or("no such base")?;
	stats::named(&format!("fmt.{}", fmt.name()));
	let wo = match &c.act {
		Act::Save { o, .. } | Act::Edit { o, .. } | Act::Resave { o, .. } => *o,
		Act::Remove { .. } => WOpts::default(),
	};
	let what = describe_short(&c.act);
	let fresh = |data: &[u8]| {
		let mut d = SimDisk::new(data.to_vec());
		d.budget = op_budget(data.len()) * 4;
		Shared::new(d)
	};
	let prepare = |disk: &Shared| outcome(catch(|| Held::prepare(&c.act, fmt, disk)));
	// what an undisturbed save gives
	let disk = fresh(&data);
	let (o, h) = prepare(&disk);
	let Some(Some(mut h)) = h else {
		stats::named(if o.ok() { "inapplicable" } else { "unreadable" });
		ctx.cut += 1;
		return Ok(Vec::new());
	};
	disk.0.borrow_mut().rearm(Plan::none());
	let o0 = outcome(catch(|| h.save(&disk, wo))).0;
	let after0 = h.canon();
	let (want, ops) = {
		let d = disk.0.borrow();
		(d.data.clone(), d.ops.get())
	};
	ctx.sim(&disk.0.borrow(), false);
	drop(h);
	if !o0.ok() {
		stats::named("clean.refused");
		ctx.cut += 1;
		return Ok(Vec::new());
	}
	// the same with failures in between
	let disk = fresh(&data);
	let (_, h) = prepare(&disk);
	let Some(Some(mut h)) = h else { return Err("preparation differs".into()) };
	let before = h.canon();
	let mut failed = 0;
	for (i, a) in c.attempts.iter().enumerate() {
		disk.0.borrow_mut().rearm(
			Step {
				hits: a.hits.clone(),
				room: a.room,
				noise: a.noise,
				..Step::clean(c.act.clone())
			}
			.plan(data.len() as u64, ops, 0),
		);
		disk.0.borrow_mut().budget = op_budget(data.len()) * 40;
		let o = outcome(catch(|| with_limit(a.limit, || h.save(&disk, wo)))).0;
		let mut d = disk.0.borrow_mut();
		let nontrivial = d.hard_count() > 0 || d.enospc_fired > 0;
		ctx.sim(&d, nontrivial);
		match &o {
			Outcome::Panic(p) => return Ok(vec![viol("panic under fault", format!("{} {what}: {p}", fmt.name()))]),
			Outcome::Budget => return Ok(vec![viol("no termination", format!("{} {what}", fmt.name()))]),
			Outcome::Crash => return Err("crash without a plan".into()),
			Outcome::Ok => {
				stats::named("attempt.ok");
				if d.data != want {
					return Ok(vec![viol(
						"retry differs",
						format!("{} {what}: acknowledged attempt {i}, {}", fmt.name(), crate::dissect::diff(&want, &d.data)),
					)]);
				}
				return Ok(Vec::new());
			},
			Outcome::Err(e) => {
				stats::named("attempt.failed");
				failed += 1;
				if d.data != data {
					d.data = data.clone();
					stats::named("restored");
				}
				drop(d);
				let now = h.canon();
				if now != before {
					return Ok(vec![viol(
						"memory changed by failed save",
						format!("{} {what}, attempt {i} ({e}): {before} -> {now}", fmt.name()),
					)]);
				}
			},
		}
	}
	if failed == 0 {
		return Ok(Vec::new());
	}
	// faults are over: the next attempt must do all of it
	disk.0.borrow_mut().rearm(Plan::none());
	disk.0.borrow_mut().budget = op_budget(data.len()) * 4;
	let o = outcome(catch(|| h.save(&disk, wo))).0;
	ctx.sim(&disk.0.borrow(), true);
	if !o.ok() {
		return Ok(vec![viol("retry fails", format!("{} {what}: {o:?} after {failed} failed attempts", fmt.name()))]);
	}
	let got = disk.0.borrow().data.clone();
	if got != want {
		return Ok(vec![viol(
			"retry differs",
			format!("{} {what}: after {failed} failed attempts {}", fmt.name(), crate::dissect::diff(&want, &got)),
		)]);
	}
	if h.canon() != after0 {
		return Ok(vec![viol("memory differs after retry", format!("{} {what}: {after0} / {}", fmt.name(), h.canon()))]);
	}
	stats::named("retried");
	Ok(Vec::new())
}
