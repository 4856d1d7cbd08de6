//! Histories: a sequence of saves, edits and removals on one file, each under its own fault plan, judged
//! against the model after every step.

use crate::disk::{Fault, Noise, SimDisk};
use crate::dissect::{Kind, dissect};
use crate::engine::*;
use crate::files::{AnyFile, POpts, WOpts};
use crate::media::{Base, Fmt, gen_base};
use crate::prop::Ctx;
use crate::rng::Rng;
use crate::stats;
use crate::tags::{AnyTag, GenOpts, TagSpec, Txt, gen_nonempty, kind_type, readable_only, writable};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Hist {
	pub base: Base,
	pub steps: Vec<Step>,
}

#[derive(Clone, Copy)]
pub struct HistGen {
	pub steps: u64,
	/// per mille of steps with a hard fault plan
	pub faults: u64,
	/// per mille of steps with delivery noise
	pub noise: u64,
	/// per mille of cases that start from a real file
	pub assets: u64,
	pub removes: u64,
	pub resaves: u64,
	pub big: u32,
	pub repeat: u64,
	/// per mille of cases that start from a file tagged by another program
	pub foreign: u64,
}

impl Default for HistGen {
	fn default() -> Self {
		Self {
			steps: 5,
			faults: 250,
			noise: 300,
			assets: 120,
			removes: 180,
			resaves: 120,
			big: 3000,
			repeat: 0,
			foreign: 100,
		}
	}
}

pub fn gen_noise(r: &mut Rng) -> Noise {
	Noise {
		seed: r.below(1 << 20),
		short: *r.pick(&[50, 300, 700, 1000]),
		eintr: *r.pick(&[0, 50, 200]),
		max: *r.pick(&[1, 2, 3, 7, 100, 4096]),
	}
}

pub fn gen_fault(r: &mut Rng) -> Fault {
	match r.below(12) {
		0..=3 => Fault::Eio,
		4 => Fault::Timeout,
		5 => Fault::Denied,
		6 => Fault::Torn(r.size(20_000, &[0, 1]) as u32),
		7 => Fault::Zero,
		8 => Fault::Gone,
		9 => Fault::FakeEof,
		_ => Fault::Crash(r.size(20_000, &[0, 1]) as u32),
	}
}

pub fn gen_wopts(r: &mut Rng, k: Option<Kind>) -> WOpts {
	let mut o = WOpts::default();
	if r.chance(1, 2) {
		o.pad = Some(*r.pick(&[0, 1, 4, 7, 8, 9, 16, 100, 512, 1024, 2048, 5000]));
	}
	if r.chance(1, 10) {
		o.lower_id3 = true;
	}
	if k == Some(Kind::Id3v2) && r.chance(1, 6) {
		o.v23 = true;
	}
	o
}

pub fn gen_any_base(r: &mut Rng, fmts: &[Fmt], assets: u64, foreign: u64) -> (Base, Fmt) {
	if r.below(1000) < assets {
		let names = crate::assets::names();
		for _ in 0..30 {
			let b = Base::Asset {
				name: r.pick(&names).clone(),
			};
			if let Some((_, f)) = build_base(&b) {
				if fmts.contains(&f) {
					return (b, f);
				}
			}
		}
	}
	if r.below(1000) < foreign {
		let f = crate::encode::gen_foreign(r, fmts, 300);
		let fmt = f.fmt;
		return (Base::Foreign { f: Box::new(f) }, fmt);
	}
	let f = *r.pick(fmts);
	(gen_base(r, f), f)
}

/// The same tag with one of its values a little longer or shorter
pub fn tweak(r: &mut Rng, t: &TagSpec) -> Option<TagSpec> {
	fn sizes<'a>(v: &'a mut serde_json::Value, out: &mut Vec<&'a mut serde_json::Value>) {
		match v {
			serde_json::Value::Array(a) => a.iter_mut().for_each(|v| sizes(v, out)),
			serde_json::Value::Object(o) => {
				let sized = o.contains_key("g") || o.contains_key("b");
				for (k, v) in o.iter_mut() {
					if k == "n" && sized && v.is_u64() {
						out.push(v);
					} else {
						sizes(v, out);
					}
				}
			},
			_ => {},
		}
	}
	let mut v = serde_json::to_value(t).ok()?;
	let mut s = Vec::new();
	sizes(&mut v, &mut s);
	if s.is_empty() {
		return None;
	}
	let i = r.usize(s.len());
	let n = s[i].as_u64()?;
	let most = if r.chance(3, 4) { 12 } else { 300 };
	let by = 1 + r.below(most);
	let m = if t.kind() == Kind::Id3v1 || r.chance(2, 3) { n.saturating_sub(by).max(1) } else { n + by };
	*s[i] = m.into();
	serde_json::from_value(v).ok()
}

pub fn gen_title(r: &mut Rng, big: u32) -> Txt {
	Txt::Gen {
		g: r.below(1 << 20),
		n: 1 + r.size(u64::from(big), &[1, 30, 127, 128, 255, 256, 1024]) as u32,
		c: 0,
	}
}

pub fn gen_via(r: &mut Rng) -> Via {
	match r.below(10) {
		0..=5 => Via::Tag,
		6 | 7 => Via::File,
		8 => Via::Tagged,
		_ => Via::Bound,
	}
}

pub fn gen_act(r: &mut Rng, g: &HistGen, fmt: Fmt) -> Act {
	let kind = *r.pick(writable(fmt));
	let roll = r.below(1000);
	if roll < g.removes {
		let mut ks = writable(fmt).to_vec();
		ks.extend(readable_only(fmt));
		return Act::Remove {
			kind: *r.pick(&ks),
			via: if r.chance(2, 3) { Via::Tag } else { Via::File },
		};
	}
	if roll < g.removes + g.resaves {
		return Act::Resave {
			o: gen_wopts(r, None),
			via: *r.pick(&[Via::File, Via::File, Via::Tagged, Via::Bound]),
		};
	}
	if roll < g.removes + g.resaves + 150 {
		return Act::Edit {
			kind,
			title: if kind == Kind::Id3v1 {
				Txt::Gen {
					g: r.below(1 << 20),
					n: 1 + r.below(30) as u32,
					c: 0,
				}
			} else {
				gen_title(r, g.big)
			},
			o: gen_wopts(r, None),
			via: gen_via(r),
		};
	}
	let o = gen_wopts(r, Some(kind));
	let big = if r.chance(1, 30) { g.big * 30 } else { g.big };
	Act::Save {
		tag: gen_nonempty(r, kind, &GenOpts { v23: o.v23, big }),
		o,
		via: gen_via(r),
	}
}

pub fn gen_hist(r: &mut Rng, g: &HistGen, fmts: &[Fmt]) -> Hist {
	let (base, fmt) = gen_any_base(r, fmts, g.assets, g.foreign);
	let n = 1 + r.below(g.steps);
	let mut steps: Vec<Step> = Vec::new();
	for _ in 0..n {
		let act = match steps.last() {
			Some(s) if r.below(1000) < g.repeat => s.act.clone(),
			Some(Step { act: Act::Save { tag, o, via }, .. }) if r.chance(1, 6) => match tweak(r, tag) {
				Some(tag) => Act::Save { tag, o: *o, via: *via },
				None => gen_act(r, g, fmt),
			},
			_ => gen_act(r, g, fmt),
		};
		let mut s = Step::clean(act);
		if r.below(1000) < g.noise {
			s.noise = Some(gen_noise(r));
		}
		if r.below(1000) < g.faults {
			match r.below(8) {
				0 => s.room = Some(r.size(4000, &[0, 1]) as u32),
				1 => s.crash = Some(r.below(65536) as u32),
				_ => {
					for _ in 0..1 + r.below(2) {
						s.hits.push(Hit {
							at: r.below(65536) as u32,
							f: gen_fault(r),
						});
					}
				},
			}
		}
		steps.push(s);
	}
	Hist { base, steps }
}

/// The formats of the histories; those with the more intricate writers more often
pub fn hist_fmts() -> &'static [Fmt] {
	use Fmt::*;
	&[
		Mp3, Mp3, Aac, Ape, Wv, Mpc7, Mpc8, Wav, Wav, Aiff, Aiff, Flac, Flac, OggVorbis, OggVorbis, OggOpus, OggSpeex, Mp4, Mp4, Mp4,
		Mp4,
	]
}

/// The kinds of tag a read-modify-write through `via` writes back
fn rewritten(m: &Model, fmt: Fmt) -> Vec<Kind> {
	writable(fmt).iter().copied().filter(|k| m.tags.contains_key(k)).collect()
}

fn is_ogg(f: Fmt) -> bool {
	matches!(f, Fmt::OggVorbis | Fmt::OggOpus | Fmt::OggSpeex)
}

/// A saved Vorbis comment keeps the vendor string the file already has
fn keep_vendor(m: &Model, mut c: Vec<String>) -> Vec<String> {
	if let (Some(old), Some(v)) = (m.tags.get(&Kind::Vorbis).and_then(|t| t.first()), c.first_mut()) {
		*v = old.clone();
	}
	c
}

/// Put a tag into the model as a save stores it
fn put(m: &Model, n: &mut Model, t: &AnyTag, keep_pictures: bool, v23: bool) {
	let Some(k) = t.kind() else { return };
	let generic = t;
	let mut t = t.clone().concrete();
	if let AnyTag::Id3v2(t) = &mut t {
		// frames of ID3v2.2 without an equivalent
		t.retain(|f| f.id_str().len() == 4);
		let mut f = *t.flags();
		if v23 {
			let all: Vec<_> = t.iter().cloned().collect();
			t.retain(|_| false);
			for f in crate::tags::all_for_v23(all, true) {
				t.insert(f);
			}
			// these came with ID3v2.4
			f.crc = false;
			f.footer = false;
			f.restrictions = None;
		}
		if iff(m.fmt) {
			f.footer = false;
		}
		t.set_flags(f);
	}
	let t = &t;
	// a generic tag's encoder is written as a comment; the vendor string is that of the file
	let canon = || -> Vec<String> {
		let mut c = t.canon();
		if let (AnyTag::Generic(g), Kind::Vorbis) = (generic, k) {
			let mut rest = g.clone();
			rest.retain(|i| i.key() != lofty::tag::ItemKey::EncoderSoftware);
			c.truncate(1);
			c.extend(AnyTag::Generic(rest).concrete().canon().into_iter().skip(1));
			c.extend(
				g.get_strings(lofty::tag::ItemKey::EncoderSoftware)
					.filter(|v| !v.is_empty())
					.map(|v| crate::tags::abbr(format!("ENCODER={v:?}"))),
			);
		}
		c
	};
	if k == Kind::Vorbis && m.fmt == Fmt::Flac {
		// pictures are blocks of their own, and a comment block without comments is not written
		let (pics, rest): (Vec<String>, Vec<String>) = canon().into_iter().partition(|l| l.starts_with("pic "));
		let mut pics = pics;
		if keep_pictures {
			pics.extend(m.extra.iter().cloned());
		}
		n.extra = pics;
		// an empty value is not written, but it brings the block about
		let empty_encoder = matches!(generic, AnyTag::Generic(g) if g.get_strings(lofty::tag::ItemKey::EncoderSoftware).any(str::is_empty));
		if rest.len() > 1 || empty_encoder {
			n.tags.insert(k, keep_vendor(m, rest));
		} else {
			n.tags.remove(&k);
		}
	} else if is_ogg(m.fmt) {
		n.tags.insert(k, keep_vendor(m, canon()));
	} else if t.is_empty() {
		n.tags.remove(&k);
	} else {
		n.tags.insert(k, canon());
		if k == Kind::Id3v2 && matches!(generic, AnyTag::Generic(_)) {
			n.loose.insert(k, t.loose());
		}
	}
}

/// What the model must become when the act is acknowledged. `None`: the act must refuse.
pub fn advance(m: &Model, act: &Act, before: &[u8]) -> Option<(Model, Vec<Kind>)> {
	let fmt = m.fmt;
	let mut n = m.clone();
	let mut touched = Vec::new();
	if let Act::Remove { kind, .. } = act {
		touched.push(*kind);
		n.tags.remove(kind);
		if is_ogg(fmt) {
			// an Ogg stream always has a comment header; the vendor stays
			let v = m.tags.get(kind).map(|v| v.iter().take(1).cloned().collect());
			n.tags.insert(*kind, v.unwrap_or_default());
		}
		if fmt == Fmt::Flac && *kind == Kind::Vorbis {
			n.extra.clear();
		}
		return Some((n, touched));
	}
	let via = via_of(act);
	let mut d = SimDisk::new(before.to_vec());
	let read = AnyFile::read(fmt, &mut d, POpts::default().get()).ok()?;
	match via {
		Via::Tag | Via::File => {
			let (t, k) = match act {
				Act::Save { tag, .. } => {
					let t = tag.build();
					let k = t.kind()?;
					(Some(t), Some(k))
				},
				Act::Edit { kind, title, .. } => {
					let mut t = read.get(*kind)?;
					t.set_title(title.get());
					(Some(t), Some(*kind))
				},
				_ => (None, None),
			};
			if let Some(t) = t {
				put(m, &mut n, &t, via == Via::File, wopts(act).v23);
			}
			if via == Via::File {
				touched = rewritten(m, fmt);
			}
			touched.extend(k.filter(|k| !touched.contains(k)));
		},
		_ => {
			use lofty::file::TaggedFileExt;
			let mut f = read.into_tagged();
			match act {
				Act::Save { tag, .. } => {
					f.insert_tag(tag.build().to_generic());
				},
				Act::Edit { kind, title, .. } => {
					let t = f.tag_mut(kind_type(*kind)?)?;
					lofty::tag::Accessor::set_title(t, title.get());
				},
				_ => {},
			}
			for t in f.tags() {
				let Some(k) = crate::tags::type_kind(t.tag_type()) else { continue };
				if !writable(fmt).contains(&k) {
					continue;
				}
				touched.push(k);
				put(m, &mut n, &AnyTag::Generic(t.clone()), false, wopts(act).v23);
			}
		},
	}
	if touched.contains(&Kind::Id3v2)
		&& let Some(l) = n.tags.get_mut(&Kind::Id3v2)
	{
		l.retain(|l| l.split(' ').next().is_some_and(|id| id.len() == 4));
		if iff(fmt) {
			// a chunk has no place for a footer
			l.iter_mut().filter(|l| l.starts_with("HEAD ")).for_each(|l| *l = l.replace("footer=true", "footer=false"));
			l.retain(|l| l != "HEAD crc=false footer=false exp=false None");
		}
		if l.iter().all(|l| l.starts_with("HEAD ")) {
			n.tags.remove(&Kind::Id3v2);
		}
	}
	if touched.contains(&Kind::Ape) && n.tags.get(&Kind::Ape).is_some_and(|l| l.iter().all(|l| l.starts_with("HEAD "))) {
		n.tags.remove(&Kind::Ape);
	}
	if fmt == Fmt::Flac && via == Via::File && touched.contains(&Kind::Vorbis) && n.tags.get(&Kind::Vorbis).is_some_and(|l| l.len() < 2) {
		n.tags.remove(&Kind::Vorbis);
	}
	Some((n, touched))
}

/// Judge a history. All violations of the first step that shows any.
pub fn exec_hist(h: &Hist, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let (data, fmt) = build_base(&h.base).ok_or("no such base")?;
	let Some(mut m) = Model::of(&data, fmt) else {
		stats::named("unreadable_base");
		ctx.cut += 1;
		return Ok(Vec::new());
	};
	stats::named(&format!("fmt.{}", fmt.name()));
	let mut data = data;
	let mut last: Option<(Act, Vec<u8>)> = None;
	// what does not end the history
	let mut late = Vec::new();
	for (i, s) in h.steps.iter().enumerate() {
		let ctxs = |v: Vec<Violation>| -> Vec<Violation> {
			v.into_iter()
				.map(|mut x| {
					x.detail = format!("{} step {i} ({}): {}", fmt.name(), describe(&s.act), x.detail);
					x
				})
				.collect()
		};
		// 1. what the call does on a faultless device
		let mut clean = SimDisk::new(data.clone());
		if let Some(p) = s.start {
			clean.pos = u64::from(p).min(data.len() as u64);
		}
		let start = clean.pos;
		clean.record_mutations = false;
		let oc = perform(&mut clean, fmt, &s.act);
		ctx.sim(&clean, false);
		let next = advance(&m, &s.act, &data);
		match &oc {
			Outcome::Panic(p) => return Ok(ctxs(vec![viol("panic", p.clone())])),
			Outcome::Budget => return Ok(ctxs(vec![viol("no termination", "the call does not terminate")])),
			Outcome::Crash => return Err("crash without a plan".into()),
			_ => {},
		}
		// 2. the same call under the plan
		let (ops, written) = (clean.ops.get(), clean.written);
		if s.faulty() || s.noise.is_some() {
			let mut d = SimDisk::new(data.clone());
			d.pos = start;
			d.rearm(s.plan(data.len() as u64, ops, written));
			let o = perform_sized(&mut d, fmt, &s.act, clean.data.len());
			let hard = d.hard_fired.borrow().clone();
			ctx.sim(&d, !hard.is_empty() || d.soft_fired.get() > 0 || d.enospc_fired > 0);
			// a device that claims its end too early cannot be told from a short file
			let lied = hard.iter().any(|(_, _, f)| *f == Fault::FakeEof);
			match &o {
				Outcome::Panic(p) => return Ok(ctxs(vec![viol("panic under fault", p.clone())])),
				Outcome::Budget => return Ok(ctxs(vec![viol("no termination", "the call does not terminate under faults")])),
				Outcome::Crash => {
					let r = crash_image(&d.data, fmt);
					if !r.is_empty() {
						return Ok(ctxs(r));
					}
				},
				Outcome::Ok => {
					if oc != Outcome::Ok {
						return Ok(ctxs(vec![viol("fault changes refusal", format!("refused without faults ({oc:?}), acknowledged with {hard:?}"))]));
					}
					if d.data != clean.data && !lied {
						let class = if hard.is_empty() && d.enospc_fired == 0 {
							"delivery changes result"
						} else if d.write_side_fault() {
							"acknowledged despite write fault"
						} else {
							"acknowledged despite read fault"
						};
						return Ok(ctxs(vec![viol(
							class,
							format!("faults {hard:?}: {}", crate::dissect::diff(&clean.data, &d.data)),
						)]));
					}
				},
				Outcome::Err(e) => {
					if hard.is_empty() && d.enospc_fired == 0 && oc == Outcome::Ok {
						return Ok(ctxs(vec![viol("delivery changes result", format!("fails only with short or interrupted transfers: {e}"))]));
					}
					// FLAC files and chunks are changed in place: once that began, a fault leaves them in between
					let began = matches!(fmt, Fmt::Flac | Fmt::Wav | Fmt::Aiff) && d.changes_at_fault.get() != Some(0);
					if !began && !lied && !d.write_side_fault() && matches!(via_of(&s.act), Via::Tag) && d.data != data {
						return Ok(ctxs(vec![viol("modified by failed call", format!("{e}; faults {hard:?}: {}", crate::dissect::diff(&data, &d.data)))]));
					}
				},
			}
		}
		// 3. and the history goes on with the faultless result (retry after restoring the file)
		let e = match &oc {
			Outcome::Ok => None,
			Outcome::Err(e) => Some(e.clone()),
			_ => unreachable!(),
		};
		if let Some(e) = e {
			if clean.data != data && via_of(&s.act) == Via::Tag {
				return Ok(ctxs(vec![viol("modified by refused call", e)]));
			}
			if next.is_some() && !may_refuse(&m, &s.act) {
				return Ok(ctxs(vec![viol("refused", e)]));
			}
			// the history goes on with the file as it was
			stats::named("step.refused");
			continue;
		}
		let Some((mut nm, touched)) = next.clone() else {
			return Ok(ctxs(vec![viol("acknowledged nothing", "an edit of a missing tag was acknowledged")]));
		};
		let bad = check(&nm, &clean.data, &touched);
		if !bad.is_empty() {
			return Ok(ctxs(bad));
		}
		if let Some((a, b)) = &last {
			if *a == s.act && !matches!(a, Act::Remove { .. }) {
				// blocks, chunks and padding may change places once; nothing may grow
				let repeats = 1 + h.steps[..i].iter().rev().take_while(|p| p.act == s.act).count();
				let same = *b == clean.data || (repeats < 3 && b.len() == clean.data.len());
				// the pictures of a comment that is put into a FLAC file are added to those it has
				let adds = fmt == Fmt::Flac && via_of(a) == Via::File && m.extra != nm.extra;
				// an edit that changes the content (one of several values) may take several calls to settle
				let edit = matches!(a, Act::Edit { .. });
				let settled = || {
					let sorted = |d: &[u8]| {
						let r = read_clean(d, fmt, POpts::default()).1;
						r.map(|r| {
							let mut v: Vec<String> = r.tags.into_values().flatten().chain(r.extra).collect();
							v.sort();
							v
						})
					};
					sorted(b) == sorted(&clean.data)
				};
				let bad = if edit { b.len() < clean.data.len() && settled() } else { !same && !adds };
				if bad {
					return Ok(ctxs(vec![viol("not idempotent", format!("the same call again: {} -> {} bytes, {}", b.len(), clean.data.len(), crate::dissect::diff(b, &clean.data)))]));
				}
				stats::named("repeated");
			}
		}
		stats::named(&format!("ack.{}", describe_short(&s.act)));
		ctx.distinct_nontrivial.insert(clean.trace_hash.get());
		let an = dissect(&clean.data, fmt);
		if late.is_empty() && touched.contains(&Kind::Ape) {
			let old = m.anatomy.tags.get(&Kind::Ape);
			let new = an.tags.get(&Kind::Ape).into_iter().flatten();
			if new.filter(|t| !old.is_some_and(|o| o.contains(t))).any(|t| crate::tagcheck::lacks_footer(t)) {
				late = ctxs(vec![viol(NO_FOOTER, "the written APE tag claims to have no footer (bit 30 of its flags)")]);
			}
		}
		nm.anatomy.tags = an.tags;
		if !nm.loose.is_empty() {
			if let (_, Some(r)) = read_clean(&clean.data, fmt, POpts::default()) {
				for k in std::mem::take(&mut nm.loose).keys() {
					nm.tags.insert(*k, r.tags.get(k).cloned().unwrap_or_default());
				}
			}
		}
		m = nm;
		last = Some((s.act.clone(), clean.data.clone()));
		data = clean.data;
	}
	Ok(late)
}

pub const NO_FOOTER: &str = "written APE tag denies its footer";

fn wopts(a: &Act) -> WOpts {
	match a {
		Act::Save { o, .. } | Act::Edit { o, .. } | Act::Resave { o, .. } => o.clone(),
		Act::Remove { .. } => WOpts::default(),
	}
}

fn iff(f: Fmt) -> bool {
	matches!(f, Fmt::Wav | Fmt::Aiff)
}

pub fn via_of(a: &Act) -> Via {
	match a {
		Act::Save { via, .. } | Act::Edit { via, .. } | Act::Resave { via, .. } => *via,
		Act::Remove { .. } => Via::Tag,
	}
}

/// A concrete file that was read with a read-only tag refuses to be saved
fn may_refuse(m: &Model, a: &Act) -> bool {
	via_of(a) == Via::File && readable_only(m.fmt).iter().any(|k| m.tags.contains_key(k))
}

/// After a power loss the file may be anything, but reading it must end in a value or an error
pub fn crash_image(img: &[u8], fmt: Fmt) -> Vec<Violation> {
	for mode in 0..3 {
		let (o, _) = read_clean(img, fmt, POpts { mode, ..POpts::default() });
		match o {
			Outcome::Panic(p) => return vec![viol("panic on crash image", p)],
			Outcome::Budget => return vec![viol("no termination", "reading a crash image does not terminate")],
			_ => {},
		}
	}
	Vec::new()
}

pub fn describe_short(a: &Act) -> String {
	match a {
		Act::Save { tag, via, .. } => format!("save {:?} via {via:?}", tag.kind()),
		Act::Remove { kind, .. } => format!("remove {kind:?}"),
		Act::Edit { kind, via, .. } => format!("edit {kind:?} via {via:?}"),
		Act::Resave { via, .. } => format!("resave via {via:?}"),
	}
}

pub fn describe(a: &Act) -> String {
	describe_short(a)
}

#[allow(dead_code)]
pub fn spec_kind(t: &TagSpec) -> Kind {
	t.kind()
}

#[allow(dead_code)]
pub fn known_type(k: Kind) -> bool {
	kind_type(k).is_some()
}

/// What is wrong with the frames of a history that the library writes by request
pub fn parts(h: &Hist) -> Vec<Violation> {
	for s in &h.steps {
		if let Act::Save { tag: TagSpec::Id3v2 { frames, .. }, o, .. } = &s.act {
			for p in crate::parts::of(frames, true) {
				stats::named(&format!("part.{}", p.id()));
				if let Some(p) = p.problem(o.v23) {
					return vec![viol("form of a frame", p)];
				}
			}
		}
	}
	Vec::new()
}

/// The tags of a history, written to a stream of their own
pub fn dumps(h: &Hist) -> Vec<Violation> {
	let Some((_, fmt)) = build_base(&h.base) else { return Vec::new() };
	for s in &h.steps {
		if let Act::Save { tag, o, .. } = &s.act {
			return crate::dump::compare(fmt, tag, o);
		}
	}
	Vec::new()
}
