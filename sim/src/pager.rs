//! ogg_pager against a list of packets as reference model, over disturbed streams (C16).

use crate::disk::{Fault, FaultAt, Noise, Plan, SimDisk};
use crate::dissect::page_at;
use crate::engine::{Hit, Outcome, Violation, op_budget, outcome, viol};
use crate::hist::{gen_fault, gen_noise};
use crate::media::ogg_pages;
use crate::prop::Ctx;
use crate::rng::{Rng, mix};
use crate::run::catch;
use crate::stats;
use ogg_pager::{Packets, Page};
use serde::{Deserialize, Serialize};
use std::io::{Seek, SeekFrom};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum POp {
	Set { idx: u32, len: u32 },
	/// write the packets out and read them back
	Cycle { noise: Option<Noise> },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pager {
	/// sizes of the packets of the stream that is read
	pub packets: Vec<u32>,
	/// how the stream is laid out
	pub segs: u8,
	pub per_page: bool,
	/// the stream ends this many bytes early
	#[serde(default)]
	pub cut: u32,
	/// bytes before the stream
	#[serde(default)]
	pub offset: u32,
	pub count: i32,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub ops: Vec<POp>,
	pub serial: u32,
	pub gp: u64,
	pub flags: u8,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub rhits: Vec<Hit>,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub whits: Vec<Hit>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub room: Option<u32>,
}

fn size(r: &mut Rng) -> u32 {
	if r.chance(1, 12) {
		return (8160 * (1 + r.below(4)) + r.below(5)).saturating_sub(2) as u32;
	}
	r.size(2500, &[0, 1, 254, 255, 256, 509, 510, 511, 765, 8159, 8160, 8161]) as u32
}

fn gen_whit(r: &mut Rng) -> Hit {
	loop {
		match gen_fault(r) {
			Fault::Crash(_) => {},
			f => return Hit { at: r.below(65536) as u32, f },
		}
	}
}

pub fn gen_pager(r: &mut Rng) -> Pager {
	let n = 1 + r.below(8);
	Pager {
		packets: (0..n).map(|_| size(r)).collect(),
		segs: *r.pick(&[1, 2, 3, 17, 32, 33, 254, 255]),
		per_page: r.chance(1, 3),
		cut: if r.chance(1, 8) { r.size(3000, &[1, 26, 27]) as u32 } else { 0 },
		offset: if r.chance(1, 5) { r.below(3000) as u32 } else { 0 },
		count: if r.chance(1, 2) { -1 } else { r.below(n + 2) as i32 },
		ops: (0..r.below(5))
			.map(|_| {
				if r.chance(2, 3) {
					POp::Set { idx: r.below(n + 1) as u32, len: size(r) }
				} else {
					POp::Cycle { noise: if r.chance(1, 2) { Some(gen_noise(r)) } else { None } }
				}
			})
			.collect(),
		serial: r.u64() as u32,
		gp: *r.pick(&[0, 1, 0x7FFF_FFFF_FFFF_FFFF, 0x1_0000_0000]),
		flags: *r.pick(&[0, 2, 4, 6]),
		noise: if r.chance(1, 2) { Some(gen_noise(r)) } else { None },
		rhits: (0..r.below(3)).map(|_| gen_whit(r)).collect(),
		whits: (0..r.below(3)).map(|_| gen_whit(r)).collect(),
		room: if r.chance(1, 6) { Some(r.size(20_000, &[0, 1, 27]) as u32) } else { None },
	}
}

fn content(seed: u64, n: u32) -> Vec<u8> {
	Rng::new(mix(&[0x9A6E, seed])).bytes(n.min(200_000) as usize)
}

fn list(p: &Packets) -> Vec<Vec<u8>> {
	p.iter().map(<[u8]>::to_vec).collect()
}

fn sizes(p: &[Vec<u8>]) -> Vec<usize> {
	p.iter().map(Vec::len).collect()
}

fn read(data: &[u8], at: u64, count: i32, plan: Plan, ctx: &mut Ctx) -> (Outcome, Option<Packets>, SimDisk) {
	let mut d = SimDisk::with_plan(data.to_vec(), plan);
	d.budget = 40 * op_budget(data.len());
	let r = catch(|| -> Result<Packets, ogg_pager::PageError> {
		d.seek(SeekFrom::Start(at))?;
		if count == -1 { Packets::read(&mut d) } else { Packets::read_count(&mut d, count as isize) }
	});
	let (o, p) = outcome(r);
	let n = d.hard_count() > 0 || d.soft_fired.get() > 0;
	ctx.sim(&d, n);
	(o, p, d)
}

fn died(o: &Outcome) -> Option<Violation> {
	match o {
		Outcome::Panic(p) => Some(viol("panic", p.clone())),
		Outcome::Budget => Some(viol("no termination", "")),
		_ => None,
	}
}

/// The pages of a written stream: well-formed, and holding the packets of the model
fn judge(data: &[u8], model: &[Vec<u8>], c: &Pager, pages: usize) -> Option<Violation> {
	let bad = |s: String| Some(viol("malformed pages", s));
	let mut at = 0;
	let mut seq = 0;
	let mut got: Vec<Vec<u8>> = Vec::new();
	let mut open: Option<Vec<u8>> = None;
	while at < data.len() {
		let Some(p) = page_at(data, at) else {
			return bad(format!("no page at {at}"));
		};
		let last = at + p.len == data.len();
		if !p.crc_ok {
			return bad(format!("checksum of page {seq}"));
		}
		if p.seq != seq || p.serial != c.serial {
			return bad(format!("page {seq} is numbered {} in stream {}", p.seq, p.serial));
		}
		if (p.flags & 2 != 0) != (seq == 0 && c.flags & 2 != 0) || (p.flags & 4 != 0) != (last && c.flags & 4 != 0) {
			return bad(format!("flags {} of page {seq}", p.flags));
		}
		if (p.flags & 1 != 0) != open.is_some() {
			return bad(format!("page {seq}: continued flag {}, packet open: {}", p.flags & 1, open.is_some()));
		}
		let mut off = 0;
		let mut ends = false;
		for l in p.lacing {
			let b = &p.body[off..off + *l as usize];
			off += *l as usize;
			open.get_or_insert_with(Vec::new).extend_from_slice(b);
			if *l < 255 {
				got.push(open.take().unwrap_or_default());
				ends = true;
			}
		}
		if ends != (p.gp != u64::MAX) || (ends && p.gp != c.gp) {
			return bad(format!("page {seq}: a packet ends: {ends}, granule position {}", p.gp as i64));
		}
		// and the reader makes the same of it
		let mut d = SimDisk::new(data[at..at + p.len].to_vec());
		match Page::read(&mut d) {
			Ok(mut g) => {
				let same = g.as_bytes() == data[at..at + p.len] && g.content() == p.body && g.header().content_size() == p.body.len();
				let sum = g.header().checksum();
				g.gen_crc();
				if !same || g.header().checksum() != sum || g.header().header_type_flag() != p.flags || g.header().abgp != p.gp {
					return bad(format!("page {seq} is read differently"));
				}
			},
			Err(e) => return bad(format!("page {seq} cannot be read: {e:?}")),
		}
		at += p.len;
		seq += 1;
	}
	if open.is_some() || got != model {
		return Some(viol("packets changed", format!("wrote {:?}, the pages hold {:?}", sizes(model), sizes(&got))));
	}
	if pages != seq as usize {
		return bad(format!("{pages} pages reported, {seq} written"));
	}
	None
}

pub fn exec_pager(c: &Pager, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let all: Vec<Vec<u8>> = c.packets.iter().enumerate().map(|(i, n)| content(i as u64, *n)).collect();
	let flat: Vec<(Vec<u8>, u64)> = all.iter().map(|p| (p.clone(), 5)).collect();
	let groups: Vec<Vec<(Vec<u8>, u64)>> = if c.per_page { flat.into_iter().map(|p| vec![p]).collect() } else { vec![flat] };
	let mut data = vec![0xAA; c.offset.min(1 << 16) as usize];
	let at = data.len() as u64;
	for p in ogg_pages(&groups, 77, usize::from(c.segs), true, true) {
		data.extend_from_slice(&p.bytes());
	}
	let whole = c.cut == 0;
	data.truncate(data.len().saturating_sub(c.cut as usize).max(at as usize));
	let (o, p, d) = read(&data, at, c.count, Plan { noise: c.noise, ..Plan::default() }, ctx);
	if let Some(v) = died(&o) {
		return Ok(vec![v]);
	}
	let ops = d.ops.get();
	let want: &[Vec<u8>] = if c.count == -1 { &all } else { &all[..(c.count.max(0) as usize).min(all.len())] };
	let enough = c.count <= all.len() as i32;
	let Some(mut p) = p else {
		if whole && enough {
			return Ok(vec![viol("unreadable stream", format!("{o:?}: packets {:?}, {} wanted", c.packets, c.count))]);
		}
		stats::named("read.refused");
		return Ok(Vec::new());
	};
	if whole && !enough {
		return Ok(vec![viol("packets missing", format!("{} packets asked for, {} there, {} given", c.count, all.len(), p.len()))]);
	}
	let got = list(&p);
	if whole && got != want || !all.starts_with(&got) {
		return Ok(vec![viol("wrong packets", format!("the stream holds {:?}, read {:?}", sizes(want), sizes(&got)))]);
	}
	stats::named("read.ok");
	// failed reads
	for h in &c.rhits {
		let (o, q, d) = read(
			&data,
			at,
			c.count,
			Plan { noise: c.noise, faults: vec![FaultAt { op: h.op(ops), fault: h.f }], ..Plan::default() },
			ctx,
		);
		if let Some(v) = died(&o) {
			return Ok(vec![v]);
		}
		if let Some(q) = q {
			let lied = d.hard_fired.borrow().iter().any(|(_, _, f)| *f == Fault::FakeEof);
			let l = list(&q);
			if l != got && !lied || !all.starts_with(&l) {
				return Ok(vec![viol(
					"wrong packets despite failed read",
					format!("{:?}: {:?} instead of {:?}", d.hard_fired.borrow(), sizes(&l), sizes(&got)),
				)]);
			}
		}
	}
	// a history of changes
	let mut model = got;
	for (i, op) in c.ops.iter().enumerate() {
		match op {
			POp::Set { idx, len } => {
				let new = content(1000 + i as u64, *len);
				let ok = p.set(*idx as usize, new.clone());
				if ok != ((*idx as usize) < model.len()) {
					return Ok(vec![viol("set", format!("set({idx}) of {} packets says {ok}", model.len()))]);
				}
				if ok {
					model[*idx as usize] = new;
				}
			},
			POp::Cycle { noise } => {
				let mut d = SimDisk::with_plan(Vec::new(), Plan { noise: *noise, ..Plan::default() });
				let r = outcome(catch(|| p.write_to(&mut d, c.serial, c.gp, c.flags)));
				ctx.sim(&d, d.soft_fired.get() > 0);
				if let Some(v) = died(&r.0) {
					return Ok(vec![v]);
				}
				if !r.0.ok() {
					return Ok(vec![viol("write fails", format!("{:?}", r.0))]);
				}
				let data = d.data;
				let (o, q, _) = read(&data, 0, -1, Plan { noise: *noise, ..Plan::default() }, ctx);
				match q {
					Some(q) => p = q,
					None => return Ok(vec![viol("unreadable stream", format!("what was written: {o:?}"))]),
				}
			},
		}
		let l = list(&p);
		if l != model || p.len() != model.len() || p.is_empty() != model.is_empty() {
			return Ok(vec![viol("packets changed", format!("{op:?}: expected {:?}, there are {:?}", sizes(&model), sizes(&l)))]);
		}
		for (k, m) in model.iter().enumerate() {
			if p.get(k) != Some(m.as_slice()) {
				return Ok(vec![viol("packets changed", format!("packet {k} after {op:?}"))]);
			}
		}
		if p.get(model.len()).is_some() {
			return Ok(vec![viol("packets changed", "a packet beyond the end")]);
		}
	}
	// and out again
	let write = |plan: Plan, ctx: &mut Ctx| {
		let mut d = SimDisk::with_plan(Vec::new(), plan);
		d.budget = 40 * op_budget(1 << 20);
		let r = outcome(catch(|| p.write_to(&mut d, c.serial, c.gp, c.flags)));
		let n = d.hard_count() > 0 || d.soft_fired.get() > 0 || d.enospc_fired > 0;
		ctx.sim(&d, n);
		(r.0, r.1, d)
	};
	let (o, n, d) = write(Plan { noise: c.noise, ..Plan::default() }, ctx);
	if let Some(v) = died(&o) {
		return Ok(vec![v]);
	}
	let Some(n) = n else {
		return Ok(vec![viol("write fails", format!("{o:?}"))]);
	};
	if let Some(v) = judge(&d.data, &model, c, n) {
		return Ok(vec![v]);
	}
	let wops = d.ops.get();
	let mut plans: Vec<Plan> = c
		.whits
		.iter()
		.map(|h| Plan { noise: c.noise, faults: vec![FaultAt { op: h.op(wops), fault: h.f }], ..Plan::default() })
		.collect();
	if let Some(r) = c.room {
		plans.push(Plan { noise: c.noise, capacity: Some(u64::from(r)), ..Plan::default() });
	}
	for plan in plans {
		let (o, _, e) = write(plan, ctx);
		if let Some(v) = died(&o) {
			return Ok(vec![v]);
		}
		if o.ok() && e.data != d.data {
			return Ok(vec![viol("acknowledged despite write fault", format!("{:?}: {} of {} bytes", e.hard_fired.borrow(), e.data.len(), d.data.len()))]);
		}
		if !d.data.starts_with(&e.data) {
			return Ok(vec![viol("wrong bytes written before the failure", crate::dissect::diff(&d.data, &e.data))]);
		}
	}
	Ok(Vec::new())
}
