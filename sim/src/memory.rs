//! Memory: what a call allocates is bounded by what the stream really holds and by the limit the program
//! set, whatever sizes the stream claims (C13).

use crate::alloc::measure;
use crate::disk::{Noise, SimDisk};
use crate::engine::*;
use crate::files::{AnyFile, POpts, file_type};
use crate::encode::{Foreign, gen_foreign};
use crate::hist::{HistGen, describe_short, gen_act, gen_noise};
use crate::media::{ALL_FMTS, Fmt, synchsafe};
use crate::prop::Ctx;
use crate::reads::{Damage, HOWS, How, Subject, apply_damage, gen_damage, gen_popts, gen_subject};
use crate::retry::with_limit;
use crate::rng::Rng;
use crate::run::catch;
use crate::stats;
use lofty::probe::Probe;
use serde::{Deserialize, Serialize};
use std::io::Write;

/// A leading ID3v2 tag with a compressed frame
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Bomb {
	/// bytes it expands to
	pub n: u32,
	pub id: u8,
	pub v3: bool,
	pub unsync: bool,
}

pub const BOMB_IDS: &[&str] = &["TIT2", "APIC", "COMM", "PRIV", "TXXX", "WCOM", "UFID", "XBIN", "GEOB", "CHAP", "USLT", "ETCO", "TDRC"];

pub fn zlib(d: &[u8]) -> Vec<u8> {
	let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::best());
	e.write_all(d).expect("vec");
	e.finish().expect("vec")
}

impl Bomb {
	pub fn bytes(&self) -> Vec<u8> {
		let id = BOMB_IDS[self.id as usize % BOMB_IDS.len()];
		let mut head: Vec<u8> = match id {
			"APIC" => b"\0image/png\0\x03\0".to_vec(),
			"COMM" | "USLT" => b"\0eng\0".to_vec(),
			"CHAP" => b"ch\0".to_vec(),
			"TDRC" => b"\x002000".to_vec(),
			"TXXX" => b"\0d\0".to_vec(),
			"PRIV" | "UFID" => b"owner\0".to_vec(),
			"GEOB" => b"\0application/x\0f\0d\0".to_vec(),
			_ => vec![0],
		};
		head.resize(head.len() + self.n.min(256 << 20) as usize, b'x');
		let mut z = zlib(&head);
		let n = head.len() as u32;
		let mut flags = [0u8, if self.v3 { 0x80 } else { 0x09 }];
		if self.unsync && !self.v3 {
			flags[1] |= 2;
			z = crate::media::unsynchronise(&z);
		}
		let mut body = id.as_bytes().to_vec();
		let size = z.len() as u32 + 4;
		body.extend_from_slice(&if self.v3 { size.to_be_bytes() } else { synchsafe(size) });
		body.extend_from_slice(&flags);
		body.extend_from_slice(&if self.v3 { n.to_be_bytes() } else { synchsafe(n) });
		body.extend_from_slice(&z);
		let mut out = vec![b'I', b'D', b'3', if self.v3 { 3 } else { 4 }, 0, 0];
		out.extend_from_slice(&synchsafe(body.len() as u32));
		out.extend_from_slice(&body);
		out
	}
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Memory {
	pub s: Subject,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub damage: Vec<Damage>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub bomb: Option<Bomb>,
	pub o: POpts,
	/// a file encoded to the specification instead of `s`
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub f: Option<Foreign>,
	/// allocation limit
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub limit: Option<u32>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub acts: Vec<Act>,
}

pub fn gen_memory(r: &mut Rng) -> Memory {
	if r.chance(1, 4) {
		return Memory {
			s: gen_subject(r, 0, 0, false),
			f: Some(gen_foreign(r, ALL_FMTS, 20_000)),
			damage: Vec::new(),
			bomb: None,
			o: POpts::default(),
			limit: Some(*r.pick(&[0, 10, 300, 1000, 4000])),
			noise: if r.chance(1, 4) { Some(gen_noise(r)) } else { None },
			acts: Vec::new(),
		};
	}
	let s = gen_subject(r, 200, 600, false);
	let fmt = build_base(&s.base).map_or(Fmt::Mp3, |x| x.1);
	let g = HistGen { big: 300, removes: 250, ..HistGen::default() };
	let mut damage: Vec<Damage> = Vec::new();
	for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
		for _ in 0..40 {
			let d = gen_damage(r);
			if matches!(d, Damage::Num { .. } | Damage::Size { .. }) || r.chance(1, 8) {
				damage.push(d);
				break;
			}
		}
	}
	if matches!(fmt, Fmt::OggVorbis | Fmt::OggOpus | Fmt::OggSpeex) {
		damage.push(Damage::OggCrc);
	}
	let prefix = matches!(fmt, Fmt::Mp3 | Fmt::Aac | Fmt::Ape | Fmt::Flac | Fmt::Mpc7 | Fmt::Mpc8);
	let mut acts = Vec::new();
	if r.chance(1, 4) {
		let mut a = gen_act(r, &g, fmt);
		if r.chance(1, 3) {
			match &mut a {
				Act::Save { o, .. } | Act::Edit { o, .. } | Act::Resave { o, .. } => {
					o.pad = Some(*r.pick(&[1 << 24, 0x7FFF_FFFF, 0xFFFF_FFFF, 1 << 28, (1 << 24) + 1]));
				},
				Act::Remove { .. } => {},
			}
		}
		acts.push(a);
	}
	Memory {
		s,
		f: None,
		damage,
		bomb: if prefix && r.chance(1, 25) {
			Some(Bomb {
				n: *r.pick(&[100_000, 2_000_000, 20_000_000]),
				id: r.below(BOMB_IDS.len() as u64) as u8,
				v3: r.chance(1, 3),
				unsync: r.chance(1, 4),
			})
		} else {
			None
		},
		o: gen_popts(r),
		limit: if r.chance(2, 3) { Some(*r.pick(&[0, 1000, 20_000, 1 << 18, 1 << 20])) } else { None },
		noise: if acts.is_empty() && r.chance(1, 12) { Some(gen_noise(r)) } else { None },
		acts,
	}
}

/// Bytes a call may hold at once: some multiple of the stream and of the limit, and a constant
fn allowed(len: usize, limit: u64, written: u64) -> u64 {
	(256 << 10) + 6 * len as u64 + 2 * limit + 4 * written
}

pub fn exec_memory(c: &Memory, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	if let Some(f) = &c.f {
		return exec_limit(f, c.limit.unwrap_or(0), c.noise, ctx);
	}
	let (mut data, fmt) = c.s.build().ok_or("no such base")?;
	stats::named(&format!("fmt.{}", fmt.name()));
	for m in &c.damage {
		apply_damage(&mut data, *m);
	}
	if let Some(b) = &c.bomb {
		stats::named("compressed frame");
		data.splice(0..0, b.bytes());
	}
	let limit = u64::from(c.limit.unwrap_or(16 << 20));
	let over = |what: String, u: crate::alloc::Usage, most: u64| {
		viol(
			"too much memory",
			format!(
				"{} {what}: {} bytes at once ({} in one request) for a stream of {} bytes and a limit of {limit} (at most {most} expected)",
				fmt.name(),
				u.peak,
				u.largest,
				data.len()
			),
		)
	};
	for how in HOWS {
		let mut d = SimDisk::new(data.clone());
		d.plan.noise = c.noise;
		d.budget = if c.noise.is_some() { 40 } else { 1 } * op_budget(data.len());
		let o = c.o.get();
		let (out, u) = measure(|| {
			outcome(catch(|| -> Result<(), AnyErr> {
				with_limit(c.limit, || match how {
					How::Concrete => AnyFile::read(fmt, &mut d, o).map(drop),
					How::Tagged => Probe::with_file_type(&mut d, file_type(fmt)).options(o).read().map(drop),
					How::Probe => Probe::new(&mut d).options(o).guess_file_type()?.read().map(drop),
				})?;
				Ok(())
			}))
			.0
		});
		ctx.sim(&d, u.largest > 4096);
		match out {
			Outcome::Panic(p) => return Ok(vec![viol("panic", format!("{} {how:?}: {p}", fmt.name()))]),
			Outcome::Budget => return Ok(vec![viol("no termination", format!("{} {how:?}", fmt.name()))]),
			o => stats::named(if o.ok() { "read.ok" } else { "read.err" }),
		}
		let most = allowed(data.len(), limit, 0);
		if u.peak > most {
			return Ok(vec![over(format!("read {how:?}"), u, most)]);
		}
	}
	for a in &c.acts {
		let mut d = SimDisk::new(data.clone());
		d.plan.noise = c.noise;
		let (o, u) = measure(|| with_limit(c.limit, || perform(&mut d, fmt, a)));
		ctx.sim(&d, u.largest > 4096);
		match o {
			Outcome::Panic(p) => return Ok(vec![viol("panic", format!("{} {}: {p}", fmt.name(), describe_short(a)))]),
			Outcome::Budget => return Ok(vec![viol("no termination", format!("{} {}", fmt.name(), describe_short(a)))]),
			o => stats::named(if o.ok() { "write.ok" } else { "write.err" }),
		}
		let most = allowed(data.len().max(d.data.len()), limit, d.written);
		if u.peak > most {
			return Ok(vec![over(describe_short(a), u, most)]);
		}
	}
	Ok(Vec::new())
}

/// No item beyond the limit is handed over
fn exec_limit(f: &Foreign, limit: u32, noise: Option<Noise>, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	let data = f.bytes();
	let mut d = SimDisk::new(data.clone());
	d.plan.noise = noise;
	d.budget = 40 * op_budget(data.len());
	let (o, r) = outcome(catch(|| with_limit(Some(limit), || AnyFile::read(f.fmt, &mut d, POpts::default().get()).map(|f| f.reading()))));
	ctx.sim(&d, limit > 0);
	stats::named(if o.ok() { "limited.ok" } else { "limited.err" });
	match o {
		Outcome::Panic(p) => return Ok(vec![viol("panic", format!("{}: {p}", f.fmt.name()))]),
		Outcome::Budget => return Ok(vec![viol("no termination", f.fmt.name())]),
		_ => {},
	}
	for (k, v) in r.into_iter().flat_map(|r| r.tags) {
		for i in v {
			// how long it was, before it was abbreviated
			let n = i
				.match_indices(':')
				.filter(|(at, _)| i.get(at + 1..at + 17).is_some_and(|h| h.bytes().all(|b| b.is_ascii_hexdigit())))
				.filter_map(|(at, _)| i[..at].rsplit(|c: char| !c.is_ascii_digit()).next()?.parse::<usize>().ok())
				.max()
				.unwrap_or(0);
			if n > 8 * limit as usize + 600 {
				return Ok(vec![viol(format!("{k:?}: more than the limit"), format!("{}: {i} with a limit of {limit}", f.fmt.name()))]);
			}
		}
	}
	Ok(Vec::new())
}
