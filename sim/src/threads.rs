//! Threads that use the library at the same time do not influence each other (C22).
//!
//! Each thread runs a program of its own: reads, saves, detections, options, misuse that panics as documented.
//! The seeded scheduler interleaves them at the operations of their devices; every thread has to get what the
//! same program gets alone in a fresh thread, and what every program gets in a fresh process.

use crate::disk::{Noise, Plan, SimDisk};
use crate::engine::*;
use crate::files::POpts;
use crate::hist::{HistGen, describe_short, gen_act, gen_noise};
use crate::media::Fmt;
use crate::prop::Ctx;
use crate::reads::{HOWS, How, Subject, gen_popts, gen_subject, read_as};
use crate::rng::{Rng, hash_bytes};
use crate::run::catch;
use crate::sched::Sched;
use crate::stats;
use lofty::config::{GlobalOptions, ParseOptions, WriteOptions, apply_global_options};
use lofty::error::{FileEncodingError, FileParseError};
use lofty::file::{AudioFile, FileType, TaggedFile, TaggedFileExt};
use lofty::id3::v2::Id3v2Tag;
use lofty::io::FileLike;
use lofty::probe::Probe;
use lofty::properties::FileProperties;
use lofty::resolve::{FileResolver, register_custom_resolver};
use lofty::tag::{Accessor, Tag, TagSupport, TagType};
use serde::{Deserialize, Serialize};
use std::io::{Read, Seek};
use std::sync::OnceLock;

// ------------------------------------------------------------------------------------------------
// custom file types

/// A custom file: its magic and a title, behind it whatever. K 0: plain, 1: asks the library while guessing,
/// 2: a resolver that panics while guessing
struct Custom<const K: u8> {
	title: String,
	props: FileProperties,
}

const NAMES: [&str; 3] = ["SimPlain", "SimNested", "SimPanics"];
const MAGIC: [&[u8; 8]; 3] = [b"SIMPLAIN", b"SIMNESTD", b"SIMPANIC"];
const EXTS: [&str; 3] = ["simplain", "simnested", "simpanics"];

impl<const K: u8> From<Custom<K>> for TaggedFile {
	fn from(c: Custom<K>) -> Self {
		let mut t = Id3v2Tag::default();
		t.set_title(c.title);
		TaggedFile::new(FileType::Custom(NAMES[K as usize]), c.props, vec![Tag::from(t)])
	}
}

impl<const K: u8> AudioFile for Custom<K> {
	type Properties = FileProperties;

	fn read_from<R: Read + Seek>(r: &mut R, _: ParseOptions) -> Result<Self, FileParseError> {
		let mut d = Vec::new();
		let mut b = [0; 48];
		loop {
			match r.read(&mut b) {
				Ok(0) => break,
				Ok(n) => d.extend_from_slice(&b[..n]),
				Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {},
				Err(e) => return Err(e.into()),
			}
		}
		Ok(Self { title: String::from_utf8_lossy(d.get(8..).unwrap_or(&[])).into_owned(), props: FileProperties::default() })
	}

	fn save_to<F: FileLike>(&self, _: &mut F, _: WriteOptions) -> Result<(), FileEncodingError> {
		Ok(())
	}
	fn properties(&self) -> &Self::Properties {
		&self.props
	}
	fn contains_tag(&self) -> bool {
		true
	}
	fn contains_tag_type(&self, t: TagType) -> bool {
		t == TagType::Id3v2
	}
}

impl<const K: u8> FileResolver for Custom<K> {
	fn extension() -> Option<&'static str> {
		Some(EXTS[K as usize])
	}
	fn primary_tag_type() -> TagType {
		TagType::Id3v2
	}
	fn tag_support(t: TagType) -> TagSupport {
		if t == TagType::Id3v2 { TagSupport::ReadWrite } else { TagSupport::Unsupported }
	}
	fn guess(b: &[u8]) -> Option<FileType> {
		if !b.starts_with(MAGIC[K as usize]) {
			return None;
		}
		match K {
			0 => Some(FileType::Custom(NAMES[0])),
			// a custom file is one whose known extension is registered
			1 => (FileType::from_ext(EXTS[0]) == Some(FileType::Custom(NAMES[0]))).then_some(FileType::Custom(NAMES[1])),
			_ => panic!("a resolver of the program fails"),
		}
	}
}

fn register() {
	static ONCE: OnceLock<()> = OnceLock::new();
	ONCE.get_or_init(|| {
		register_custom_resolver::<Custom<0>>(NAMES[0]);
		register_custom_resolver::<Custom<1>>(NAMES[1]);
		register_custom_resolver::<Custom<2>>(NAMES[2]);
	});
}

// ------------------------------------------------------------------------------------------------
// programs

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
	Opts { limit: Option<u32>, custom: bool, keep: bool },
	Read { s: Subject, how: How, o: POpts, noise: Option<Noise>, hits: Vec<Hit> },
	Act { s: Subject, act: Act, noise: Option<Noise>, hits: Vec<Hit> },
	/// the type of an extension
	Ext { i: u8 },
	/// detect and read a custom file
	Custom { k: u8, len: u16, noise: Option<Noise> },
	/// register a name again, which panics
	Twice { k: u8 },
	/// ask for a type that was never registered, which panics
	Unregistered,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Threads {
	pub progs: Vec<Vec<Op>>,
	pub seed: u64,
	/// per mille chance of a switch at an operation
	pub rate: u32,
}

const KNOWN: &[(&str, FileType)] = &[
	("mp3", FileType::Mpeg),
	("FLAC", FileType::Flac),
	("m4a", FileType::Mp4),
	("wav", FileType::Wav),
	("ogg", FileType::Vorbis),
	("simplain", FileType::Custom(NAMES[0])),
	("SimNested", FileType::Custom(NAMES[1])),
];

fn gen_hits(r: &mut Rng) -> Vec<Hit> {
	if !r.chance(1, 8) {
		return Vec::new();
	}
	vec![Hit { at: r.below(65536) as u32, f: crate::hist::gen_fault(r) }]
}

fn gen_op(r: &mut Rng) -> Op {
	let noise = |r: &mut Rng| if r.chance(1, 4) { Some(gen_noise(r)) } else { None };
	match r.below(16) {
		0 | 1 => Op::Opts {
			limit: if r.chance(1, 2) { Some(r.size(100_000, &[0, 10, 100, 1000]) as u32) } else { None },
			custom: r.chance(1, 2),
			keep: r.chance(1, 2),
		},
		2..=6 => Op::Read { s: gen_subject(r, 100, 1500, false), how: *r.pick(HOWS), o: gen_popts(r), noise: noise(r), hits: gen_hits(r) },
		7..=11 => {
			let s = gen_subject(r, 100, 1500, false);
			let fmt = build_base(&s.base).map_or(Fmt::Mp3, |x| x.1);
			let g = HistGen { big: 1500, resaves: 200, ..HistGen::default() };
			Op::Act { act: gen_act(r, &g, fmt), s, noise: noise(r), hits: gen_hits(r) }
		},
		12 => Op::Ext { i: r.below(KNOWN.len() as u64) as u8 },
		13 => Op::Custom { k: *r.pick(&[0, 0, 1, 1, 2]), len: r.below(400) as u16, noise: noise(r) },
		14 => Op::Twice { k: r.below(3) as u8 },
		_ => Op::Unregistered,
	}
}

pub fn gen_threads(r: &mut Rng) -> Threads {
	let n = 2 + r.below(3);
	let mut progs: Vec<Vec<Op>> = (0..n)
		.map(|_| {
			let m = 1 + r.below(3);
			(0..m).map(|_| gen_op(r)).collect()
		})
		.collect();
	// what one thread sets, another one does not
	if r.chance(1, 3) {
		let i = r.below(n) as usize;
		let limit = if r.chance(2, 3) { Some(r.size(2000, &[0, 10]) as u32) } else { None };
		progs[i].insert(0, Op::Opts { limit, custom: r.chance(1, 3), keep: r.chance(1, 3) });
	}
	// the same file read by several
	if r.chance(1, 4) {
		let op = gen_op(r);
		for p in &mut progs {
			p.push(op.clone());
		}
	}
	Threads { progs, seed: r.below(1 << 40), rate: *r.pick(&[1000, 500, 200, 50, 10]) }
}

/// What an operation of a program works on, prepared up front
struct Job<'a> {
	op: &'a Op,
	data: Vec<u8>,
	fmt: Fmt,
	/// operations of the undisturbed call, to place the faults
	ops: u64,
}

/// What it gave
struct Got {
	text: String,
	disk: Option<SimDisk>,
	/// wrong whatever the other threads do
	wrong: Option<String>,
}

struct Set {
	custom: bool,
	keep: bool,
	limit: Option<u32>,
}

fn plan(noise: Option<Noise>, hits: &[Hit], len: usize, ops: u64) -> Plan {
	Step { noise, hits: hits.to_vec(), ..Step::clean(Act::Resave { o: crate::files::WOpts::default(), via: Via::Tag }) }.plan(len as u64, ops, 0)
}

fn run_prog(jobs: &[Job<'_>]) -> Vec<Got> {
	let mut set = Set { custom: true, keep: true, limit: None };
	jobs.iter().map(|j| run_op(j, &mut set)).collect()
}

fn run_op(j: &Job<'_>, set: &mut Set) -> Got {
	let quiet = |text: String, wrong: Option<String>| Got { text, disk: None, wrong };
	let expect = |got: String, want: &str| {
		let wrong = (got != want).then(|| format!("{got}, expected {want}"));
		quiet(got, wrong)
	};
	match j.op {
		Op::Opts { limit, custom, keep } => {
			*set = Set { custom: *custom, keep: *keep, limit: *limit };
			let mut o = GlobalOptions::new();
			o.use_custom_resolvers(*custom);
			o.preserve_format_specific_items(*keep);
			if let Some(l) = limit {
				o.allocation_limit(*l as usize);
			}
			apply_global_options(o);
			quiet("options".into(), None)
		},
		Op::Read { how, o, noise, hits, .. } => {
			let mut d = SimDisk::with_plan(j.data.clone(), plan(*noise, hits, j.data.len(), j.ops));
			d.budget = op_budget(j.data.len());
			let (oc, r) = read_as(*how, j.fmt, &mut d, *o);
			let text = format!("{oc:?} {:016x}", hash_bytes(format!("{r:?}").as_bytes()));
			let wrong = matches!(oc, Outcome::Panic(_) | Outcome::Budget).then(|| format!("{oc:?}"));
			Got { text, disk: Some(d), wrong }
		},
		Op::Act { act, noise, hits, .. } => {
			let mut d = SimDisk::with_plan(j.data.clone(), plan(*noise, hits, j.data.len(), j.ops));
			d.record_mutations = false;
			let oc = perform(&mut d, j.fmt, act);
			let text = format!("{oc:?} {} {:016x}", d.data.len(), hash_bytes(&d.data));
			let wrong = matches!(oc, Outcome::Panic(_) | Outcome::Budget).then(|| format!("{oc:?}"));
			Got { text, disk: Some(d), wrong }
		},
		Op::Ext { i } => {
			let (e, ty) = KNOWN[*i as usize % KNOWN.len()];
			let want = if matches!(ty, FileType::Custom(_)) && !set.custom { None } else { Some(ty) };
			expect(format!("{:?}", catch(|| FileType::from_ext(e))), &format!("{:?}", Ok::<_, String>(want)))
		},
		Op::Custom { k, len, noise } => {
			let k = *k as usize % 3;
			let title = "title of a custom file ".repeat(*len as usize / 20 + 1);
			let mut data = MAGIC[k].to_vec();
			data.extend_from_slice(title.as_bytes());
			let mut d = SimDisk::with_plan(data, plan(*noise, &[], 0, 0));
			let got = catch(|| match Probe::new(&mut d).guess_file_type() {
				Ok(p) => match p.read() {
					Ok(f) => {
						let t = f.primary_tag().map(|t| t.title().unwrap_or_default().into_owned());
						format!("{:?} {}", f.file_type(), t.as_deref() == Some(title.as_str()))
					},
					Err(_) => "not read".into(),
				},
				Err(_) => "error".into(),
			});
			let got = match got {
				Ok(s) => s,
				Err(_) => "panic".into(),
			};
			let want = match (set.custom, k) {
				(false, _) => "not read".into(),
				(true, 2) => "panic".into(),
				(true, _) => format!("{:?} true", FileType::Custom(NAMES[k])),
			};
			Got { disk: Some(d), ..expect(got, &want) }
		},
		Op::Twice { k } => {
			let k = *k as usize % 3;
			let r = catch(|| match k {
				0 => register_custom_resolver::<Custom<0>>(NAMES[0]),
				1 => register_custom_resolver::<Custom<1>>(NAMES[1]),
				_ => register_custom_resolver::<Custom<2>>(NAMES[2]),
			});
			expect(if r.is_err() { "panic" } else { "accepted" }.into(), "panic")
		},
		Op::Unregistered => {
			let r = catch(|| FileType::Custom("SimUnknown").primary_tag_type());
			expect(if r.is_err() { "panic" } else { "accepted" }.into(), "panic")
		},
	}
}

fn describe(op: &Op, fmt: Fmt) -> String {
	match op {
		Op::Opts { .. } => "options".into(),
		Op::Read { how, .. } => format!("read {} ({how:?})", fmt.name()),
		Op::Act { act, .. } => format!("{} on {}", describe_short(act), fmt.name()),
		Op::Ext { i } => format!("type of .{}", KNOWN[*i as usize % KNOWN.len()].0),
		Op::Custom { k, .. } => format!("read a {} file", NAMES[*k as usize % 3]),
		Op::Twice { .. } => "second registration".into(),
		Op::Unregistered => "unregistered type".into(),
	}
}

pub fn exec_threads(c: &Threads, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	register();
	if c.progs.is_empty() || c.progs.len() > 8 {
		return Err("number of threads".into());
	}
	let mut jobs: Vec<Vec<Job<'_>>> = Vec::new();
	for p in &c.progs {
		let mut js = Vec::new();
		for op in p {
			let (s, hits) = match op {
				Op::Read { s, hits, .. } | Op::Act { s, hits, .. } => (s, hits),
				_ => {
					js.push(Job { op, data: Vec::new(), fmt: Fmt::Mp3, ops: 0 });
					continue;
				},
			};
			let (data, fmt) = s.build().ok_or("no such base")?;
			let mut ops = 0;
			if !hits.is_empty() {
				let mut d = SimDisk::new(data.clone());
				match op {
					Op::Read { how, o, .. } => drop(read_as(*how, fmt, &mut d, *o)),
					Op::Act { act, .. } => drop(perform(&mut d, fmt, act)),
					_ => {},
				}
				ops = d.ops.get();
			}
			js.push(Job { op, data, fmt, ops });
		}
		jobs.push(js);
	}
	let broken = |i: usize, k: usize, w: &str| {
		let j = &jobs[i][k];
		viol("wrong result", format!("thread {i}, {}: {w}", describe(j.op, j.fmt)))
	};
	// alone
	let mut alone = Vec::new();
	for (i, js) in jobs.iter().enumerate() {
		let (mut r, _) = Sched::new(0, 1, 0, Vec::new()).run(vec![Box::new(|| run_prog(js))]);
		let r = r.remove(0)?;
		for (k, g) in r.iter().enumerate() {
			if let Some(w) = &g.wrong {
				// a panic or endless loop on a device is another property's
				if matches!(jobs[i][k].op, Op::Read { .. } | Op::Act { .. }) {
					ctx.cut += 1;
					return Ok(Vec::new());
				}
				return Ok(vec![broken(i, k, w)]);
			}
			if let Some(d) = &g.disk {
				ctx.sim(d, false);
			}
		}
		alone.push(r);
	}
	// together
	let (res, trace) = Sched::new(c.seed, jobs.len(), u64::from(c.rate), Vec::new())
		.run(jobs.iter().map(|js| Box::new(move || run_prog(js)) as Box<dyn FnOnce() -> Vec<Got> + Send + '_>).collect());
	let switches = trace.windows(2).filter(|w| w[0] != w[1]).count();
	stats::named(if switches > jobs.len() { "interleaved" } else { "hardly interleaved" });
	let schedule = hash_bytes(&trace.iter().map(|t| *t as u8).collect::<Vec<_>>());
	for (i, r) in res.into_iter().enumerate() {
		for (k, g) in r?.iter().enumerate() {
			if let Some(d) = &g.disk {
				d.trace_hash.set(crate::rng::mix(&[d.trace_hash.get(), schedule]));
				ctx.sim(d, switches > jobs.len());
			}
			let j = &jobs[i][k];
			let want = &alone[i][k].text;
			if g.text != *want {
				return Ok(vec![viol(
					"other threads change the result",
					format!("thread {i} of {}, {}: {} instead of {want}", jobs.len(), describe(j.op, j.fmt), g.text),
				)]);
			}
			if let Some(w) = &g.wrong {
				return Ok(vec![broken(i, k, w)]);
			}
		}
	}
	Ok(Vec::new())
}
