//! The simulated storage device / stream.
//!
//! `SimDisk` implements everything lofty asks of a file (`Read`, `Write`, `Seek`, `Truncate`,
//! `Length`). Each call is one *operation*, numbered from 0; what an operation does is decided only by
//! the fault plan, the operation number and the stored bytes, so a run replays exactly.

use crate::rng::mix;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{self, Error, ErrorKind, Read, Seek, SeekFrom, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum OpKind {
	Read,
	Write,
	Seek,
	Truncate,
	Len,
	Flush,
}

/// What a fault does to the operation it is attached to
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord, Hash)]
pub enum Fault {
	/// Transfer at most `n` bytes (`n >= 1`)
	Short(u32),
	/// `ErrorKind::Interrupted`
	Eintr,
	/// Hard error, nothing transferred
	Eio,
	/// As `Eio`, with the kind `TimedOut`
	Timeout,
	/// As `Eio`, with the kind `PermissionDenied`
	Denied,
	/// As `Eio`, with the kind `UnexpectedEof` although bytes remain (a lying lower layer)
	FakeEof,
	/// `n` bytes reach the device, then the operation fails (torn write)
	Torn(u32),
	/// `write` accepts nothing: `Ok(0)`
	Zero,
	/// Hard error, and so does everything after it of the same direction (device gone)
	Gone,
	/// The machine stops at this operation; `n` bytes of a write reach the device
	Crash(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct FaultAt {
	pub op: u64,
	pub fault: Fault,
}

/// Random delivery noise: legal but unusual behaviour of a stream
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Noise {
	pub seed: u64,
	/// Per mille of reads/writes that are short
	pub short: u32,
	/// Per mille of reads/writes/seeks that are interrupted
	pub eintr: u32,
	/// Largest short transfer
	pub max: u32,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Plan {
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub noise: Option<Noise>,
	#[serde(default, skip_serializing_if = "Vec::is_empty")]
	pub faults: Vec<FaultAt>,
	/// The device is full once the file has this many bytes
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub capacity: Option<u64>,
	/// The machine stops when this many bytes in total have been written (crash point inside a transfer)
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub crash_after_bytes: Option<u64>,
}

impl Plan {
	pub fn none() -> Self {
		Self::default()
	}
	pub fn one(op: u64, fault: Fault) -> Self {
		Self {
			faults: vec![FaultAt { op, fault }],
			..Self::default()
		}
	}
	pub fn noise(n: Noise) -> Self {
		Self {
			noise: Some(n),
			..Self::default()
		}
	}
}

/// Panic payload for a simulated power loss
pub struct CrashSignal;
/// Panic payload for a run that issued more operations than its budget
pub struct BudgetSignal;
/// The simulated device refuses to become larger than this
pub const DEVICE: u64 = 1 << 28;

#[derive(Clone, Debug, PartialEq)]
pub enum Mutation {
	Write { off: u64, data: Vec<u8> },
	Truncate { len: u64 },
}

pub fn apply_mutation(img: &mut Vec<u8>, m: &Mutation) {
	match m {
		Mutation::Write { off, data } => {
			let off = *off as usize;
			if data.is_empty() {
				return;
			}
			if img.len() < off + data.len() {
				img.resize(off + data.len(), 0);
			}
			img[off..off + data.len()].copy_from_slice(data);
		},
		Mutation::Truncate { len } => img.resize(*len as usize, 0),
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct OpRec {
	pub kind: OpKind,
	/// requested bytes / target
	pub arg: u64,
	/// transferred bytes / resulting position; `u64::MAX` for an error
	pub res: u64,
	pub pos: u64,
	pub fault: Option<Fault>,
}

pub struct SimDisk {
	pub data: Vec<u8>,
	pub pos: u64,
	pub plan: Plan,
	idx: BTreeMap<u64, Fault>,
	pub ops: Cell<u64>,
	pub budget: u64,
	pub record: bool,
	pub log: RefCell<Vec<OpRec>>,
	pub record_mutations: bool,
	pub mutations: Vec<Mutation>,
	/// Number of operations that changed stored bytes or length
	pub changes: u64,
	pub written: u64,
	pub read_bytes: u64,
	gone_read: Cell<bool>,
	gone_write: Cell<bool>,
	/// hard error faults that fired, by operation kind
	pub hard_fired: RefCell<Vec<(u64, OpKind, Fault)>>,
	/// all faults (hard or soft) that altered an operation
	pub soft_fired: Cell<u64>,
	pub enospc_fired: u64,
	/// number of changes that preceded the first hard fault
	pub changes_at_fault: Cell<Option<u64>>,
	/// simulated time in nanoseconds: each operation costs a fixed latency plus a per byte cost
	pub time_ns: Cell<u64>,
	pub trace_hash: Cell<u64>,
}

pub fn eio() -> Error {
	Error::other("simulated I/O error")
}

impl SimDisk {
	pub fn new(data: Vec<u8>) -> Self {
		Self::with_plan(data, Plan::none())
	}

	pub fn with_plan(data: Vec<u8>, plan: Plan) -> Self {
		let idx = plan.faults.iter().map(|f| (f.op, f.fault)).collect();
		Self {
			data,
			pos: 0,
			plan,
			idx,
			ops: Cell::new(0),
			budget: u64::MAX,
			record: false,
			log: RefCell::new(Vec::new()),
			record_mutations: false,
			mutations: Vec::new(),
			changes: 0,
			written: 0,
			read_bytes: 0,
			gone_read: Cell::new(false),
			gone_write: Cell::new(false),
			hard_fired: RefCell::new(Vec::new()),
			soft_fired: Cell::new(0),
			enospc_fired: 0,
			changes_at_fault: Cell::new(None),
			time_ns: Cell::new(0),
			trace_hash: Cell::new(0),
		}
	}

	pub fn recording(mut self) -> Self {
		self.record = true;
		self
	}

	pub fn with_budget(mut self, b: u64) -> Self {
		self.budget = b;
		self
	}

	pub fn hard_count(&self) -> usize {
		self.hard_fired.borrow().len()
	}

	/// Whether a hard fault hit an operation that mutates the device
	pub fn write_side_fault(&self) -> bool {
		self.enospc_fired > 0
			|| self
				.hard_fired
				.borrow()
				.iter()
				.any(|(_, k, _)| matches!(k, OpKind::Write | OpKind::Truncate))
	}

	/// Replace the plan and restart operation numbering (a new operation of a history)
	pub fn rearm(&mut self, plan: Plan) {
		self.idx = plan.faults.iter().map(|f| (f.op, f.fault)).collect();
		self.plan = plan;
		self.ops.set(0);
		self.gone_read.set(false);
		self.gone_write.set(false);
		self.hard_fired.borrow_mut().clear();
		self.soft_fired.set(0);
		self.enospc_fired = 0;
		self.changes_at_fault.set(None);
		self.changes = 0;
		self.written = 0;
		self.mutations.clear();
		self.log.borrow_mut().clear();
	}

	fn noise_for(&self, op: u64, kind: OpKind, want: u64) -> Option<Fault> {
		let n = self.plan.noise?;
		let h = mix(&[n.seed, op]);
		let roll = (h % 1000) as u32;
		match kind {
			OpKind::Read | OpKind::Write => {
				if roll < n.eintr {
					// never interrupt more than twice in a row, so that a bounded number of steps suffices
					return Some(Fault::Eintr);
				}
				if roll < n.eintr + n.short && want > 1 {
					let m = 1 + ((h >> 20) % u64::from(n.max.max(1))) as u32;
					if u64::from(m) < want {
						return Some(Fault::Short(m));
					}
				}
				None
			},
			_ => None,
		}
	}

	/// Start an operation: count it, and look its fault up
	fn begin(&self, kind: OpKind, want: u64) -> Option<Fault> {
		let op = self.ops.get();
		self.ops.set(op + 1);
		if op >= self.budget {
			std::panic::panic_any(BudgetSignal);
		}
		crate::sched::io_point();
		self.time_ns.set(self.time_ns.get() + 20_000 + want.min(1 << 24));
		let f = self
			.idx
			.get(&op)
			.copied()
			.or_else(|| self.noise_for(op, kind, want));
		self.trace_hash.set(mix(&[
			self.trace_hash.get(),
			kind as u64,
			want,
			self.pos,
			f.map_or(0, |f| crate::rng::hash_bytes(format!("{f:?}").as_bytes())),
		]));
		let f = match (f, kind) {
			(None, OpKind::Read | OpKind::Seek | OpKind::Len) if self.gone_read.get() => {
				Some(Fault::Eio)
			},
			(None, OpKind::Write | OpKind::Truncate | OpKind::Flush) if self.gone_write.get() => {
				Some(Fault::Eio)
			},
			(f, _) => f,
		};
		// faults that make no sense for the kind of operation fall away
		match (f, kind) {
			(Some(Fault::Short(_) | Fault::Eintr), OpKind::Read | OpKind::Write) => f,
			(Some(Fault::Short(_) | Fault::Eintr), _) => None,
			(Some(Fault::Torn(_) | Fault::Zero), OpKind::Write) => f,
			(Some(Fault::Torn(_) | Fault::Zero), _) => None,
			(Some(Fault::FakeEof), OpKind::Read) => f,
			(Some(Fault::FakeEof), _) => None,
			_ => f,
		}
	}

	fn end(&self, kind: OpKind, arg: u64, res: u64, pos: u64, fault: Option<Fault>) {
		let op = self.ops.get() - 1;
		if let Some(f) = fault {
			match f {
				Fault::Short(_) | Fault::Eintr => self.soft_fired.set(self.soft_fired.get() + 1),
				_ => {
					if self.changes_at_fault.get().is_none() {
						self.changes_at_fault.set(Some(self.changes));
					}
					self.hard_fired.borrow_mut().push((op, kind, f));
				},
			}
			crate::stats::fault(kind, f);
		}
		if self.record {
			self.log.borrow_mut().push(OpRec {
				kind,
				arg,
				res,
				pos,
				fault,
			});
		}
	}

	fn hard(&self, kind: OpKind, arg: u64, f: Fault) -> Error {
		self.end(kind, arg, u64::MAX, self.pos, Some(f));
		match f {
			Fault::Gone => {
				if matches!(kind, OpKind::Write | OpKind::Truncate | OpKind::Flush) {
					self.gone_write.set(true);
				} else {
					self.gone_read.set(true);
				}
				eio()
			},
			Fault::Timeout => Error::new(ErrorKind::TimedOut, "simulated timeout"),
			Fault::Denied => Error::new(ErrorKind::PermissionDenied, "simulated denial"),
			Fault::FakeEof => Error::new(ErrorKind::UnexpectedEof, "simulated eof"),
			Fault::Eintr => Error::new(ErrorKind::Interrupted, "simulated EINTR"),
			_ => eio(),
		}
	}

	fn store(&mut self, buf: &[u8]) {
		if buf.is_empty() {
			return;
		}
		let m = Mutation::Write {
			off: self.pos,
			data: buf.to_vec(),
		};
		apply_mutation(&mut self.data, &m);
		if self.record_mutations {
			self.mutations.push(m);
		}
		self.pos += buf.len() as u64;
		self.written += buf.len() as u64;
		self.changes += 1;
	}
}

impl Read for SimDisk {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		let want = buf.len() as u64;
		let start = self.pos;
		let mut limit = buf.len();
		let f = self.begin(OpKind::Read, want);
		match f {
			None => {},
			Some(Fault::Short(n)) => limit = limit.min(n.max(1) as usize),
			Some(Fault::Crash(_)) => {
				self.end(OpKind::Read, want, u64::MAX, start, f);
				std::panic::panic_any(CrashSignal);
			},
			Some(f) => return Err(self.hard(OpKind::Read, want, f)),
		}
		let avail = (self.data.len() as u64).saturating_sub(self.pos) as usize;
		let n = limit.min(avail);
		if n > 0 {
			let p = self.pos as usize;
			buf[..n].copy_from_slice(&self.data[p..p + n]);
			self.pos += n as u64;
		}
		self.read_bytes += n as u64;
		// a short transfer only counts when it really shortened something
		let fired = f.filter(|_| n < buf.len().min(avail));
		self.end(OpKind::Read, want, n as u64, start, fired);
		Ok(n)
	}
}

impl Write for SimDisk {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		let want = buf.len() as u64;
		let start = self.pos;
		let f = self.begin(OpKind::Write, want);
		let mut limit = buf.len();
		match f {
			None => {},
			Some(Fault::Short(n)) => limit = limit.min(n.max(1) as usize),
			Some(Fault::Zero) => {
				self.end(OpKind::Write, want, 0, start, f);
				return Ok(0);
			},
			Some(Fault::Torn(n)) => {
				let n = (n as usize).min(buf.len());
				self.store(&buf[..n]);
				return Err(self.hard(OpKind::Write, want, Fault::Torn(n as u32)));
			},
			Some(Fault::Crash(n)) => {
				let n = (n as usize).min(buf.len());
				self.store(&buf[..n]);
				self.end(OpKind::Write, want, u64::MAX, start, f);
				std::panic::panic_any(CrashSignal);
			},
			Some(f) => return Err(self.hard(OpKind::Write, want, f)),
		}
		if let Some(c) = self.plan.crash_after_bytes {
			let left = c.saturating_sub(self.written) as usize;
			if left < limit {
				self.store(&buf[..left]);
				self.end(OpKind::Write, want, u64::MAX, start, Some(Fault::Crash(left as u32)));
				std::panic::panic_any(CrashSignal);
			}
		}
		if self.pos.saturating_add(limit as u64) > DEVICE {
			self.end(OpKind::Write, want, u64::MAX, start, None);
			return Err(Error::new(ErrorKind::FileTooLarge, "beyond the end of the simulated device"));
		}
		if let Some(cap) = self.plan.capacity {
			let end = self.pos + limit as u64;
			let room = cap.max(self.data.len() as u64).saturating_sub(self.pos);
			if end > self.pos + room {
				self.enospc_fired += 1;
				crate::stats::named("write:enospc");
				if room == 0 {
					self.end(OpKind::Write, want, u64::MAX, start, None);
					return Err(Error::new(ErrorKind::StorageFull, "simulated ENOSPC"));
				}
				limit = room as usize;
			}
		}
		self.store(&buf[..limit]);
		let fired = f.filter(|_| limit < buf.len());
		self.end(OpKind::Write, want, limit as u64, start, fired);
		Ok(limit)
	}

	fn flush(&mut self) -> io::Result<()> {
		let f = self.begin(OpKind::Flush, 0);
		match f {
			None => {},
			Some(Fault::Crash(_)) => {
				self.end(OpKind::Flush, 0, u64::MAX, self.pos, f);
				std::panic::panic_any(CrashSignal);
			},
			Some(f) => return Err(self.hard(OpKind::Flush, 0, f)),
		}
		self.end(OpKind::Flush, 0, 0, self.pos, None);
		Ok(())
	}
}

impl Seek for SimDisk {
	fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
		let start = self.pos;
		let f = self.begin(OpKind::Seek, 0);
		match f {
			None => {},
			Some(Fault::Crash(_)) => {
				self.end(OpKind::Seek, 0, u64::MAX, start, f);
				std::panic::panic_any(CrashSignal);
			},
			Some(f) => return Err(self.hard(OpKind::Seek, 0, f)),
		}
		let target = match to {
			SeekFrom::Start(p) => Some(p),
			SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d),
			SeekFrom::Current(d) => self.pos.checked_add_signed(d),
		};
		match target {
			// as with a real file, offsets beyond i64::MAX are invalid
			Some(p) if p <= i64::MAX as u64 => {
				self.pos = p;
				self.end(OpKind::Seek, p, p, start, None);
				Ok(p)
			},
			_ => {
				self.end(OpKind::Seek, 0, u64::MAX, start, None);
				Err(Error::new(
					ErrorKind::InvalidInput,
					"invalid seek to a negative or overflowing position",
				))
			},
		}
	}
}

impl lofty::io::Truncate for SimDisk {
	fn truncate(&mut self, new_len: u64) -> io::Result<()> {
		let f = self.begin(OpKind::Truncate, new_len);
		if new_len > DEVICE {
			self.end(OpKind::Truncate, new_len, u64::MAX, self.pos, None);
			return Err(Error::new(ErrorKind::FileTooLarge, "beyond the end of the simulated device"));
		}
		match f {
			None => {},
			Some(Fault::Crash(n)) => {
				if n % 2 == 1 {
					self.data.resize(new_len as usize, 0);
					self.changes += 1;
				}
				self.end(OpKind::Truncate, new_len, u64::MAX, self.pos, f);
				std::panic::panic_any(CrashSignal);
			},
			Some(f) => return Err(self.hard(OpKind::Truncate, new_len, f)),
		}
		if new_len != self.data.len() as u64 {
			let m = Mutation::Truncate { len: new_len };
			apply_mutation(&mut self.data, &m);
			if self.record_mutations {
				self.mutations.push(m);
			}
			self.changes += 1;
		}
		self.end(OpKind::Truncate, new_len, new_len, self.pos, None);
		Ok(())
	}
}

impl lofty::io::Length for SimDisk {
	fn len(&self) -> io::Result<u64> {
		let f = self.begin(OpKind::Len, 0);
		match f {
			None => {},
			Some(Fault::Crash(_)) => {
				self.end(OpKind::Len, 0, u64::MAX, self.pos, f);
				std::panic::panic_any(CrashSignal);
			},
			Some(f) => return Err(self.hard(OpKind::Len, 0, f)),
		}
		let n = self.data.len() as u64;
		self.end(OpKind::Len, 0, n, self.pos, None);
		Ok(n)
	}
}

/// A disk that several owners hold: what a `BoundTaggedFile` keeps is still under the simulator's control
#[derive(Clone)]
pub struct Shared(pub std::rc::Rc<RefCell<SimDisk>>);

impl Shared {
	pub fn new(d: SimDisk) -> Self {
		Self(std::rc::Rc::new(RefCell::new(d)))
	}
}

impl Read for Shared {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		self.0.borrow_mut().read(buf)
	}
}

impl Write for Shared {
	fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
		self.0.borrow_mut().write(buf)
	}
	fn flush(&mut self) -> io::Result<()> {
		self.0.borrow_mut().flush()
	}
}

impl Seek for Shared {
	fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
		self.0.borrow_mut().seek(to)
	}
}

impl lofty::io::Truncate for Shared {
	fn truncate(&mut self, new_len: u64) -> io::Result<()> {
		lofty::io::Truncate::truncate(&mut *self.0.borrow_mut(), new_len)
	}
}

impl lofty::io::Length for Shared {
	fn len(&self) -> io::Result<u64> {
		lofty::io::Length::len(&*self.0.borrow())
	}
}
