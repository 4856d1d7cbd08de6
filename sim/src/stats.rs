//! Reach counters: how often each fault kind really altered an operation, and named probes.

use crate::disk::{Fault, OpKind};
use std::collections::BTreeMap;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering};

static COUNTS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
/// Off while replaying / minimising, so that the counters describe the exploration alone
pub static ENABLED: AtomicBool = AtomicBool::new(true);

pub fn named(s: &str) {
	add(s, 1);
}

pub fn add(s: &str, n: u64) {
	if !ENABLED.load(Ordering::Relaxed) {
		return;
	}
	let mut c = COUNTS.lock().unwrap();
	match c.get_mut(s) {
		Some(v) => *v += n,
		None => {
			c.insert(s.to_string(), n);
		},
	}
}

pub fn fault(kind: OpKind, f: Fault) {
	let k = match kind {
		OpKind::Read => "read",
		OpKind::Write => "write",
		OpKind::Seek => "seek",
		OpKind::Truncate => "truncate",
		OpKind::Len => "len",
		OpKind::Flush => "flush",
	};
	let n = match f {
		Fault::Short(_) => "short",
		Fault::Eintr => "interrupted",
		Fault::Eio => "error",
		Fault::Timeout => "timeout",
		Fault::Denied => "denied",
		Fault::FakeEof => "fake_eof",
		Fault::Torn(_) => "torn",
		Fault::Zero => "zero",
		Fault::Gone => "device_gone",
		Fault::Crash(_) => "crash",
	};
	add(&format!("fault.{k}.{n}"), 1);
}

pub fn snapshot() -> BTreeMap<String, u64> {
	COUNTS.lock().unwrap().clone()
}
