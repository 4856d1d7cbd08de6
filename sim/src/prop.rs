//! What a property is to the runner: a seeded case generator and an executor that judges a case.

use crate::disk::SimDisk;
use crate::engine::Violation;
use crate::rng::Rng;
use serde_json::Value;
use std::collections::HashSet;

#[derive(Default)]
pub struct Ctx {
	/// simulated runs (one library call sequence on one device under one plan)
	pub sims: u64,
	pub ops: u64,
	pub sim_ns: u64,
	/// distinct operation traces (kind, size, position, fault of every device operation)
	pub distinct: HashSet<u64>,
	pub distinct_nontrivial: HashSet<u64>,
	/// cases whose history ended early because an unrelated guarantee broke or the call refused
	pub cut: u64,
	/// everything the devices of these runs did, in order
	pub digest: u64,
}

impl Ctx {
	/// Account for one simulated run
	pub fn sim(&mut self, d: &SimDisk, nontrivial: bool) {
		self.sims += 1;
		self.ops += d.ops.get();
		self.sim_ns += d.time_ns.get();
		let h = d.trace_hash.get();
		self.digest = crate::rng::mix(&[self.digest, h, d.ops.get()]);
		if self.distinct.len() < 4_000_000 {
			self.distinct.insert(h);
			if nontrivial {
				self.distinct_nontrivial.insert(h);
			}
		}
	}
}

pub struct Prop {
	pub id: &'static str,
	pub cases_quick: u64,
	pub cases_thorough: u64,
	pub gen_case: fn(&mut Rng, u64) -> Value,
	pub exec: fn(&Value, &mut Ctx) -> Result<Vec<Violation>, String>,
	pub rule: &'static str,
	pub real: &'static [&'static str],
	pub stub: &'static [&'static str],
}

pub fn to_value<T: serde::Serialize>(t: &T) -> Value {
	serde_json::to_value(t).expect("case serialises")
}

pub fn from_value<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, String> {
	T::deserialize(v).map_err(|e| format!("malformed case: {e}"))
}
