//! The registry of properties.

use crate::hist::{Hist, HistGen, exec_hist, gen_hist, hist_fmts};
use crate::prop::{Ctx, Prop, from_value, to_value};
use crate::audio;
use crate::encode;
use crate::fields;
use crate::generic;
use crate::keys;
use crate::memory;
use crate::pager;
use crate::reads;
use crate::retry;
use crate::rng::Rng;
use crate::threads;
use crate::engine::Violation;
use serde_json::Value;

const LIB: &[&str] = &["lofty (all readers and writers)", "ogg_pager"];
const STUB: &[&str] = &["storage device (SimDisk)"];

const DEFAULT: Prop = Prop {
	id: "",
	cases_quick: 2000,
	cases_thorough: 200_000,
	gen_case: |_, _| Value::Null,
	exec: |_, _| Ok(Vec::new()),
	rule: "",
	real: LIB,
	stub: STUB,
};

macro_rules! simple {
	($id:literal, $q:expr, $t:expr, $gen:expr, $ty:ty, $exec:expr, $rule:expr) => {
		Prop {
			id: $id,
			cases_quick: $q,
			cases_thorough: $t,
			gen_case: |r, _| to_value(&$gen(r)),
			exec: |v, c| $exec(&from_value::<$ty>(v)?, c),
			rule: $rule,
			..DEFAULT
		}
	};
}


fn starts(v: &Violation, with: &[&str]) -> bool {
	with.iter().any(|w| v.class.starts_with(w))
}

/// The violations of a history that belong to a property; an unrelated one ends the history early
fn hist_of(v: &Value, c: &mut Ctx, with: &[&str]) -> Result<Vec<Violation>, String> {
	let all = exec_hist(&from_value::<Hist>(v)?, c)?;
	if all.iter().all(|v| v.class == crate::hist::NO_FOOTER) {
		return Ok(all.into_iter().filter(|x| starts(x, with)).collect());
	}
	let own: Vec<Violation> = all.into_iter().filter(|x| starts(x, with)).collect();
	if own.is_empty() {
		c.cut += 1;
	}
	Ok(own)
}

fn hist(r: &mut Rng, g: HistGen) -> Value {
	to_value(&gen_hist(r, &g, hist_fmts()))
}

const G: HistGen = HistGen {
	steps: 5,
	faults: 250,
	noise: 300,
	assets: 120,
	removes: 180,
	resaves: 120,
	big: 3000,
	repeat: 0,
	foreign: 100,
};

pub fn all() -> Vec<Prop> {
	vec![
		Prop {
			id: "X00",
			gen_case: |r, _| to_value(&gen_hist(r, &HistGen::default(), hist_fmts())),
			exec: |v, c| exec_hist(&from_value::<Hist>(v)?, c),
			..DEFAULT
		},
		simple!("C01", 120_000, 2_000_000, reads::gen_delivery, reads::Delivery, reads::exec_delivery,
			"operation traces of reads in which at least one transfer was short or interrupted"),
		simple!("C02", 600_000, 12_000_000, reads::gen_read_fault, reads::ReadFault, reads::exec_read_fault,
			"operation traces of reads in which a read, seek or length query failed"),
		Prop {
			id: "C03",
			cases_quick: 130_000,
			cases_thorough: 4_000_000,
			gen_case: |r, _| hist(r, HistGen { faults: 0, noise: 1000, steps: 4, resaves: 200, ..G }),
			exec: |v, c| hist_of(v, c, &["delivery changes result", "panic under fault"]),
			rule: "operation traces of saves and removals in which at least one transfer was short or interrupted, and of the undisturbed calls they are compared with",
			..DEFAULT
		},
		simple!("C04", 400_000, 12_000_000, retry::gen_refusal, retry::Refusal, retry::exec_refusal,
			"operation traces of saves and removals that failed or were refused"),
		Prop {
			id: "C05",
			cases_quick: 350_000,
			cases_thorough: 5_000_000,
			gen_case: |r, _| hist(r, HistGen { faults: 1000, noise: 150, steps: 4, ..G }),
			exec: |v, c| hist_of(v, c, &["acknowledged despite", "fault changes refusal", "panic under fault", "panic on crash", "no termination"]),
			rule: "operation traces of saves and removals in which a device operation failed, the device was full or the machine stopped, and of the undisturbed calls they are compared with",
			..DEFAULT
		},
		Prop {
			id: "C06",
			cases_quick: 250_000,
			cases_thorough: 5_000_000,
			gen_case: |r, _| hist(r, HistGen { faults: 0, noise: 100, steps: 6, assets: 150, resaves: 150, ..G }),
			exec: |v, c| hist_of(v, c, &["payload"]),
			rule: "operation traces of acknowledged saves and removals after which the audio payload was compared",
			..DEFAULT
		},
		Prop {
			id: "C07",
			cases_quick: 250_000,
			cases_thorough: 5_000_000,
			gen_case: |r, _| hist(r, HistGen { faults: 0, noise: 100, steps: 6, assets: 150, resaves: 150, ..G }),
			exec: |v, c| hist_of(v, c, &["structure", "unreadable", "file type"]),
			rule: "operation traces of acknowledged saves and removals after which the container was parsed independently",
			..DEFAULT
		},
		Prop {
			id: "C08",
			cases_quick: 260_000,
			cases_thorough: 5_000_000,
			gen_case: |r, _| hist(r, HistGen { faults: 0, noise: 100, steps: 6, removes: 120, ..G }),
			exec: |v, c| {
				let with = ["content", "lost", "remains", "untouched", "appeared", "pictures", "others", "refused", "acknowledged nothing", "panic", "no termination"];
				let own = hist_of(v, c, &with)?;
				Ok(if own.is_empty() { crate::hist::dumps(&from_value::<Hist>(v)?) } else { own })
			},
			rule: "operation traces of acknowledged saves and removals after which all tags and other blocks were compared with the model",
			..DEFAULT
		},
		Prop {
			id: "C09",
			cases_quick: 400_000,
			cases_thorough: 5_000_000,
			gen_case: |r, _| hist(r, HistGen { faults: 0, noise: 100, steps: 6, removes: 550, assets: 200, ..G }),
			exec: |v, c| {
				let own = hist_of(v, c, &["remains", "lost", "untouched", "appeared", "duplicate", "others", "payload", "unreadable", "refused"])?;
				Ok(own.into_iter().filter(|x| x.detail.contains("(remove ")).collect())
			},
			rule: "operation traces of acknowledged saves and removals; the state after every removal was compared with the model",
			..DEFAULT
		},
		Prop {
			id: "C10",
			cases_quick: 300_000,
			cases_thorough: 5_000_000,
			gen_case: |r, _| hist(r, HistGen { faults: 0, noise: 50, steps: 6, repeat: 550, resaves: 300, removes: 80, ..G }),
			exec: |v, c| hist_of(v, c, &["not idempotent", "duplicate"]),
			rule: "operation traces of acknowledged saves and removals; repeated calls were compared with the call before",
			..DEFAULT
		},
		Prop {
			id: "C21",
			cases_quick: 250_000,
			cases_thorough: 5_000_000,
			gen_case: |r, _| hist(r, HistGen { faults: 0, noise: 100, steps: 6, removes: 60, resaves: 150, foreign: 200, ..G }),
			exec: |v, c| {
				let own = hist_of(v, c, &["form", crate::hist::NO_FOOTER])?;
				// frames whose content the library writes by request
				Ok(if own.is_empty() { crate::hist::parts(&from_value::<Hist>(v)?) } else { own })
			},
			rule: "operation traces of acknowledged saves and removals after which the written tags were validated independently",
			..DEFAULT
		},
		simple!("C11", 700_000, 10_000_000, retry::gen_retry, retry::Retry, retry::exec_retry,
			"operation traces of attempts that failed and of the attempts that followed them"),
		simple!("C12", 1_200_000, 40_000_000, reads::gen_damaged, reads::Damaged, reads::exec_damaged,
			"operation traces of reads and writes on damaged streams"),
		simple!("C13", 450_000, 10_000_000, memory::gen_memory, memory::Memory, memory::exec_memory,
			"operation traces of reads and saves that requested more than 4 KiB at once"),
		simple!("C14", 400_000, 10_000_000, keys::gen_keyed, keys::Keyed, keys::exec_keyed,
			"operation traces of saves of format-independent tags with short or interrupted transfers"),
		simple!("C15", 300_000, 10_000_000, generic::gen_generic, generic::Generic, generic::exec_generic,
			"operation traces of edits through the format-independent tag with short or interrupted transfers"),
		Prop {
			real: &["ogg_pager"],
			..simple!("C16", 500_000, 20_000_000, pager::gen_pager, pager::Pager, pager::exec_pager,
			"operation traces of streams of pages that were read or written under short, interrupted or failed transfers")
		},
		simple!("C17", 600_000, 9_000_000, reads::gen_select, reads::Select, reads::exec_select,
			"operation traces of reads with different options"),
		simple!("C18", 2_000_000, 30_000_000, reads::gen_detect, reads::Detect, reads::exec_detect,
			"operation traces of detections with disturbed delivery or a failed operation"),
		simple!("C19", 1_000_000, 20_000_000, audio::gen_audio, audio::Audio, audio::exec_audio,
			"operation traces of readings of described streams with short or interrupted transfers"),
		Prop {
			stub: &["storage device (SimDisk)", "thread scheduler (Sched)"],
			..simple!("C22", 50_000, 1_500_000, threads::gen_threads, threads::Threads, threads::exec_threads,
			"operation traces of calls made by a thread while other threads ran in between, together with the schedule")
		},
		simple!("C23", 300_000, 10_000_000, fields::gen_fields, fields::Fields, fields::exec_fields,
			"operation traces of sessions that opened a file, edited fields of a tag and saved it"),
		simple!("C20", 1_200_000, 20_000_000, encode::gen_stored, encode::Stored, encode::exec_stored,
			"operation traces of readings under short or interrupted transfers"),
	]
}
