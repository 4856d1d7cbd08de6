mod alloc;
mod assets;
mod audio;
mod disk;
mod dissect;
mod dump;
mod encode;
mod engine;
mod fields;
mod files;
mod generic;
mod hist;
mod keys;
mod media;
mod memory;
mod pager;
mod parts;
mod prop;
mod props;
mod reads;
mod retry;
mod rng;
mod run;
mod runner;
mod sched;
mod stats;
mod tagcheck;
mod tags;
mod threads;

use std::time::Duration;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn env(name: &str) -> Option<String> {
	std::env::var(name).ok().filter(|s| !s.is_empty())
}

fn main() {
	let code = std::thread::Builder::new()
		.stack_size(64 << 20)
		.spawn(real_main)
		.expect("main thread")
		.join()
		.unwrap_or(101);
	std::process::exit(code);
}

fn real_main() -> i32 {
	run::install_hook();
	let a: Vec<String> = std::env::args().skip(1).collect();
	let props = props::all();
	let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
	match a.first().map(String::as_str) {
		Some("check") => {
			let tier = a.get(2).cloned().or_else(|| env("VERIF_TIER")).unwrap_or_else(|| "quick".into());
			let cfg = runner::RunCfg {
				seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
				workers: env("VERIF_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(8),
				cases: env("VERIF_CASES").and_then(|s| s.parse().ok()),
				wall: Duration::from_secs(if tier == "thorough" { 3600 } else { 420 }),
				tier,
			};
			runner::check(find(&a[1]), &cfg)
		},
		Some("worker") => runner::worker(find(&a[1]), &a[2..]),
		Some("exec-case") => runner::exec_case(&props, &a[1]),
		Some("replay") => runner::replay(&props, &a[1]),
		Some("survey") => {
			let n = |i: usize, d: u64| a.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
			runner::survey(find(&a[1]), n(4, 1), n(2, 0), n(3, 1000), 8);
			0
		},
		Some("show") => {
			runner::show_case(find(&a[1]), 1, a[2].parse().expect("index"), a.get(3).map(String::as_str));
			0
		},
		_ => {
			eprintln!("usage: loftysim check PROP [quick|thorough] | replay FILE | survey PROP FROM TO | show PROP IDX");
			2
		},
	}
}
