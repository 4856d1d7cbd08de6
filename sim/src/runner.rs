//! Parent / worker processes, minimisation, replay files and evidence.

use crate::engine::Violation;
use crate::prop::{Ctx, Prop};
use crate::rng::{Rng, hash_bytes, mix};
use crate::stats;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

/// Wall clock after which a case counts as hanging (cases take milliseconds)
const HANG: Duration = Duration::from_secs(90);

/// One of so many cases is executed twice more to see whether it repeats exactly
const SELF_TEST: u64 = 500;

pub fn case_rng(p: &Prop, seed: u64, idx: u64) -> Rng {
	Rng::new(mix(&[seed, hash_bytes(p.id.as_bytes()), idx]))
}

fn exec_caught(p: &Prop, case: &Value, ctx: &mut Ctx) -> Result<Vec<Violation>, String> {
	match crate::run::catch(|| (p.exec)(case, ctx)) {
		Ok(r) => r,
		Err(m) => Err(format!("the harness itself panicked: {m}")),
	}
}

// ------------------------------------------------------------------------------------------------
// worker

pub fn worker(p: &Prop, a: &[String]) -> i32 {
	let num = |i: usize| a[i].parse::<u64>().expect("number");
	let (w, n, count, seed, wall_ms) = (num(0), num(1), num(2), num(3), num(4));
	let dir = PathBuf::from(&a[5]);
	let t0 = Instant::now();
	let mut prog = std::fs::File::create(dir.join(format!("w{w}.prog"))).expect("progress file");
	let mut ctx = Ctx::default();
	let mut cases = 0u64;
	let mut violation = Value::Null;
	let mut error = Value::Null;
	let mut samples = Vec::new();
	let mut capped = false;
	let (mut reruns, mut differing) = (0u64, 0u64);
	// a listed finding is confirmed with its own case; its class stands for exactly that defect
	let listed: Vec<String> = known(p).into_iter().map(|k| k.class).collect();
	let mut i = w;
	while i < count {
		if t0.elapsed().as_millis() as u64 > wall_ms {
			capped = true;
			break;
		}
		{
			use std::os::unix::fs::FileExt;
			prog.write_all_at(&i.to_le_bytes(), 0).expect("progress");
		}
		let mut rng = case_rng(p, seed, i);
		let case = match crate::run::catch(|| (p.gen_case)(&mut rng, i)) {
			Ok(c) => c,
			Err(e) => {
				error = json!({"idx": i, "error": format!("generator: {e}")});
				break;
			},
		};
		if cases < 2 && w < 3 {
			samples.push(json!({"idx": i, "case": case}));
		}
		cases += 1;
		if cases % SELF_TEST == 1 {
			stats::ENABLED.store(false, Ordering::Relaxed);
			let run = || {
				let mut c = Ctx::default();
				let _ = exec_caught(p, &case, &mut c);
				(c.sims, c.ops, c.digest)
			};
			reruns += 1;
			differing += u64::from(run() != run());
			stats::ENABLED.store(true, Ordering::Relaxed);
		}
		let r = exec_caught(p, &case, &mut ctx).map(|mut v| {
			v.retain(|x| !listed.contains(&x.class));
			v
		});
		match r {
			Ok(v) if v.is_empty() => {},
			Ok(v) => {
				violation = json!({"idx": i, "class": v[0].class, "detail": v[0].detail, "case": case});
				break;
			},
			Err(e) => {
				error = json!({"idx": i, "error": e, "case": case});
				break;
			},
		}
		i += n;
	}
	let mut d: Vec<u8> = Vec::with_capacity(ctx.distinct.len() * 8);
	for h in &ctx.distinct {
		d.extend(h.to_le_bytes());
	}
	std::fs::write(dir.join(format!("w{w}.distinct")), d).ok();
	let mut d: Vec<u8> = Vec::with_capacity(ctx.distinct_nontrivial.len() * 8);
	for h in &ctx.distinct_nontrivial {
		d.extend(h.to_le_bytes());
	}
	std::fs::write(dir.join(format!("w{w}.nontrivial")), d).ok();
	let out = json!({
		"cases": cases, "sims": ctx.sims, "ops": ctx.ops, "sim_ns": ctx.sim_ns, "cut": ctx.cut,
		"violation": violation, "error": error, "samples": samples, "capped": capped,
		"counters": stats::snapshot(), "reruns": reruns, "differing": differing,
	});
	let tmp = dir.join(format!("w{w}.tmp"));
	std::fs::write(&tmp, serde_json::to_vec(&out).unwrap()).expect("worker output");
	std::fs::rename(&tmp, dir.join(format!("w{w}.json"))).expect("worker output");
	let _ = prog.flush();
	0
}

// ------------------------------------------------------------------------------------------------
// single case in a child process (aborts, stack overflows and hangs)

/// `Ok(class)`; `None` when the case passes
fn exec_isolated(p: &Prop, case: &Value, dir: &Path, limit: Duration) -> Result<Option<(String, String)>, String> {
	exec_series(p, std::slice::from_ref(case), dir, limit)
}

/// The same for the last of a series of cases, executed one after another in a fresh process
fn exec_series(p: &Prop, cases: &[Value], dir: &Path, limit: Duration) -> Result<Option<(String, String)>, String> {
	let f = dir.join("isolated.json");
	std::fs::write(&f, serde_json::to_vec(&json!({"property": p.id, "cases": cases})).unwrap()).map_err(|e| e.to_string())?;
	let mut c = Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
		.arg("exec-case")
		.arg(&f)
		.stdout(Stdio::piped())
		.stderr(Stdio::null())
		.spawn()
		.map_err(|e| e.to_string())?;
	let t0 = Instant::now();
	loop {
		match c.try_wait().map_err(|e| e.to_string())? {
			Some(st) => {
				let mut s = String::new();
				if let Some(mut o) = c.stdout.take() {
					let _ = o.read_to_string(&mut s);
				}
				if st.code() == Some(0) {
					let v: Value = serde_json::from_str(s.trim()).map_err(|e| format!("{e}: {s}"))?;
					if let Some(e) = v.get("error") {
						return Err(e.to_string());
					}
					return Ok(v.get("class").map(|c| {
						(c.as_str().unwrap_or("").to_string(), v["detail"].as_str().unwrap_or("").to_string())
					}));
				}
				return Ok(Some(("process died".into(), format!("the process was terminated: {st}"))));
			},
			None if t0.elapsed() > limit => {
				let _ = c.kill();
				let _ = c.wait();
				return Ok(Some(("hang".into(), format!("no result within {} s", limit.as_secs()))));
			},
			None => std::thread::sleep(Duration::from_millis(2)),
		}
	}
}

/// The cases of a replay file: one, or several if the failure needs what the library keeps between calls
fn series_of(v: &Value) -> Vec<Value> {
	match v["cases"].as_array() {
		Some(c) => c.clone(),
		None => vec![v["case"].clone()],
	}
}

/// The shortest series of cases found that ends with case `idx` and makes it fail: for a library that keeps
/// something from one call to the next
fn failing_series(p: &Prop, seed: u64, idx: u64, step: u64, class: &str, dir: &Path) -> Option<Vec<Value>> {
	let t0 = Instant::now();
	let limit = Duration::from_secs(100);
	let case = |i: u64| (p.gen_case)(&mut case_rng(p, seed, i), i);
	let fails = |c: &[Value]| exec_series(p, c, dir, HANG).is_ok_and(|r| r.is_some_and(|(k, _)| k == class));
	let mut n = 1;
	let mut best = loop {
		let before = n.min(idx / step);
		let c: Vec<Value> = (0..=before).rev().map(|k| case(idx - k * step)).collect();
		if fails(&c) {
			break c;
		}
		if before == idx / step || t0.elapsed() > limit {
			return None;
		}
		n *= 4;
	};
	let mut part = best.len() / 2;
	while part >= 1 {
		let mut at = 0;
		while at + 1 < best.len() {
			if t0.elapsed() > limit * 2 {
				return Some(best);
			}
			let mut c = best.clone();
			c.drain(at..(at + part).min(best.len() - 1));
			if fails(&c) {
				best = c;
			} else {
				at += part;
			}
		}
		part /= 2;
	}
	Some(best)
}

pub fn exec_case(props: &[Prop], file: &str) -> i32 {
	let v: Value = serde_json::from_slice(&std::fs::read(file).expect("case file")).expect("json");
	let p = props.iter().find(|p| Some(p.id) == v["property"].as_str()).expect("property");
	let cases = series_of(&v);
	let mut r = Ok(Vec::new());
	for c in &cases {
		r = exec_caught(p, c, &mut Ctx::default());
	}
	match r {
		Ok(v) if v.is_empty() => println!("{{}}"),
		Ok(v) => println!("{}", json!({"class": v[0].class, "detail": v[0].detail})),
		Err(e) => println!("{}", json!({"error": e})),
	}
	0
}

// ------------------------------------------------------------------------------------------------
// minimisation: structural shrinking of the case's JSON, keeping the class of the violation

fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<(usize, Vec<String>)>) {
	out.push((at.len(), at.clone()));
	match v {
		Value::Array(a) => {
			for (i, x) in a.iter().enumerate() {
				at.push(i.to_string());
				paths(x, at, out);
				at.pop();
			}
		},
		Value::Object(o) => {
			for (k, x) in o {
				at.push(k.clone());
				paths(x, at, out);
				at.pop();
			}
		},
		_ => {},
	}
}

fn get<'a>(v: &'a Value, p: &[String]) -> Option<&'a Value> {
	let mut c = v;
	for k in p {
		c = match c {
			Value::Array(a) => a.get(k.parse::<usize>().ok()?)?,
			Value::Object(o) => o.get(k)?,
			_ => return None,
		};
	}
	Some(c)
}

fn get_mut<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
	let mut c = v;
	for k in p {
		c = match c {
			Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
			Value::Object(o) => o.get_mut(k)?,
			_ => return None,
		};
	}
	Some(c)
}

fn candidates(v: &Value) -> Vec<Value> {
	let mut out = Vec::new();
	match v {
		Value::Array(a) if !a.is_empty() => {
			let mut n = a.len();
			while n >= 1 {
				let mut at = 0;
				while at < a.len() {
					let mut b = a.clone();
					b.drain(at..(at + n).min(a.len()));
					out.push(Value::Array(b));
					at += n;
				}
				n /= 2;
			}
		},
		Value::Object(o) => {
			for k in o.keys() {
				let mut b = o.clone();
				b.remove(k);
				out.push(Value::Object(b));
			}
		},
		Value::Number(n) => {
			if let Some(x) = n.as_u64() {
				let mut c = vec![0, 1, x / 2, x - x / 4, x.saturating_sub(8), x.saturating_sub(1)];
				c.retain(|c| *c < x);
				c.dedup();
				out.extend(c.into_iter().map(Value::from));
			}
		},
		Value::Bool(true) => out.push(Value::Bool(false)),
		Value::String(s) if !s.is_empty() => {
			let ch: Vec<char> = s.chars().collect();
			if ch.len() > 1 {
				out.push(Value::String(ch[..ch.len() / 2].iter().collect()));
				out.push(Value::String(ch[ch.len() / 2..].iter().collect()));
				out.push(Value::String(ch[..ch.len() - 1].iter().collect()));
			}
			out.push(Value::String(String::new()));
		},
		_ => {},
	}
	out
}

fn minimise(case: &Value, limit: Duration, still: &mut dyn FnMut(&Value) -> bool) -> (Value, u64) {
	let t0 = Instant::now();
	let mut best = case.clone();
	let mut tries = 0;
	loop {
		let mut changed = false;
		let mut ps = Vec::new();
		paths(&best, &mut Vec::new(), &mut ps);
		ps.sort_by_key(|(d, _)| *d);
		for (_, p) in ps {
			let mut retry = true;
			while retry {
				retry = false;
				let Some(cur) = get(&best, &p).cloned() else { break };
				for c in candidates(&cur) {
					if t0.elapsed() > limit {
						return (best, tries);
					}
					let mut t = best.clone();
					if let Some(slot) = get_mut(&mut t, &p) {
						*slot = c;
					}
					tries += 1;
					if still(&t) {
						best = t;
						changed = true;
						retry = true;
						break;
					}
				}
			}
		}
		if !changed {
			return (best, tries);
		}
	}
}

// ------------------------------------------------------------------------------------------------
// known findings

struct Known {
	property: String,
	what: String,
	class: String,
	case: Value,
}

fn known(p: &Prop) -> Vec<Known> {
	let Ok(b) = std::fs::read("/verif/known_findings.json") else {
		return Vec::new();
	};
	let v: Value = serde_json::from_slice(&b).expect("known_findings.json");
	v["findings"]
		.as_array()
		.map(|a| {
			a.iter()
				.filter(|f| f["property"] == p.id)
				.map(|f| Known {
					property: p.id.to_string(),
					what: f["what"].as_str().unwrap_or("").to_string(),
					class: f["class"].as_str().unwrap_or("").to_string(),
					case: f["case"].clone(),
				})
				.collect()
		})
		.unwrap_or_default()
}

// ------------------------------------------------------------------------------------------------
// parent

fn rm(dir: &Path) {
	if dir.starts_with("/verif/target/") {
		let _ = std::fs::remove_dir_all(dir);
	}
}

fn write_replay(p: &Prop, class: &str, detail: &str, case: &Value, seed: Value, original: &Value) -> PathBuf {
	let dir = PathBuf::from("/verif/evidence/replays");
	std::fs::create_dir_all(&dir).expect("replay directory");
	let key = if case.is_array() { "cases" } else { "case" };
	let body = json!({
		"property": p.id, "class": class, "detail": detail, "seed": seed, key: case, "unminimised": original,
	});
	let h = hash_bytes(serde_json::to_string(case).unwrap().as_bytes());
	let f = dir.join(format!("{}-{h:016x}.json", p.id));
	std::fs::write(&f, serde_json::to_vec_pretty(&body).unwrap()).expect("replay file");
	f
}

pub struct RunCfg {
	pub tier: String,
	pub seed: u64,
	pub workers: u64,
	pub cases: Option<u64>,
	pub wall: Duration,
}

pub fn check(p: &Prop, cfg: &RunCfg) -> i32 {
	let t0 = Instant::now();
	let dir = PathBuf::from(format!("/verif/target/run-{}-{}", p.id, std::process::id()));
	std::fs::create_dir_all(&dir).expect("scratch directory");
	let r = check_inner(p, cfg, &dir, t0);
	rm(&dir);
	r
}

fn check_inner(p: &Prop, cfg: &RunCfg, dir: &Path, t0: Instant) -> i32 {
	// pinned cases of the known findings first
	let mut known_lines = Vec::new();
	let mut pinned_new: Option<(String, String, Value)> = None;
	for k in known(p) {
		match exec_isolated(p, &k.case, dir, HANG) {
			Ok(Some((c, _))) if c == k.class => {
				println!("KNOWN-FINDING: property={} {}", k.property, k.what);
				known_lines.push(k.what);
			},
			Ok(None) => println!("note: the known finding no longer fails: {}", k.what),
			Ok(Some((c, d))) => pinned_new = Some((c, d, k.case)),
			Err(e) => {
				eprintln!("known finding cannot be replayed: {e}");
				return 2;
			},
		}
	}

	let count = cfg.cases.unwrap_or(if cfg.tier == "thorough" { p.cases_thorough } else { p.cases_quick });
	let exe = std::env::current_exe().expect("exe");
	let mut kids: Vec<Option<std::process::Child>> = Vec::new();
	for w in 0..cfg.workers {
		kids.push(Some(
			Command::new(&exe)
				.args([
					"worker",
					p.id,
					&w.to_string(),
					&cfg.workers.to_string(),
					&count.to_string(),
					&cfg.seed.to_string(),
					&cfg.wall.as_millis().to_string(),
				])
				.arg(dir)
				.stdin(Stdio::null())
				.stdout(Stdio::null())
				.stderr(Stdio::null())
				.spawn()
				.expect("spawn worker"),
		));
	}
	let prog = |w: u64| -> Option<u64> {
		let b = std::fs::read(dir.join(format!("w{w}.prog"))).ok()?;
		Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
	};
	let mut last: Vec<(Option<u64>, Instant)> = vec![(None, Instant::now()); cfg.workers as usize];
	// (idx, class)
	let mut dead: Vec<(u64, &'static str)> = Vec::new();
	while kids.iter().any(Option::is_some) {
		for w in 0..cfg.workers as usize {
			let Some(c) = kids[w].as_mut() else { continue };
			match c.try_wait() {
				Ok(Some(st)) => {
					kids[w] = None;
					if !st.success() {
						dead.push((prog(w as u64).unwrap_or(w as u64), "process died"));
					}
				},
				Ok(None) => {
					let now = prog(w as u64);
					if now != last[w].0 {
						last[w] = (now, Instant::now());
					} else if last[w].1.elapsed() > HANG {
						let _ = c.kill();
						let _ = c.wait();
						kids[w] = None;
						dead.push((now.unwrap_or(w as u64), "hang"));
					}
				},
				Err(_) => kids[w] = None,
			}
		}
		std::thread::sleep(Duration::from_millis(5));
	}

	let mut best: Option<(u64, String, String, Value)> = None;
	let (mut cases, mut sims, mut ops, mut sim_ns, mut cut) = (0u64, 0u64, 0u64, 0u64, 0u64);
	let (mut reruns, mut differing) = (0u64, 0u64);
	let mut capped = false;
	let mut counters: BTreeMap<String, u64> = BTreeMap::new();
	let mut samples = Vec::new();
	let mut errors = Vec::new();
	let mut distinct: HashSet<u64> = HashSet::new();
	let mut nontrivial: HashSet<u64> = HashSet::new();
	for w in 0..cfg.workers {
		for (name, set) in [("distinct", &mut distinct), ("nontrivial", &mut nontrivial)] {
			if let Ok(b) = std::fs::read(dir.join(format!("w{w}.{name}"))) {
				set.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
			}
		}
		let Ok(b) = std::fs::read(dir.join(format!("w{w}.json"))) else { continue };
		let v: Value = serde_json::from_slice(&b).expect("worker output");
		cases += v["cases"].as_u64().unwrap_or(0);
		sims += v["sims"].as_u64().unwrap_or(0);
		ops += v["ops"].as_u64().unwrap_or(0);
		sim_ns += v["sim_ns"].as_u64().unwrap_or(0);
		cut += v["cut"].as_u64().unwrap_or(0);
		reruns += v["reruns"].as_u64().unwrap_or(0);
		differing += v["differing"].as_u64().unwrap_or(0);
		capped |= v["capped"].as_bool().unwrap_or(false);
		for (k, n) in v["counters"].as_object().into_iter().flatten() {
			*counters.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
		}
		samples.extend(v["samples"].as_array().cloned().unwrap_or_default());
		if !v["error"].is_null() {
			errors.push(v["error"].clone());
		}
		if let Some(i) = v["violation"]["idx"].as_u64() {
			if best.as_ref().is_none_or(|b| i < b.0) {
				let x = &v["violation"];
				best = Some((
					i,
					x["class"].as_str().unwrap_or("").into(),
					x["detail"].as_str().unwrap_or("").into(),
					x["case"].clone(),
				));
			}
		}
	}
	let mut isolated = false;
	for (i, what) in dead {
		if best.as_ref().is_some_and(|b| b.0 <= i) {
			continue;
		}
		let case = (p.gen_case)(&mut case_rng(p, cfg.seed, i), i);
		match exec_isolated(p, &case, dir, HANG) {
			Ok(Some((c, d))) => {
				isolated = c == "hang" || c == "process died";
				best = Some((i, c, d, case));
			},
			Ok(None) => errors.push(json!({"idx": i, "error": format!("worker: {what}; not reproducible alone")})),
			Err(e) => errors.push(json!({"idx": i, "error": e})),
		}
	}
	if best.is_none() {
		if let Some((c, d, case)) = pinned_new {
			isolated = c == "hang" || c == "process died";
			best = Some((u64::MAX, c, d, case));
		}
	}

	stats::ENABLED.store(false, Ordering::Relaxed);
	let mut code = 0;
	let mut vjson = Vec::new();
	if let Some((idx, class, detail, case)) = best {
		let mut again = |c: &Value| -> Option<(String, String)> {
			if isolated {
				exec_isolated(p, c, dir, Duration::from_secs(20)).ok().flatten()
			} else {
				exec_caught(p, c, &mut Ctx::default())
					.ok()
					.and_then(|v| v.into_iter().next())
					.map(|v| (v.class, v.detail))
			}
		};
		let mut repro = false;
		for _ in 0..4 {
			if again(&case).is_some_and(|(c, _)| c == class) {
				repro = true;
				break;
			}
		}
		let series = if repro || isolated || idx == u64::MAX {
			None
		} else {
			failing_series(p, cfg.seed, idx, cfg.workers, &class, dir)
		};
		if let Some(series) = series {
			let f = write_replay(p, &class, &detail, &Value::from(series.clone()), json!({"VERIF_SEED": cfg.seed, "case": idx}), &case);
			println!("violation: {class}: {}", printable(&detail));
			println!("only after {} other cases: the library keeps something between calls; seed {} case {idx}", series.len() - 1, cfg.seed);
			println!("VIOLATION property={} replay={}", p.id, f.display());
			vjson.push(json!({"class": class, "detail": detail, "replay": f.display().to_string(), "case": idx}));
			code = 1;
		} else if !repro {
			eprintln!("case {idx} failed with '{class}' ({detail}) once but does not reproduce");
			errors.push(json!({"idx": idx, "error": format!("not reproducible: {class}: {detail}")}));
		} else {
			let (min, tries) = minimise(&case, Duration::from_secs(25), &mut |c| again(c).is_some_and(|(k, _)| k == class));
			let detail = again(&min).map_or(detail, |(_, d)| d);
			let f = write_replay(p, &class, &detail, &min, json!({"VERIF_SEED": cfg.seed, "case": idx}), &case);
			println!("violation: {class}: {}", printable(&detail));
			println!("minimised in {tries} attempts; seed {} case {idx}", cfg.seed);
			println!("VIOLATION property={} replay={}", p.id, f.display());
			vjson.push(json!({"class": class, "detail": detail, "replay": f.display().to_string(), "case": idx}));
			code = 1;
		}
	}
	for e in &errors {
		eprintln!("harness error: {}", serde_json::to_string(e).unwrap());
	}
	if code == 0 && !errors.is_empty() {
		code = 2;
	}

	let wall = t0.elapsed().as_secs_f64();
	let faults: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| k.starts_with("fault.") || k.contains("enospc")).collect();
	let probes: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| !k.starts_with("fault.") && !k.contains("enospc")).collect();
	let ev = json!({
		"property": p.id,
		"tier": cfg.tier,
		"seed": cfg.seed,
		"level": "exploration",
		"wall_s": (wall * 10.0).round() / 10.0,
		"coverage": {
			"evaluations": sims,
			"distinct_nontrivial": nontrivial.len(),
			"rule": p.rule,
			"samples": samples,
			"cases": cases,
			"cases_planned": count,
			"stopped_by_wall_clock": capped,
			"cases_cut_short": cut,
			"device_operations": ops,
			"simulated_seconds": sim_ns as f64 / 1e9,
			"runs_per_hour": (sims as f64 / wall.max(0.001) * 3600.0) as u64,
			"seeds_per_hour": (cases as f64 / wall.max(0.001) * 3600.0) as u64,
			"distinct_operation_traces": distinct.len(),
			"faults_fired": faults,
			"reach_counters": probes,
			"real_components": p.real,
			"stubbed_components": p.stub,
			"determinism_self_test": {"cases_repeated": reruns, "differing": differing},
			"known_findings_confirmed": known_lines,
			"harness_errors": errors,
		},
		"violations": vjson,
		"assumptions": [
			"the independent container parsers in sim/src/dissect.rs read the formats correctly",
			"a device operation is atomic unless the fault plan tears it; threads interleave at device operations",
		],
	});
	std::fs::create_dir_all("/verif/evidence").expect("evidence directory");
	std::fs::write(format!("/verif/evidence/{}.json", p.id), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
	println!(
		"{} {}: {cases} cases, {sims} simulated runs, {} distinct traces ({} nontrivial), {wall:.1} s, exit {code}",
		p.id,
		cfg.tier,
		distinct.len(),
		nontrivial.len()
	);
	code
}

/// No control characters and a bounded length, for the terminal
fn printable(s: &str) -> String {
	let t: String = s.chars().take(1500).map(|c| if c.is_control() { '\u{fffd}' } else { c }).collect();
	if t.len() < s.len() { t + " ..." } else { t }
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
	let v: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("json");
	let p = props.iter().find(|p| Some(p.id) == v["property"].as_str()).expect("property");
	let dir = PathBuf::from(format!("/verif/target/run-replay-{}", std::process::id()));
	std::fs::create_dir_all(&dir).expect("scratch directory");
	let r = exec_series(p, &series_of(&v), &dir, HANG);
	rm(&dir);
	match r {
		Ok(Some((c, d))) => {
			println!("violation: {c}: {}", printable(&d));
			println!("VIOLATION property={} replay={file}", p.id);
			1
		},
		Ok(None) => {
			println!("{} holds on {file}", p.id);
			0
		},
		Err(e) => {
			eprintln!("{e}");
			2
		},
	}
}

/// All distinct violation classes of a range of cases: for triage, not used by the checks
pub fn survey(p: &Prop, seed: u64, from: u64, to: u64, workers: u64) {
	stats::ENABLED.store(false, Ordering::Relaxed);
	let m = std::sync::Mutex::new(BTreeMap::<String, (u64, u64, String, Value)>::new());
	let sims = std::sync::atomic::AtomicU64::new(0);
	let t0 = Instant::now();
	std::thread::scope(|s| {
		for w in 0..workers {
			let m = &m;
			let sims = &sims;
			std::thread::Builder::new().stack_size(64<<20).spawn_scoped(s, move || {
				let mut i = from + w;
				let mut ctx = Ctx::default();
				while i < to {
					let case = (p.gen_case)(&mut case_rng(p, seed, i), i);
					let t = Instant::now();
					let r = exec_caught(p, &case, &mut ctx);
					if t.elapsed().as_secs() >= 5 {
						eprintln!("slow case {i}: {:?}", t.elapsed());
					}
					let vs = match r {
						Ok(v) => v,
						Err(e) => vec![crate::engine::viol("HARNESS", e)],
					};
					for v in vs {
						let key = format!("{} | {}", v.class, crate::engine::shape(v.detail.split(":").next().unwrap_or("")));
						let mut g = m.lock().unwrap();
						let e = g.entry(key).or_insert((0, i, v.detail.clone(), case.clone()));
						e.0 += 1;
						if i < e.1 {
							*e = (e.0, i, v.detail.clone(), case.clone());
						}
					}
					i += workers;
				}
				sims.fetch_add(ctx.sims, Ordering::Relaxed);
			}).expect("spawn");
		}
	});
	println!("{} cases, {} sims, {:.1} s", to - from, sims.load(Ordering::Relaxed), t0.elapsed().as_secs_f64());
	let g = m.lock().unwrap();
	let mut v: Vec<_> = g.iter().collect();
	v.sort_by_key(|(_, e)| std::cmp::Reverse(e.0));
	for (k, e) in v.iter().take(60) {
		println!("{:6}  first {:6}  {k}", e.0, e.1);
	}
}

/// Minimise one case by index: for triage
pub fn show_case(p: &Prop, seed: u64, idx: u64, class: Option<&str>) {
	let case = (p.gen_case)(&mut case_rng(p, seed, idx), idx);
	let run = |c: &Value| exec_caught(p, c, &mut Ctx::default());
	match run(&case) {
		Ok(v) if v.is_empty() => println!("holds: {}", serde_json::to_string(&case).unwrap()),
		Err(e) => println!("error {e} on {}", serde_json::to_string(&case).unwrap()),
		Ok(v) => {
			let class = class.map_or(v[0].class.clone(), str::to_string);
			let (min, n) = minimise(&case, Duration::from_secs(20), &mut |c| {
				run(c).is_ok_and(|v| v.iter().any(|x| x.class == class))
			});
			println!("{n} tries\n{}", serde_json::to_string(&min).unwrap());
			for x in run(&min).unwrap() {
				println!("  {}: {}", x.class, x.detail);
			}
			std::fs::write("/tmp/case.json", serde_json::to_vec(&json!({"property": p.id, "case": min})).unwrap()).unwrap();
		},
	}
}
