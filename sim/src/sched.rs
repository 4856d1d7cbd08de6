//! The thread scheduler: real threads, of which exactly one runs at any moment. A thread gives up
//! control at every I/O operation on a `SimDisk` (and at explicit `yield_point`s); which thread runs
//! next is decided by the seeded generator alone.

use crate::rng::Rng;
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

struct State {
	rng: Rng,
	current: usize,
	alive: Vec<usize>,
	started: bool,
	/// fixed choices (replay), consumed before the generator
	fixed: Vec<u32>,
	at: usize,
	trace: Vec<u32>,
	/// per mille chance of a switch at a point
	rate: u64,
	/// scheduling points passed
	points: u64,
	/// the current thread did not come back to a point for so long that another one went on
	overtaken: u64,
}

/// Nothing but a lock that a waiting thread holds keeps the current thread from its next point for so long
const STUCK: std::time::Duration = std::time::Duration::from_secs(2);

pub struct Sched {
	st: Mutex<State>,
	cv: Condvar,
}

thread_local! {
	static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

impl Sched {
	pub fn new(seed: u64, threads: usize, rate: u64, fixed: Vec<u32>) -> Arc<Self> {
		Arc::new(Self {
			st: Mutex::new(State {
				rng: Rng::new(seed),
				current: 0,
				alive: (0..threads).collect(),
				started: false,
				fixed,
				at: 0,
				trace: Vec::new(),
				rate,
				points: 0,
				overtaken: 0,
			}),
			cv: Condvar::new(),
		})
	}

	fn choose(st: &mut State, force: bool) {
		if st.alive.is_empty() {
			return;
		}
		let n = st.alive.len() as u64;
		let k = if st.at < st.fixed.len() {
			u64::from(st.fixed[st.at]) % n
		} else if !force && st.rng.below(1000) >= st.rate {
			// stay
			st.alive
				.iter()
				.position(|a| *a == st.current)
				.unwrap_or(0) as u64
		} else {
			st.rng.below(n)
		};
		st.at += 1;
		st.trace.push(k as u32);
		st.current = st.alive[k as usize];
	}

	fn wait(self: &Arc<Self>, id: usize) {
		let mut st = self.st.lock().unwrap();
		let mut seen = st.points;
		while !st.started || st.current != id {
			let (s, t) = self.cv.wait_timeout(st, STUCK).unwrap();
			st = s;
			if t.timed_out() && st.started && st.points == seen && st.current != id {
				// the current thread waits for something another one holds
				st.overtaken += 1;
				st.current = id;
			}
			seen = st.points;
		}
	}

	/// Run the closures as simulated threads; returns the results and the schedule taken
	pub fn run<T: Send>(
		self: &Arc<Self>,
		jobs: Vec<Box<dyn FnOnce() -> T + Send + '_>>,
	) -> (Vec<Result<T, String>>, Vec<u32>) {
		let res = std::thread::scope(|s| {
			let mut hs = Vec::new();
			for (id, j) in jobs.into_iter().enumerate() {
				let me = Arc::clone(self);
				hs.push(
					std::thread::Builder::new()
						.stack_size(8 << 20)
						.spawn_scoped(s, move || {
							ME.with(|m| *m.borrow_mut() = Some((Arc::clone(&me), id)));
							me.wait(id);
							let r = crate::run::catch(j);
							ME.with(|m| *m.borrow_mut() = None);
							let mut st = me.st.lock().unwrap();
							st.alive.retain(|a| *a != id);
							st.points += 1;
							if st.current == id {
								Self::choose(&mut st, true);
							}
							me.cv.notify_all();
							r
						})
						.expect("spawn"),
				);
			}
			{
				let mut st = self.st.lock().unwrap();
				Self::choose(&mut st, true);
				st.started = true;
				self.cv.notify_all();
			}
			hs.into_iter()
				.map(|h| h.join().unwrap_or_else(|_| Err("thread died".into())))
				.collect()
		});
		let trace = std::mem::take(&mut self.st.lock().unwrap().trace);
		(res, trace)
	}
}

/// Called before every simulated I/O operation
pub fn io_point() {
	let me = ME.with(|m| m.borrow().clone());
	if let Some((s, id)) = me {
		{
			let mut st = s.st.lock().unwrap();
			st.points += 1;
			if st.current != id {
				// it was overtaken while it was blocked
				drop(st);
				s.wait(id);
				return;
			}
			Sched::choose(&mut st, false);
			if st.current == id {
				return;
			}
			s.cv.notify_all();
		}
		s.wait(id);
	}
}
