//! Counting allocator: live bytes, peak and largest single request of the calling thread, and a
//! ceiling above which a request fails (an address space the simulated machine does not have).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
	static LIVE: Cell<i64> = const { Cell::new(0) };
	static PEAK: Cell<i64> = const { Cell::new(0) };
	static LARGEST: Cell<u64> = const { Cell::new(0) };
	static TOTAL: Cell<u64> = const { Cell::new(0) };
}

/// A single request above this fails
pub const CEILING: usize = 4 << 30;

fn grow(n: usize) {
	let _ = LIVE.try_with(|l| {
		let v = l.get() + n as i64;
		l.set(v);
		let _ = PEAK.try_with(|p| {
			if v > p.get() {
				p.set(v);
			}
		});
		let _ = LARGEST.try_with(|p| {
			if n as u64 > p.get() {
				p.set(n as u64);
			}
		});
		let _ = TOTAL.try_with(|p| p.set(p.get() + n as u64));
	});
}

fn shrink(n: usize) {
	let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if l.size() > CEILING {
			return std::ptr::null_mut();
		}
		let p = unsafe { System.alloc(l) };
		if !p.is_null() {
			grow(l.size());
		}
		p
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		if l.size() > CEILING {
			return std::ptr::null_mut();
		}
		let p = unsafe { System.alloc_zeroed(l) };
		if !p.is_null() {
			grow(l.size());
		}
		p
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		shrink(l.size());
		unsafe { System.dealloc(p, l) }
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		if n > CEILING {
			return std::ptr::null_mut();
		}
		let q = unsafe { System.realloc(p, l, n) };
		if !q.is_null() {
			shrink(l.size());
			grow(n);
		}
		q
	}
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
	/// Highest number of live bytes above the starting point
	pub peak: u64,
	pub largest: u64,
	pub total: u64,
}

/// Run `f` and report what it allocated on this thread
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
	let base = LIVE.with(Cell::get);
	PEAK.with(|p| p.set(base));
	LARGEST.with(|p| p.set(0));
	TOTAL.with(|p| p.set(0));
	let r = f();
	let u = Usage {
		peak: (PEAK.with(Cell::get) - base).max(0) as u64,
		largest: LARGEST.with(Cell::get),
		total: TOTAL.with(Cell::get),
	};
	(r, u)
}
