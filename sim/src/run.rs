//! Running code under test: panics, simulated crashes and exhausted budgets become values.

use crate::disk::{BudgetSignal, CrashSignal};
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};

thread_local! {
	static LAST: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
	std::panic::set_hook(Box::new(|i| {
		let p = i.payload();
		if p.is::<CrashSignal>() || p.is::<BudgetSignal>() {
			return;
		}
		let m = p
			.downcast_ref::<&str>()
			.map(|s| (*s).to_string())
			.or_else(|| p.downcast_ref::<String>().cloned())
			.unwrap_or_else(|| "panic".into());
		let l = i
			.location()
			.map(|l| {
				let f = l.file();
				let f = f.rsplit("/src/").next().unwrap_or(f);
				format!("{f}:{}", l.line())
			})
			.unwrap_or_default();
		let _ = LAST.try_with(|x| *x.borrow_mut() = Some(format!("{m} [{l}]")));
	}));
}

pub const CRASHED: &str = "<crash>";
pub const BUDGET: &str = "<operation budget exhausted>";

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(v) => Ok(v),
		Err(p) => {
			if p.is::<CrashSignal>() {
				return Err(CRASHED.into());
			}
			if p.is::<BudgetSignal>() {
				return Err(BUDGET.into());
			}
			Err(LAST
				.with(|l| l.borrow_mut().take())
				.unwrap_or_else(|| "panic".into()))
		},
	}
}
