//! Real-world files (copied from the repository's own test data when this framework was written, so
//! that a change to the repository's files does not change the explored cases).

use std::collections::BTreeMap;
use std::sync::Mutex;

static CACHE: Mutex<BTreeMap<String, Option<Vec<u8>>>> = Mutex::new(BTreeMap::new());

pub fn get(name: &str) -> Option<Vec<u8>> {
	if name.contains('/') || name.contains("..") {
		return None;
	}
	let mut c = CACHE.lock().unwrap();
	c.entry(name.to_string())
		.or_insert_with(|| {
			std::fs::read(format!("{}/assets/{name}", env!("CARGO_MANIFEST_DIR"))).ok()
		})
		.clone()
}

pub fn names() -> Vec<String> {
	let mut v: Vec<String> = std::fs::read_dir(format!("{}/assets", env!("CARGO_MANIFEST_DIR")))
		.map(|d| {
			d.flatten()
				.map(|e| e.file_name().to_string_lossy().into_owned())
				.collect()
		})
		.unwrap_or_default();
	v.sort();
	v
}
