//! Edge counters of the crate under test, if it was built with them (tools/rustc-cov).
use std::sync::atomic::{AtomicUsize, Ordering};

static START: AtomicUsize = AtomicUsize::new(0);
static LEN: AtomicUsize = AtomicUsize::new(0);

/// called by the instrumented code before main
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
	let n = (stop as usize).saturating_sub(start as usize);
	// the counters of all modules lie in one section
	if n > LEN.load(Ordering::Relaxed) {
		START.store(start as usize, Ordering::Relaxed);
		LEN.store(n, Ordering::Relaxed);
	}
}

pub fn len() -> usize {
	LEN.load(Ordering::Relaxed)
}

fn counters() -> (*mut u8, usize) {
	(START.load(Ordering::Relaxed) as *mut u8, len())
}

pub fn reset() {
	let (p, n) = counters();
	if n > 0 {
		unsafe { std::ptr::write_bytes(p, 0, n) }
	}
}

/// which edges were taken, how often in coarse classes, by all cases so far
pub struct Seen(Vec<u8>);

impl Seen {
	pub fn new() -> Self {
		Seen(vec![0; len()])
	}
	/// add the case that just ran; true if it did something new
	pub fn add(&mut self) -> bool {
		let (p, n) = counters();
		let mut new = false;
		let mut i = 0;
		while i < n {
			if i + 8 <= n && unsafe { (p.add(i) as *const u64).read_unaligned() } == 0 {
				i += 8;
				continue;
			}
			let c = unsafe { p.add(i).read_volatile() };
			let class = match c {
				0 => 0u8,
				1 => 1,
				2 => 2,
				3..=5 => 4,
				_ => 8,
			};
			if class & !self.0[i] != 0 {
				self.0[i] |= class;
				new = true;
			}
			i += 1;
		}
		new
	}
	pub fn edges(&self) -> usize {
		self.0.iter().filter(|c| **c != 0).count()
	}
}
