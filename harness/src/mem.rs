//! A counting allocator: the bytes in use that this thread has allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
	static LIVE: Cell<isize> = const { Cell::new(0) };
	static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
	let _ = LIVE.try_with(|l| {
		let v = l.get().wrapping_add(n);
		l.set(v);
		if n > 0 {
			let _ = PEAK.try_with(|p| {
				if v > p.get() {
					p.set(v);
				}
			});
		}
	});
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		let p = System.alloc(l);
		if !p.is_null() {
			add(l.size() as isize);
		}
		p
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		let p = System.alloc_zeroed(l);
		if !p.is_null() {
			add(l.size() as isize);
		}
		p
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		System.dealloc(p, l);
		add(-(l.size() as isize));
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		let q = System.realloc(p, l, n);
		if !q.is_null() {
			add(n as isize - l.size() as isize);
		}
		q
	}
}

/// bytes in use
pub fn live() -> isize {
	LIVE.with(|l| l.get())
}
/// the most bytes in use at once while `f` runs, beyond those in use before
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, isize) {
	let before = live();
	PEAK.with(|p| p.set(before));
	let v = f();
	(v, PEAK.with(|p| p.get()) - before)
}
