//! The choice tape: every random decision of every generator is one `u16` of a
//! proptest-generated vector.  An exhausted tape yields zeros, and zero always
//! selects the simplest alternative, so proptest's vector shrinking shrinks the
//! generated document.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub struct Src<'a> {
	t: &'a [u16],
	i: usize,
}

impl<'a> Src<'a> {
	pub fn new(t: &'a [u16]) -> Self {
		Src { t, i: 0 }
	}
	/// a part of the tape for choices made later, after a generator used up the rest
	pub fn fork(&mut self, n: usize) -> Src<'a> {
		let a = self.i.min(self.t.len());
		let b = (self.i + n).min(self.t.len());
		self.i += n;
		Src::new(&self.t[a..b])
	}
	pub fn raw(&mut self) -> u16 {
		let v = self.t.get(self.i).copied().unwrap_or(0);
		self.i += 1;
		v
	}
	pub fn done(&self) -> bool {
		self.i >= self.t.len()
	}
	pub fn left(&self) -> usize {
		self.t.len().saturating_sub(self.i)
	}
	pub fn below(&mut self, n: usize) -> usize {
		debug_assert!(n > 0);
		self.raw() as usize % n
	}
	/// true with probability num/den; false when the tape is exhausted
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) >= den - num
	}
	pub fn weighted(&mut self, w: &[usize]) -> usize {
		let total: usize = w.iter().sum();
		let mut x = self.below(total);
		for (i, &k) in w.iter().enumerate() {
			if x < k {
				return i;
			}
			x -= k;
		}
		0
	}
	pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
		let i = self.below(xs.len());
		&xs[i]
	}
}

pub fn hash_of<T: Hash>(v: &T) -> u64 {
	let mut h = DefaultHasher::new();
	v.hash(&mut h);
	h.finish()
}
