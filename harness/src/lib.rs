//! Property-based checks of the rphtml parser and renderer.
pub mod cov;
pub mod gen;
pub mod mem;
pub mod model;
pub mod opts;
pub mod props;
pub mod real;
pub mod runner;
pub mod tape;

use tape::Src;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

/// what one evaluated case reports
pub struct Info {
	pub nontrivial: bool,
	pub hash: u64,
	pub sample: String,
	pub labels: Vec<&'static str>,
}

impl Info {
	pub fn new(nontrivial: bool, hash: u64, sample: String) -> Info {
		Info {
			nontrivial,
			hash,
			sample,
			labels: vec![],
		}
	}
	pub fn label(mut self, on: bool, l: &'static str) -> Info {
		if on {
			self.labels.push(l);
		}
		self
	}
}

/// Ok: the property held on the case; Err: it did not, and why
pub type Res = Result<Info, String>;

/// a case in progress: the choice tape, and a source that replaces the
/// generated one (only used while a failing source is minimised, and on replay)
pub struct Cx<'a> {
	pub s: Src<'a>,
	pub over: Option<Vec<char>>,
	/// the source of the case, when it is free text
	pub src: Option<Vec<char>>,
}

impl<'a> Cx<'a> {
	/// note the free-text source of this case, or replace it
	pub fn source(&mut self, v: Vec<char>) -> Vec<char> {
		let v = self.over.clone().unwrap_or(v);
		self.src = Some(v.clone());
		v
	}
}

pub struct Sub {
	pub name: &'static str,
	/// cases in the quick tier, over all shards
	pub cases: u32,
	pub tape: usize,
	pub f: fn(&mut Cx) -> Res,
}

pub struct Prop {
	pub id: &'static str,
	pub rule: &'static str,
	pub subs: Vec<Sub>,
	/// run once per check in a single process: (cases, findings still present)
	pub once: Option<fn() -> Result<Once, String>>,
	pub assumptions: &'static [&'static str],
}

#[derive(Default)]
pub struct Once {
	pub evaluations: u64,
	pub nontrivial: u64,
	pub exhaustive: bool,
	pub note: String,
}
