//! Runs the sub-checks of a property: shards them over worker processes, each
//! driving a seeded proptest runner; shrinks failures; writes replay and evidence.
use crate::cov;
use crate::tape::{hash_of, Src};
use crate::{Cx, Info, Prop, Sub};
use proptest::collection::vec;
use proptest::test_runner::{
	Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

pub const SHARDS: usize = 8;

pub fn root_dir() -> PathBuf {
	std::env::var("RPCHECK_DIR")
		.map(PathBuf::from)
		.unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// a case that takes this long is a hang: the process is aborted, and the case reported
const HANG_S: u64 = 40;
static CASE_NO: AtomicU64 = AtomicU64::new(0);

pub fn watchdog() {
	std::thread::spawn(|| {
		let mut last = CASE_NO.load(Ordering::Relaxed);
		let mut since = Instant::now();
		loop {
			std::thread::sleep(std::time::Duration::from_millis(500));
			let now = CASE_NO.load(Ordering::Relaxed);
			// odd: a case is running
			if now != last || now % 2 == 0 {
				last = now;
				since = Instant::now();
			} else if since.elapsed().as_secs() >= HANG_S {
				std::process::abort();
			}
		}
	});
}

fn silence_panics() {
	std::panic::set_hook(Box::new(|_| {}));
}

/// evaluate one case; a panic of the code under test is a failure
pub fn eval(sub: &Sub, tape: &[u16], over: Option<Vec<char>>) -> (Result<Info, String>, Option<Vec<char>>) {
	let src = RefCell::new(None);
	CASE_NO.fetch_add(1, Ordering::Relaxed);
	let r = catch_unwind(AssertUnwindSafe(|| {
		let mut cx = Cx {
			s: Src::new(tape),
			over,
			src: None,
		};
		let r = (sub.f)(&mut cx);
		*src.borrow_mut() = cx.src.take();
		r
	}));
	CASE_NO.fetch_add(1, Ordering::Relaxed);
	let r = match r {
		Ok(r) => r,
		Err(e) => {
			let m = if let Some(s) = e.downcast_ref::<&str>() {
				s.to_string()
			} else if let Some(s) = e.downcast_ref::<String>() {
				s.clone()
			} else {
				"?".into()
			};
			Err(format!("panic: {}", m))
		}
	};
	let s = src.borrow_mut().take();
	(r, s)
}

fn seed_bytes(seed: u64, prop: &str, sub: &str, shard: usize) -> [u8; 32] {
	let mut b = [0u8; 32];
	for i in 0..4u64 {
		let h = hash_of(&(seed, prop, sub, shard, i));
		b[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
	}
	b
}

/// greedy removal of chunks of the source, keeping the case failing
fn ddmin(sub: &Sub, tape: &[u16], src: Vec<char>) -> Vec<char> {
	let mut cur = src;
	let fails = |v: &[char]| eval(sub, tape, Some(v.to_vec())).0.is_err();
	if !fails(&cur) {
		return cur;
	}
	let mut chunk = (cur.len() / 2).max(1);
	let mut budget = 4000;
	loop {
		let mut i = 0;
		let mut changed = false;
		while i < cur.len() && budget > 0 {
			budget -= 1;
			let mut t = cur.clone();
			t.drain(i..(i + chunk).min(t.len()));
			if fails(&t) {
				cur = t;
				changed = true;
			} else {
				i += chunk;
			}
		}
		if chunk == 1 && !changed || budget == 0 {
			return cur;
		}
		if !changed {
			chunk = (chunk / 2).max(1);
		}
	}
}

/// shorten and lower a failing tape, keeping it failing
fn shrink_tape(sub: &Sub, tape: Vec<u16>) -> Vec<u16> {
	let mut cur = tape;
	let t0 = Instant::now();
	let fails = |v: &[u16]| eval(sub, v, None).0.is_err();
	let over = || t0.elapsed().as_secs() >= 15;
	let mut chunk = (cur.len() / 2).max(1);
	loop {
		let mut changed = false;
		let mut i = 0;
		while i < cur.len() && !over() {
			let mut t = cur.clone();
			t.drain(i..(i + chunk).min(t.len()));
			if fails(&t) {
				cur = t;
				changed = true;
				continue;
			}
			let mut t = cur.clone();
			let end = (i + chunk).min(t.len());
			if t[i..end].iter().any(|v| *v != 0) {
				t[i..end].iter_mut().for_each(|v| *v = 0);
				if fails(&t) {
					cur = t;
					changed = true;
				}
			}
			i += chunk;
		}
		if over() || (chunk == 1 && !changed) {
			break;
		}
		if !changed {
			chunk /= 2;
		}
	}
	for i in 0..cur.len() {
		for v in [1, 2, 3, cur[i] / 2, cur[i].saturating_sub(1)] {
			if v < cur[i] && !over() {
				let mut t = cur.clone();
				t[i] = v;
				if fails(&t) {
					cur = t;
				}
			}
		}
	}
	cur
}

struct Rng(u64);
impl Rng {
	fn next(&mut self) -> u64 {
		self.0 ^= self.0 << 13;
		self.0 ^= self.0 >> 7;
		self.0 ^= self.0 << 17;
		self.0
	}
	fn below(&mut self, n: usize) -> usize {
		(self.next() >> 11) as usize % n
	}
}

/// a variation of one of the tapes kept for what they made the code do
fn vary(r: &mut Rng, corpus: &[Vec<u16>], max: usize) -> Vec<u16> {
	let n = corpus.len();
	let pick = |r: &mut Rng| {
		if r.below(2) == 0 {
			n - 1 - r.below(n.min(40))
		} else {
			r.below(n)
		}
	};
	let mut t = corpus[pick(r)].clone();
	for _ in 0..1 + r.below(4) {
		let at = r.below(t.len() + 1);
		let most = 1 + r.below(12);
		let len = 1 + r.below(most);
		match r.below(8) {
			0 | 1 | 2 => {
				if at < t.len() {
					t[at] = r.next() as u16;
				}
			}
			3 => {
				if at < t.len() {
					t[at] = t[at].wrapping_add(r.below(5) as u16).wrapping_sub(2);
				}
			}
			4 => {
				let end = (at + len).min(t.len());
				t.drain(at..end);
			}
			5 => {
				let end = (at + len).min(t.len());
				let d = t[at..end].to_vec();
				let to = r.below(t.len() + 1);
				t.splice(to..to, d);
			}
			6 => {
				let d: Vec<u16> = (0..len).map(|_| r.next() as u16).collect();
				t.splice(at..at, d);
			}
			_ => {
				let o = &corpus[pick(r)];
				if !o.is_empty() {
					let from = r.below(o.len());
					let end = if r.below(2) == 0 { o.len() } else { (from + 8 * len).min(o.len()) };
					t.truncate(at);
					t.extend_from_slice(&o[from..end]);
				}
			}
		}
	}
	t.truncate(max);
	t
}

struct Stats {
	evals: u64,
	guided: u64,
	nanos: u64,
	slowest: u64,
	seen: cov::Seen,
	corpus: Vec<Vec<u16>>,
	hashes: HashSet<u64>,
	labels: BTreeMap<String, u64>,
	samples: Vec<Value>,
	failed: bool,
}

/// one shard of every sub-check, in this process; the result goes to stdout
pub fn worker(p: &Prop, seed: u64, shard: usize, mult: u32, trace: Option<PathBuf>) {
	silence_panics();
	let only = std::env::var("RPCHECK_SUB").ok();
	let mut out = vec![];
	let trace = trace.and_then(|t| std::fs::File::create(t).ok());
	for (no, sub) in p.subs.iter().enumerate() {
		if only.as_ref().map_or(false, |o| o != sub.name) {
			continue;
		}
		let cases = (sub.cases * mult / SHARDS as u32).max(1);
		let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, p.id, sub.name, shard));
		let mut runner = TestRunner::new_with_rng(
			Config {
				cases,
				failure_persistence: None,
				max_shrink_iters: 30_000,
				max_shrink_time: 20_000,
				..Config::default()
			},
			rng,
		);
		let st = RefCell::new(Stats {
			evals: 0,
			guided: 0,
			nanos: 0,
			slowest: 0,
			seen: cov::Seen::new(),
			corpus: vec![],
			hashes: HashSet::new(),
			labels: BTreeMap::new(),
			samples: vec![],
			failed: false,
		});
		let one = |tape: &Vec<u16>| -> Result<(), String> {
			if let Some(f) = &trace {
				// what is running, in case the process dies
				let mut b = Vec::with_capacity(8 + 2 * tape.len());
				b.extend_from_slice(&(no as u32).to_le_bytes());
				b.extend_from_slice(&(tape.len() as u32).to_le_bytes());
				tape.iter().for_each(|v| b.extend_from_slice(&v.to_le_bytes()));
				use std::os::unix::fs::FileExt;
				let _ = f.write_all_at(&b, 0);
			}
			cov::reset();
			let t0 = Instant::now();
			let (r, _) = eval(sub, tape, None);
			let took = t0.elapsed().as_nanos() as u64;
			let mut st = st.borrow_mut();
			match r {
				Ok(info) => {
					if !st.failed {
						st.evals += 1;
						st.nanos += took;
						if took > st.slowest {
							st.slowest = took;
							if std::env::var("RPCHECK_SLOW").is_ok() && took > 300_000_000 {
								let _ = std::fs::write(
									Path::new("/tmp").join(format!("slow-{}-{}-{}", p.id, sub.name, shard)),
									format!("{} ms\n{}\n{:?}", took / 1_000_000, info.sample, tape),
								);
							}
						}
						// slow ones would take the time of many others
						if took < 6 * st.nanos / st.evals && st.seen.add() {
							st.corpus.push(tape.clone());
						}
						for l in &info.labels {
							*st.labels.entry(l.to_string()).or_insert(0) += 1;
						}
						if info.nontrivial && st.hashes.insert(info.hash) {
							let n = st.hashes.len();
							if st.samples.len() < 3 && n % 7 == 1 && info.sample.len() < 400 {
								st.samples.push(json!({"sub": sub.name, "case": info.sample}));
							}
						}
					}
					Ok(())
				}
				Err(m) => {
					st.failed = true;
					Err(m)
				}
			}
		};
		let mut res = runner.run(&vec(0u16..=u16::MAX, 0..=sub.tape), |tape| one(&tape).map_err(TestCaseError::fail));
		// then variations of the cases that did something new
		if res.is_ok() && cov::len() > 0 {
			let mut r = Rng(hash_of(&(seed, p.id, sub.name, shard, "guided")) | 1);
			let (t0, budget) = (Instant::now(), st.borrow().nanos / 2);
			for _ in 0..cases {
				if t0.elapsed().as_nanos() as u64 > budget {
					break;
				}
				let t = {
					let mut st = st.borrow_mut();
					if st.corpus.is_empty() {
						break;
					}
					st.guided += 1;
					vary(&mut r, &st.corpus, sub.tape * 2)
				};
				if let Err(m) = one(&t) {
					res = Err(TestError::Fail(m.into(), shrink_tape(sub, t)));
					break;
				}
			}
		}
		let st = st.into_inner();
		let fail = match res {
			Ok(()) => Value::Null,
			Err(TestError::Fail(_, tape)) => {
				let (r, src) = eval(sub, &tape, None);
				let over = src.map(|s| ddmin(sub, &tape, s));
				let (r2, _) = eval(sub, &tape, over.clone());
				let (msg, over) = match (r, r2) {
					(_, Err(m)) => (m, over),
					(Err(m), _) => (m, None),
					_ => ("not reproducible in the same process".to_string(), None),
				};
				json!({"tape": tape, "source": over.map(|v| v.into_iter().collect::<String>()), "message": msg})
			}
			Err(TestError::Abort(r)) => json!({"abort": r.to_string()}),
		};
		out.push(json!({
			"sub": sub.name,
			"evals": st.evals,
			"guided": st.guided,
			"slowest": st.slowest / 1_000_000,
			"edges": st.seen.edges(),
			"kept": st.corpus.len(),
			"hashes": st.hashes.iter().map(|h| format!("{:x}", h)).collect::<Vec<_>>().join(" "),
			"labels": st.labels,
			"samples": st.samples,
			"fail": fail,
		}));
	}
	let mut so = std::io::stdout();
	let _ = so.write_all(Value::Array(out).to_string().as_bytes());
	let _ = so.flush();
}

fn write_replay(id: &str, sub: &str, v: Value) -> PathBuf {
	let dir = root_dir().join("replays");
	let _ = std::fs::create_dir_all(&dir);
	let h = hash_of(&v.to_string());
	let path = dir.join(format!("{}-{}-{:08x}.json", id, sub, h as u32));
	let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
	path
}

/// lines of KNOWN_FINDINGS.txt which start with "known: property=<id> "
fn known(id: &str) -> Vec<String> {
	let t = std::fs::read_to_string(root_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
	let pre = format!("known: property={} ", id);
	t.lines()
		.filter_map(|l| l.strip_prefix(&pre))
		.map(|s| s.to_string())
		.collect()
}

pub fn check(p: &Prop, tier: &str, seed: u64, mult: u32) -> i32 {
	let t0 = Instant::now();
	let exe = std::env::current_exe().unwrap();
	let mut kids = vec![];
	for shard in 0..SHARDS {
		let c = Command::new(&exe)
			.args(["worker", p.id, &seed.to_string(), &shard.to_string(), &mult.to_string()])
			.env("RPCHECK_TRACE", trace_file(shard))
			.stdout(Stdio::piped())
			.stderr(Stdio::null())
			.spawn()
			.expect("spawn worker");
		kids.push(c);
	}
	let readers: Vec<_> = kids
		.into_iter()
		.map(|k| std::thread::spawn(move || k.wait_with_output()))
		.collect();
	let mut evals = 0u64;
	let (mut guided, mut edges, mut kept) = (0u64, 0u64, 0u64);
	let mut slowest = 0u64;
	let mut all: HashSet<u64> = HashSet::new();
	let mut labels: BTreeMap<String, u64> = BTreeMap::new();
	let mut per_sub: BTreeMap<String, (u64, u64)> = BTreeMap::new();
	let mut samples: Vec<Value> = vec![];
	let mut violations: Vec<(PathBuf, String)> = vec![];
	let mut error: Option<String> = None;
	for (shard, r) in readers.into_iter().enumerate() {
		let o = r.join().unwrap().expect("worker output");
		let parsed: Option<Value> = serde_json::from_slice(&o.stdout).ok();
		let list = match (o.status.success(), parsed) {
			(true, Some(Value::Array(l))) => l,
			_ => {
				use std::os::unix::process::ExitStatusExt;
				match o.status.signal() {
					Some(sig) if sig == 6 || sig == 11 || sig == 7 || sig == 4 => {
						match crash_case(p, seed, shard) {
							Some((path, msg)) => violations.push((path, msg)),
							None => error = Some(format!("worker {} died by signal {}", shard, sig)),
						}
					}
					s => error = Some(format!("worker {} ended badly: {:?} {:?}", shard, o.status, s)),
				}
				continue;
			}
		};
		for v in list {
			let sub = v["sub"].as_str().unwrap().to_string();
			evals += v["evals"].as_u64().unwrap();
			slowest = slowest.max(v["slowest"].as_u64().unwrap());
			guided += v["guided"].as_u64().unwrap();
			edges = edges.max(v["edges"].as_u64().unwrap());
			kept += v["kept"].as_u64().unwrap();
			let e = per_sub.entry(sub.clone()).or_insert((0, 0));
			e.0 += v["evals"].as_u64().unwrap();
			for h in v["hashes"].as_str().unwrap().split(' ').filter(|h| !h.is_empty()) {
				let h = u64::from_str_radix(h, 16).unwrap() ^ hash_of(&sub);
				if all.insert(h) {
					e.1 += 1;
				}
			}
			for (k, n) in v["labels"].as_object().unwrap() {
				*labels.entry(format!("{}/{}", sub, k)).or_insert(0) += n.as_u64().unwrap();
			}
			if shard < 2 {
				samples.extend(v["samples"].as_array().unwrap().iter().cloned());
			}
			let f = &v["fail"];
			if let Some(a) = f.get("abort") {
				error = Some(format!("{}: {}", sub, a));
			} else if !f.is_null() {
				let msg = f["message"].as_str().unwrap_or("").to_string();
				let path = write_replay(
					p.id,
					&sub,
					json!({"property": p.id, "sub": sub, "seed": seed, "shard": shard,
						"tape": f["tape"], "source": f["source"], "message": msg}),
				);
				violations.push((path, msg));
			}
		}
	}
	for shard in 0..SHARDS {
		let _ = std::fs::remove_file(trace_file(shard));
	}
	let mut exhaustive = false;
	let mut note = String::new();
	if let Some(once) = p.once {
		// in a process of its own, so that a crash is seen
		let o = Command::new(&exe)
			.args(["once", p.id])
			.stderr(Stdio::null())
			.output()
			.expect("once");
		let _ = once;
		match serde_json::from_slice::<Value>(&o.stdout) {
			Ok(v) if v.get("err").is_none() => {
				evals += v["evaluations"].as_u64().unwrap();
				exhaustive = v["exhaustive"].as_bool().unwrap();
				note = v["note"].as_str().unwrap().to_string();
				per_sub.insert(
					"once".into(),
					(v["evaluations"].as_u64().unwrap(), v["nontrivial"].as_u64().unwrap()),
				);
			}
			Ok(v) => {
				let msg = v["err"].as_str().unwrap().to_string();
				let path = write_replay(p.id, "once", json!({"property": p.id, "sub": "once", "message": msg}));
				violations.push((path, msg));
			}
			Err(_) => error = Some(format!("once: {:?}", o.status)),
		}
	}
	let once_nt = per_sub.get("once").map_or(0, |x| x.1);
	let mut cover = json!({
		"evaluations": evals,
		"distinct_nontrivial": all.len() as u64 + once_nt,
		"rule": p.rule,
		"samples": samples,
		"per_sub_check": per_sub.iter().map(|(k, v)| (k.clone(), json!({"evaluations": v.0, "distinct_nontrivial": v.1}))).collect::<serde_json::Map<_, _>>(),
		"case_labels": labels,
		"slowest_case_ms": slowest,
	});
	if cov::len() > 0 {
		cover["coverage_guided"] = json!({
			"evaluations": guided,
			"cases_kept": kept,
			"edges_of_the_crate": cov::len(),
			"edges_taken_by_the_best_sub_check": edges,
		});
	}
	if exhaustive {
		cover["exhaustive_part"] = json!(note);
	} else if !note.is_empty() {
		cover["once"] = json!(note);
	}
	let ev = json!({
		"property": p.id,
		"tier": tier,
		"seed": seed,
		"level": "exploration",
		"coverage": cover,
		"assumptions": p.assumptions,
		"wall_s": t0.elapsed().as_secs_f64(),
		"violations": violations.len(),
	});
	let dir = root_dir().join("evidence");
	let _ = std::fs::create_dir_all(&dir);
	if std::env::var("RPCHECK_SUB").is_err() {
		std::fs::write(
			dir.join(format!("{}.json", p.id)),
			serde_json::to_string_pretty(&ev).unwrap(),
		)
		.expect("write evidence");
	}
	println!(
		"{} {}: {} cases, {} distinct non-trivial, {:.1}s, slowest case {} ms",
		p.id,
		tier,
		evals,
		all.len() as u64 + once_nt,
		t0.elapsed().as_secs_f64(),
		slowest
	);
	for (k, v) in &per_sub {
		println!("  {:24} {:>9} cases {:>9} distinct non-trivial", k, v.0, v.1);
	}
	if cov::len() > 0 {
		println!("  of these {} guided by coverage ({} kept, {} of {} edges)", guided, kept, edges, cov::len());
	}
	if std::env::var("RPCHECK_LABELS").is_ok() {
		for (k, v) in &labels {
			println!("    {:40} {}", k, v);
		}
	}
	for k in known(p.id) {
		if crate::props::finding_present(&k) {
			println!("KNOWN-FINDING: property={} {}", p.id, k);
		}
	}
	if !violations.is_empty() {
		for (path, msg) in violations.iter().take(3) {
			println!("{}", msg);
			println!("VIOLATION property={} replay={}", p.id, path.display());
		}
		return 1;
	}
	if let Some(e) = error {
		println!("ERROR: {}", e);
		return 2;
	}
	0
}

/// where a worker says what it is running
fn trace_file(shard: usize) -> PathBuf {
	let shm = Path::new("/dev/shm");
	let dir = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() };
	dir.join(format!("rpcheck-trace-{}-{}", std::process::id(), shard))
}

/// find the case on which a worker process dies, and cut its tape down
fn crash_case(p: &Prop, seed: u64, shard: usize) -> Option<(PathBuf, String)> {
	let exe = std::env::current_exe().unwrap();
	let b = std::fs::read(trace_file(shard)).ok()?;
	let num = |i: usize| -> Option<usize> { Some(u32::from_le_bytes(b.get(i..i + 4)?.try_into().ok()?) as usize) };
	let sub = p.subs.get(num(0)?)?.name;
	let mut tape: Vec<u16> = b
		.get(8..8 + 2 * num(4)?)?
		.chunks(2)
		.map(|c| u16::from_le_bytes([c[0], c[1]]))
		.collect();
	let dies = |t: &[u16]| -> bool {
		let f = std::env::temp_dir().join(format!("rpcheck-try-{}-{}.json", std::process::id(), shard));
		let _ = std::fs::write(&f, json!({"property": p.id, "sub": sub, "tape": t}).to_string());
		use std::os::unix::process::ExitStatusExt;
		let r = Command::new(&exe)
			.arg("replay")
			.arg(&f)
			.stdout(Stdio::null())
			.stderr(Stdio::null())
			.status()
			.map(|s| s.signal().is_some())
			.unwrap_or(false);
		let _ = std::fs::remove_file(&f);
		r
	};
	// if it takes the cases before it too, it is left as it is
	let t0 = Instant::now();
	let mut chunk = if dies(&tape) { tape.len() / 2 } else { 0 };
	while chunk >= 1 {
		let mut i = 0;
		while i < tape.len() && t0.elapsed().as_secs() < 120 {
			let mut t = tape.clone();
			t.drain(i..(i + chunk).min(t.len()));
			if dies(&t) {
				tape = t;
			} else {
				i += chunk;
			}
		}
		chunk /= 2;
	}
	let msg = "the process dies (stack overflow, abort) or hangs on this case".to_string();
	let path = write_replay(
		p.id,
		&sub,
		json!({"property": p.id, "sub": sub, "seed": seed, "shard": shard, "tape": tape, "message": msg}),
	);
	Some((path, msg))
}

pub fn replay(file: &Path) -> i32 {
	silence_panics();
	let v: Value = match std::fs::read_to_string(file).ok().and_then(|t| serde_json::from_str(&t).ok()) {
		Some(v) => v,
		None => {
			println!("cannot read {}", file.display());
			return 2;
		}
	};
	let p = match crate::props::find(v["property"].as_str().unwrap_or("")) {
		Some(p) => p,
		None => return 2,
	};
	let name = v["sub"].as_str().unwrap_or("");
	let r = if name == "once" {
		match p.once {
			Some(f) => f().map(|_| ()),
			None => return 2,
		}
	} else {
		let sub = match p.subs.iter().find(|s| s.name == name) {
			Some(s) => s,
			None => return 2,
		};
		let tape: Vec<u16> = v["tape"]
			.as_array()
			.map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u16).collect())
			.unwrap_or_default();
		let over = v["source"].as_str().map(|s| s.chars().collect());
		eval(sub, &tape, over).0.map(|i| println!("case: {}", i.sample))
	};
	match r {
		Ok(()) => {
			println!("the property holds on this case");
			0
		}
		Err(m) => {
			println!("{}", m);
			println!("VIOLATION property={} replay={}", p.id, file.display());
			1
		}
	}
}
