use rpcheck::{props, runner};
use serde_json::json;
use std::path::PathBuf;

// the stack a program's main thread has by default
const STACK: usize = 8 << 20;

fn in_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
	std::thread::Builder::new()
		.stack_size(STACK)
		.spawn(f)
		.unwrap()
		.join()
		.unwrap()
}

fn main() {
	let a: Vec<String> = std::env::args().skip(1).collect();
	let code = match a.first().map(|s| s.as_str()) {
		Some("check") => {
			let p = props::find(&a[1]).expect("unknown property");
			let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
			let tier = a.get(2).cloned().unwrap_or(tier);
			let seed: u64 = std::env::var("VERIF_SEED")
				.ok()
				.and_then(|s| s.trim().parse::<i64>().ok())
				.map_or(1, |v| v as u64);
			let mult: u32 = std::env::var("RPCHECK_MULT")
				.ok()
				.and_then(|s| s.parse().ok())
				.unwrap_or(if tier == "thorough" { 180 } else { 15 });
			runner::check(&p, &tier, seed, mult)
		}
		Some("worker") => {
			let (id, seed, shard, mult) = (
				a[1].clone(),
				a[2].parse::<u64>().unwrap(),
				a[3].parse::<usize>().unwrap(),
				a[4].parse::<u32>().unwrap(),
			);
			runner::watchdog();
			let trace = std::env::var("RPCHECK_TRACE").ok().map(PathBuf::from);
			in_thread(move || {
				let p = props::find(&id).unwrap();
				runner::worker(&p, seed, shard, mult, trace)
			});
			0
		}
		Some("once") => {
			let id = a[1].clone();
			in_thread(move || {
				let p = props::find(&id).unwrap();
				let v = match (p.once.unwrap())() {
					Ok(o) => json!({"evaluations": o.evaluations, "nontrivial": o.nontrivial, "exhaustive": o.exhaustive, "note": o.note}),
					Err(e) => json!({ "err": e }),
				};
				println!("{}", v);
			});
			0
		}
		Some("replay") => {
			let f = PathBuf::from(&a[1]);
			runner::watchdog();
			in_thread(move || runner::replay(&f))
		}
		Some("probe") => {
			// one known finding, in a process of its own
			let w = a[1].clone();
			std::panic::set_hook(Box::new(|_| {}));
			in_thread(move || if props::probe(&w) { 0 } else { 1 })
		}
		Some("solo") => {
			let mut t = String::new();
			let _ = std::io::Read::read_to_string(&mut std::io::stdin(), &mut t);
			in_thread(move || print!("{}", props::tree::solo(&t)));
			0
		}
		Some("list") => {
			for p in props::all() {
				println!("{}", p.id);
			}
			0
		}
		_ => {
			eprintln!("usage: rpcheck check <id> [quick|thorough] | replay <file> | list");
			2
		}
	};
	props::misc::cleanup();
	std::process::exit(code);
}
