mod errors;

use std::path::PathBuf;

use monitor::obs::quiet_panics;
use monitor::run::{coverage_json, parallel, report, Opts, Shared};

#[global_allocator]
static ALLOC: monitor::alloc::Counting = monitor::alloc::Counting;

fn main() {
	quiet_panics();
	let args: Vec<String> = std::env::args().collect();
	let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_owned());
	let sh = Shared {
		opts: Opts {
			id: "C31".into(),
			seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
			thorough: env("VERIF_TIER", "quick") == "thorough",
			workers: env("MONITOR_WORKERS", "8").parse().unwrap_or(8),
			replays: PathBuf::from(env("MONITOR_REPLAYS", "/verif/replays")),
			scratch: PathBuf::from(env("MONITOR_SCRATCH", "/tmp")),
			trace: env("MONITOR_TRACE", "") == "1",
		},
		violations: Default::default(),
		stop: Default::default(),
	};
	let totals = parallel(&sh, 31, &errors::errors);
	let printed = report(&sh);
	let json = coverage_json(&totals, errors::RULE, sh.violations.lock().unwrap().len());
	match args.get(3) {
		Some(path) => std::fs::write(path, json).expect("coverage file"),
		None => println!("{json}"),
	}
	if printed > 0 {
		std::process::exit(1);
	}
	let mut missing = false;
	for (what, least) in errors::FLOORS {
		let got = totals.counters.get(*what).copied().unwrap_or(0);
		if got < *least {
			eprintln!("INCONCLUSIVE: {what}: {got}, needed {least}");
			missing = true;
		}
	}
	if missing {
		std::process::exit(2);
	}
}
