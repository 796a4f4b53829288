use monitor::obs::{observe, quiet_panics, Level};
use monitor::props::checks;
use monitor::run::{coverage_json, replay, report, unhex, Opts, Shared};
use std::path::PathBuf;

#[global_allocator]
static ALLOC: monitor::alloc::Counting = monitor::alloc::Counting;

fn main() {
	quiet_panics();
	let args: Vec<String> = std::env::args().collect();
	let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_owned());
	match args.get(1).map(|s| &s[..]) {
		// monitor run ID coverage.json
		Some("run") => {
			let id = args[2].clone();
			let Some(check) = checks().into_iter().find(|c| c.id == id) else {
				eprintln!("no such check: {id}");
				std::process::exit(3);
			};
			let sh = Shared {
				opts: Opts {
					id,
					seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
					thorough: env("VERIF_TIER", "quick") == "thorough",
					workers: env("MONITOR_WORKERS", "8").parse().unwrap_or(8),
					replays: PathBuf::from(env("MONITOR_REPLAYS", "/verif/replays")),
					scratch: PathBuf::from(env("MONITOR_SCRATCH", "/tmp")),
					trace: env("MONITOR_TRACE", "") == "1",
				},
				violations: Default::default(),
				stop: Default::default(),
			};
			let totals = (check.run)(&sh);
			let printed = report(&sh);
			let json = coverage_json(&totals, check.rule, sh.violations.lock().unwrap().len());
			if let Some(path) = args.get(3) {
				std::fs::write(path, json).expect("coverage file");
			} else {
				println!("{json}");
			}
			if printed > 0 {
				std::process::exit(1);
			}
			let mut missing = false;
			for (what, least) in check.floors {
				let got = totals.counters.get(*what).copied().unwrap_or(0);
				if got < *least {
					eprintln!("INCONCLUSIVE: {what}: {got}, needed {least}");
					missing = true;
				}
			}
			if missing {
				std::process::exit(2);
			}
		}
		// monitor replay FILE
		Some("replay") => {
			let text = std::fs::read_to_string(&args[2]).expect("replay file");
			std::process::exit(replay(&text));
		}
		// monitor show LEVEL HEX
		Some("show") => {
			let level = Level::from_name(&args[2]).expect("level");
			let data = unhex(&args[3]).expect("hex");
			println!("{}", observe(level, &data).show());
			let j = monitor::judge::judge(level, &data);
			println!("{:?}", j.out);
		}
		Some(other) => match monitor::props::special(other, &args[2..]) {
			Some(code) => std::process::exit(code),
			None => {
				eprintln!("unknown command {other}");
				std::process::exit(3);
			}
		},
		None => std::process::exit(3),
	}
}
