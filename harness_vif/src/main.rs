//! Every pattern that vif!() can be given, tried on every byte.
mod patterns;

use libmbus_macros::vif;

/// Where the macro stands for one number it can be used as one
const NUMBERS: [(u8, u8); 4] = [
	(vif!(E000 0000), 0x00),
	(vif!(E111 1111), 0x7F),
	(vif!(E111 1101), 0x7D),
	(vif!(E010 1010), 0x2A),
];

fn main() {
	let (mut tries, mut hits, mut bad) = (0_u64, 0_u64, 0);
	for (text, base, free, pattern, arm) in patterns::PATTERNS {
		for v in 0..=255_u8 {
			let want = v & !free == *base;
			for (how, got) in [("pattern", pattern(v)), ("match arm", arm(v))] {
				tries += 1;
				hits += got as u64;
				if got != want && bad < 5 {
					bad += 1;
					println!("BAD vif!({text}) as a {how} {} {v:#04x}", if got { "takes" } else { "does not take" });
				}
			}
		}
	}
	for (got, want) in NUMBERS {
		tries += 1;
		if got != want {
			bad += 1;
			println!("BAD {got:#04x} instead of {want:#04x}");
		}
	}
	println!("DONE patterns={} tries={tries} hits={hits} bad={bad}", patterns::PATTERNS.len());
	std::process::exit((bad > 0) as i32);
}
