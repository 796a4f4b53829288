//! One workload per property. Each drives the real decoder and hands what it
//! does to an oracle.

use crate::gen::{self, Rec, Want};
use crate::model::{self, Hdr, Kind, Out, Raw};
use crate::obs::Level;
use crate::run::{parallel, Focus, Shared, Totals, W};

mod robust;
mod system;
pub use robust::*;
pub use system::*;

pub struct Check {
	pub id: &'static str,
	pub run: fn(&Shared) -> Totals,
	pub rule: &'static str,
	/// Counters that have to be there for the run to mean anything
	pub floors: &'static [(&'static str, u64)],
}

const EQ: &str = "accepted, equal to the model";
const REF: &str = "refused, as the model demands";

pub fn checks() -> Vec<Check> {
	vec![
		Check {
			id: "C01",
			run: c01,
			rule: "Random, structured, mutated and recorded inputs at every entry point, decoded and printed; non-trivial: all but the empty input. Oracle: returns, with a value or an error, within the CPU time limit",
			floors: &[("returned a value", 1000), ("returned an error", 1000), ("huge inputs", 5)],
		},
		Check {
			id: "C02",
			run: c02,
			rule: "Datagrams around opaque contents (so only the envelope matters) with every envelope byte varied; non-trivial: every case. Oracle: accepted if and only if the envelope is right, by the reference model",
			floors: &[(EQ, 1000), (REF, 10000)],
		},
		Check {
			id: "C03",
			run: c03,
			rule: "Every single byte substitution, truncation, one byte extension, and random burst that changes the sum, of good datagrams; non-trivial: every damaged datagram. Oracle: refused",
			floors: &[("damaged datagrams refused", 100_000), ("good datagrams accepted", 100)],
		},
		Check {
			id: "C04",
			run: c04,
			rule: "All 65536 control and address pairs in short frames, all controls in long frames; non-trivial: every case. Oracle: reference model",
			floors: &[(EQ, 5000), (REF, 5000)],
		},
		Check {
			id: "C05",
			run: c05,
			rule: "All 256 CI fields with headers and payloads of all lengths and textures; non-trivial: every case. Oracle: reference model of the CI table, payload compared byte for byte",
			floors: &[(EQ, 10000), (REF, 1000)],
		},
		Check {
			id: "C06",
			run: c06,
			rule: "Transport headers with every field varied over its whole range, others random; non-trivial: every case. Oracle: reference model",
			floors: &[(EQ, 10000), (REF, 10000)],
		},
		Check {
			id: "C07",
			run: c07,
			rule: "Known manufacturers with every version (or, where kept there, identifier byte) and device type, other manufacturers at random; non-trivial: every case. Oracle: the product table of rSCADA libmbus, restated as data",
			floors: &[(EQ, 100_000), ("named devices", 500)],
		},
		Check {
			id: "C08",
			run: c08,
			rule: "Frames of random records, fillers, end markers and manufacturer data, their prefixes, and short strings of structural bytes; non-trivial: accepted by the model or cut inside a record. Oracle: reference model; record ranges plus fillers plus markers plus rest add up to the input",
			floors: &[(EQ, 10000), (REF, 1000), ("records in frames", 10000), ("fillers in frames", 1000)],
		},
		Check {
			id: "C09",
			run: c09,
			rule: "Every DIF with every DIFE and pair of DIFEs, random chains of up to 14; non-trivial: all. Oracle: reference model of data type, function, storage, tariff and device",
			floors: &[(EQ, 50_000), (REF, 5_000)],
		},
		Check {
			id: "C10",
			run: c10,
			rule: "Every code of every VIF table, with and without VIFEs, with every data type and function; non-trivial: all. Oracle: the tables of EN 13757-3 restated as unit and exponent arithmetic",
			floors: &[(EQ, 5_000)],
		},
		Check {
			id: "C11",
			run: c11,
			rule: "VIFE chains of 0 to 60, plain text units of 0 to 255 bytes of every kind, all pairs of first and second VIB byte, cut short at every point; non-trivial: all. Oracle: reference model",
			floors: &[(EQ, 10_000), (REF, 5_000)],
		},
		Check {
			id: "C12",
			run: c12,
			rule: "Integers of 1 to 8 bytes and reals under signed and unsigned quantities: exhaustive up to 2 bytes, else edges, powers of two, source constants and random; variable length integers of 0 to 8 bytes under every quantity; non-trivial: all. Oracle: reference arithmetic, reals compared bit by bit",
			floors: &[(EQ, 100_000), ("variable length integers", 10_000)],
		},
		Check {
			id: "C14",
			run: c14,
			rule: "BCD of 1 to 6 bytes: exhaustive up to 2 bytes, else good, broken and random digits; non-trivial: all. Oracle: reference arithmetic and digit string",
			floors: &[(EQ, 100_000)],
		},
		Check {
			id: "C15",
			run: c15,
			rule: "All 256 LVAR codes with contents of every texture, cut short at every point; non-trivial: all. Oracle: reference model",
			floors: &[(EQ, 50_000), (REF, 10_000)],
		},
		Check {
			id: "C16",
			run: c16,
			rule: "Types F, G, I and J: every pair of bytes exhaustively with the rest plain, and random; wrong widths; non-trivial: all. Oracle: reference model",
			floors: &[(EQ, 50_000), (REF, 50_000)],
		},
		Check {
			id: "C17",
			run: c17,
			rule: "Type K: every pair of bytes exhaustively with the rest plain, and random; wrong widths; non-trivial: all. Oracle: reference model",
			floors: &[(EQ, 20_000), (REF, 20_000)],
		},
		Check {
			id: "C18",
			run: c18,
			rule: "Application reset and selection: all single subcodes, pairs and random chains under each CI; non-trivial: all. Oracle: reference model",
			floors: &[(EQ, 500), (REF, 100)],
		},
		Check {
			id: "C19",
			run: c19,
			rule: "All error codes under each CI, with manufacturer data and with records; non-trivial: all. Oracle: reference model",
			floors: &[(EQ, 5000), (REF, 500)],
		},
		Check {
			id: "C20",
			run: c20,
			rule: "The same inputs decoded in different orders, threads, neighbourhoods and input types; non-trivial: all. Oracle: always the same observation as the first time",
			floors: &[("repeated observations", 100_000), ("concurrent observations", 10_000), ("stream kinds compared", 50_000), ("siblings compared", 10_000)],
		},
		Check {
			id: "C21",
			run: c21,
			rule: "Good datagrams arriving in pieces in a partial buffer: every prefix, and a reader that trusts the hints; non-trivial: every prefix. Oracle: incomplete with an honest hint until the last byte, then the same packet",
			floors: &[("prefixes", 50_000), ("fed datagrams", 500)],
		},
		Check {
			id: "C23",
			run: c23,
			rule: "Allocations counted around every decode; families of growing inputs; non-trivial: all. Oracle: nothing left after dropping, peak, calls and bytes bounded by a fixed linear function of the length",
			floors: &[("measured decodes", 20_000), ("growth families", 5)],
		},
		Check {
			id: "C24",
			run: c24,
			rule: "Refused datagrams of known fault; non-trivial: every refusal. Oracle: the error names frame kind and faulty part, one line per context, innermost first",
			floors: &[("explained errors", 10_000)],
		},
		Check {
			id: "C25",
			run: c25,
			rule: "The command line tool on lists of files of all kinds; non-trivial: at least one file. Oracle: a heading and the printed packet for each file in order, errors on the other stream, the same as one file at a time",
			floors: &[("runs", 500), ("files decoded", 500), ("files refused", 300), ("runs one file at a time", 100)],
		},
		Check {
			id: "C26",
			run: c26,
			rule: "Files written and read back in both formats; non-trivial: all. Oracle: the bytes that were written, or an error where the text is no hex",
			floors: &[("files read back", 500), ("files with odd names, links and pipes read back", 100), ("bad files refused", 100)],
		},
		Check {
			id: "C27",
			run: c27,
			rule: "Recorded telegrams with what rSCADA libmbus makes of them, as recorded, re-enveloped and with their records spliced into new telegrams; non-trivial: every compared record. Oracle: libmbus' XML",
			floors: &[("telegrams compared", 60), ("records compared", 500), ("spliced telegrams", 500)],
		},
		Check {
			id: "C28",
			run: c28,
			rule: "Decoded values of every kind printed both ways, compared with each other, with what was decoded, and with what near variants of the input print; non-trivial: every accepted input. Oracle: every field that was decoded is in the text, both forms say the same, other values print otherwise, copies and comparisons agree",
			floors: &[("printed values", 50_000), ("pairs of different values", 50_000), ("copies and comparisons", 50_000), ("errors found equal", 20_000), ("errors found different", 50_000)],
		},
		Check {
			id: "C29",
			run: c29,
			rule: "Telegrams put together from parts in different ways; non-trivial: all. Oracle: each record decodes to the same thing wherever it stands (no reference model involved)",
			floors: &[("compositions", 10_000), ("neighbours", 500_000)],
		},
	]
}

fn record(w: &mut W, rec: &Rec, focus: Focus) {
	let mut d = rec.bytes();
	// Something after it, that is not its business
	let n = w.r.below(6);
	d.extend(w.r.texture(n));
	w.case(Level::Record, &d, focus);
}

// ------------------------------------------------------------------------ C02

/// Some opaque message that any decoder takes
fn opaque(w: &mut W, len: usize) -> Vec<u8> {
	let mut m = vec![match w.r.below(4) {
		0 => w.r.below(0x20) as u8,
		1 => 0x52,
		2 => 0x71,
		_ => 0xA0 + w.r.below(0x18) as u8,
	}];
	m.extend(w.r.texture(len - 1));
	m
}

pub fn c02(sh: &Shared) -> Totals {
	parallel(sh, 2, &|w| {
		let both = |w: &mut W, d: &[u8]| {
			w.case(Level::Packet, d, Focus::Pure);
			w.case(Level::PacketSlice, d, Focus::Pure);
		};
		if w.mine(0) {
			both(w, &[]);
		}
		for a in 0..=255_u8 {
			if w.mine(a as usize) {
				both(w, &[a]);
				for b in 0..=255_u8 {
					both(w, &[a, b]);
				}
			}
		}
		w.exhaustive("all datagrams of up to 2 bytes");
		// Short frames: every address and checksum
		for (i, c) in [0x40_u8, 0x7B, 0x08].into_iter().enumerate() {
			for a in 0..=255_u8 {
				if !w.mine(a as usize + i) {
					continue;
				}
				for s in 0..=255_u8 {
					w.case(Level::Packet, &[0x10, c, a, s, 0x16], Focus::Pure);
				}
				let good = model::short_frame(c, a);
				for v in 0..=255_u8 {
					let mut d = good.clone();
					d[0] = v;
					both(w, &d);
					let mut d = good.clone();
					d[4] = v;
					both(w, &d);
					let mut d = good.clone();
					d.push(v);
					both(w, &d);
				}
			}
		}
		w.exhaustive("short frames: all 65536 address and checksum pairs for 3 controls");
		// Long frames of every length
		for len in 1..=253_usize {
			if !w.mine(len) || w.stopped() {
				continue;
			}
			for round in 0..if w.thorough() { 24 } else { 6 } {
				let m = opaque(w, len);
				let c = gen::good_control(&mut w.r);
				let a = w.r.edgy();
				let good = model::long_frame(c, a, &m);
				both(w, &good);
				let n = good.len();
				for v in 0..=255_u8 {
					for at in [0, 1, 2, 3, n - 2, n - 1] {
						let mut d = good.clone();
						d[at] = v;
						w.case(Level::Packet, &d, Focus::Pure);
					}
					// Both lengths wrong in the same way
					let mut d = good.clone();
					d[1] = v;
					d[2] = v;
					both(w, &d);
					// ... with a checksum and stop where the length says
					let end = 4 + v as usize;
					if end + 2 <= n && v > 0 {
						d[end] = model::checksum(&d[4..end]);
						d[end + 1] = 0x16;
						both(w, &d);
						d.truncate(end + 2);
						both(w, &d);
					}
					let mut d = good.clone();
					d.push(v);
					w.case(Level::Packet, &d, Focus::Pure);
					// Control and address outside of the sum, xor for sum,
					// and so on
					let mut d = good.clone();
					d[n - 2] = d[n - 2].wrapping_add(*w.r.pick(&[
						c, a, 1, 0xFF, 0x68, 0x16, n as u8, (n - 6) as u8, d[6], d[n - 3],
					]));
					w.case(Level::Packet, &d, Focus::Pure);
				}
				if round == 0 {
					// Cut short or with bytes missing in the middle
					for cut in 0..n {
						both(w, &good[..cut]);
						let mut d = good.clone();
						d.remove(cut);
						w.case(Level::Packet, &d, Focus::Pure);
					}
				}
				w.count("long frames taken apart");
			}
		}
		w.exhaustive("long frames: all 254 lengths, each with all 256 values of each envelope byte");
		// Every byte counts, wherever it is: one that is not like the others
		for len in 2..=253_usize {
			if !w.mine(len) || w.stopped() {
				continue;
			}
			for at in 1..len {
				let base = *w.r.pick(&[0x00, 0x00, 0xFF, 0x2F]);
				let mut m = vec![base; len];
				m[0] = *w.r.pick(&[0x00, 0x51, 0x52, 0x71, 0xA0]);
				m[at] = w.r.byte() | 1;
				let (c, a) = (gen::good_control(&mut w.r), w.r.edgy());
				let mut d = model::long_frame(c, a, &m);
				w.case(Level::Packet, &d, Focus::Pure);
				let n = d.len();
				d[n - 2] = d[n - 2].wrapping_sub(m[at]);
				w.case(Level::Packet, &d, Focus::Pure);
			}
		}
		w.exhaustive("long frames: all lengths, with each byte of the contents in turn unlike all others");
		// Every address with every kind of contents
		for ci in gen::supported_cis() {
			if !w.mine(ci as usize) || w.stopped() {
				continue;
			}
			for a in 0..=255_u8 {
				let m = gen::message_for(&mut w.r, ci);
				let c = gen::good_control(&mut w.r);
				w.case(Level::Packet, &model::long_frame(c, a, &m), Focus::Place);
			}
		}
		w.exhaustive("all addresses with all CI fields");
		// Every length with every address and with every control
		for len in 1..=253_usize {
			if !w.mine(len) || w.stopped() {
				continue;
			}
			for x in 0..=255_u8 {
				let (c, a) = (gen::good_control(&mut w.r), w.r.edgy());
				for (c, a) in [(c, x), (x, a)] {
					let m = opaque(w, len);
					let mut d = model::long_frame(c, a, &m);
					w.case(Level::Packet, &d, if c == x { Focus::Place } else { Focus::Pure });
					let at = *w.r.pick(&[1, 2, 3, len + 6, len + 7]);
					d[at] = d[at].wrapping_add(*w.r.pick(&[1, 0xFF, 0x80, x | 1]));
					w.case(Level::Packet, &d, Focus::Place);
				}
			}
		}
		w.exhaustive("all lengths with all addresses and all controls");
		// Too short for control, address or CI
		for len in 0..=2_u8 {
			for x in 0..=255_u8 {
				if w.mine(x as usize) {
					let mut d = vec![0x68, len, len, 0x68];
					let body = [0x08, x, 0x71];
					d.extend(&body[..len as usize]);
					d.push(model::checksum(&body[..len as usize]));
					d.push(0x16);
					both(w, &d);
				}
			}
		}
		// Good ones with runs of a byte around them, and two bytes, and each other
		let runs = [1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 20, 32, 33, 64, 100, 128, 250, 255, 256, 257, 480, 1000];
		for v in 0..=255_u8 {
			if !w.mine(v as usize) || w.stopped() {
				continue;
			}
			for (i, n) in runs.into_iter().enumerate() {
				let len = *w.r.pick(&[1, 2, 20, 253]);
				let m = opaque(w, len);
				let (c, a) = (gen::good_control(&mut w.r), w.r.edgy());
				for good in [vec![0xE5], model::short_frame(c, a), model::long_frame(c, a, &m)] {
					let run = vec![v; n];
					both(w, &[&run[..], &good].concat());
					both(w, &[&good[..], &run].concat());
					if i % 4 == 0 {
						w.case(Level::Packet, &[&run[..], &good, &run].concat(), Focus::Pure);
					}
				}
			}
			for x in 0..=255_u8 {
				let len = *w.r.pick(&[1, 2, 9]);
				let m = opaque(w, len);
				let (c, a) = (gen::good_control(&mut w.r), w.r.edgy());
				for good in [vec![0xE5], model::short_frame(c, a), model::long_frame(c, a, &m)] {
					w.case(Level::Packet, &[&[v, x], &good[..]].concat(), Focus::Pure);
					w.case(Level::Packet, &[&good[..], &[v, x]].concat(), Focus::Pure);
				}
			}
			let (one, two) = (gen::good_datagram(&mut w.r), gen::good_datagram(&mut w.r));
			for n in 2..6 {
				both(w, &one.repeat(n));
			}
			both(w, &[&one[..], &two].concat());
		}
		w.exhaustive("runs of all 256 bytes, and all two bytes, in front of and behind good datagrams");
		for _ in 0..w.n(60_000, 20) {
			let n = w.r.range(0, 300);
			let mut d = w.r.texture(n);
			if n > 3 && w.r.one_in(2) {
				d[0] = 0x68;
				d[3] = 0x68;
				if w.r.one_in(2) && n >= 8 {
					d[1] = (n - 6) as u8;
					d[2] = d[1];
					if w.r.one_in(2) {
						d[n - 1] = 0x16;
					}
				}
			}
			both(w, &d);
		}
	})
}

// ------------------------------------------------------------------------ C03

pub fn c03(sh: &Shared) -> Totals {
	use crate::obs::observe;
	parallel(sh, 3, &|w| {
		let corpus = gen::corpus(&["test-frames"]);
		let mut frames: Vec<Vec<u8>> = Vec::new();
		for (i, (_, d)) in corpus.iter().enumerate() {
			if w.mine(i) {
				frames.push(d.clone());
			}
		}
		if w.mine(0) {
			frames.push(vec![0xE5]);
		}
		for _ in 0..w.n(640, 20) {
			let d = gen::good_datagram(&mut w.r);
			frames.push(d);
		}
		for _ in 0..w.n(160, 20) {
			// Long ones, and ones whose sum wraps a lot
			let n = w.r.range(120, 253);
			let mut m = vec![0xA0];
			m.extend(w.r.texture(n - 1));
			let (c, a) = (gen::good_control(&mut w.r), w.r.edgy());
			frames.push(model::long_frame(c, a, &m));
		}
		for f in frames {
			if w.stopped() {
				break;
			}
			let bad = |w: &mut W, d: &[u8], how: &dyn Fn() -> String| {
				w.begin(Level::Packet, d);
				let o = observe(Level::Packet, d);
				w.evaluated(Level::Packet, d, true, &|| o.show());
				if o.is_ok() {
					w.violate(
						Some(Level::Packet),
						&[d, &f],
						format!("accepted although {}: {}", how(), crate::run::clip(&o.show(), 300)),
					);
				} else {
					w.count("damaged datagrams refused");
				}
			};
			w.begin(Level::Packet, &f);
			if !observe(Level::Packet, &f).is_ok() {
				// Whether this must be accepted is for others to say
				w.count("good datagrams refused");
				// But not with a wrong sum either
				if f.len() >= 5 {
					let mut d = f.clone();
					for v in 1..=255 {
						d[f.len() - 2] = f[f.len() - 2].wrapping_add(v);
						bad(w, &d, &|| format!("the checksum is off by {v}"));
					}
				}
				continue;
			}
			w.count("good datagrams accepted");
			for at in 0..f.len() {
				let mut d = f.clone();
				for v in 0..=255 {
					if v != f[at] {
						d[at] = v;
						bad(w, &d, &|| format!("byte {at} was changed from {:02x} to {v:02x}", f[at]));
					}
				}
			}
			for cut in 0..f.len() {
				bad(w, &f[..cut], &|| format!("cut after {cut} bytes"));
				if cut > 0 {
					bad(w, &f[cut..], &|| format!("{cut} bytes are missing at the start"));
				}
			}
			for v in 0..=255 {
				let mut d = f.clone();
				d.push(v);
				bad(w, &d, &|| format!("followed by {v:02x}"));
			}
			if f.len() >= 5 {
				// Bursts in what the checksum covers, and the checksum
				let (from, to) = if f[0] == 0x10 { (1, 4) } else { (4, f.len() - 1) };
				for _ in 0..300 {
					let mut d = f.clone();
					let a = w.r.range(from, to - 1);
					let b = w.r.range(a, (a + 8).min(to - 1));
					for x in &mut d[a..=b] {
						*x = w.r.edgy();
					}
					let sum_ok = d[to - 1] == model::checksum(&d[from..to - 1]);
					if !sum_ok {
						bad(w, &d, &|| format!("bytes {a} to {b} were changed, and the sum with them"));
					}
				}
			}
		}
	})
}

// ------------------------------------------------------------------------ C04

pub fn c04(sh: &Shared) -> Totals {
	parallel(sh, 4, &|w| {
		for c in 0..=255_u8 {
			if !w.mine(c as usize) {
				continue;
			}
			for a in 0..=255_u8 {
				let d = model::short_frame(c, a);
				w.case(Level::Packet, &d, Focus::Pure);
				if a % 16 == 0 {
					w.case(Level::PacketSlice, &d, Focus::Pure);
				}
			}
			for a in 0..=255_u8 {
				let k = w.r.range(1, 40);
				let m = opaque(w, k);
				w.case(Level::Packet, &model::long_frame(c, a, &m), Focus::Pure);
				if a % 8 == 0 {
					let room = w.r.range(0, 100);
					let mut m = vec![0x78];
					m.extend(gen::body(&mut w.r, Kind::Response, room));
					w.case(Level::Packet, &model::long_frame(c, a, &m), Focus::Place);
				}
			}
			// ... and with every kind of contents
			for ci in gen::supported_cis() {
				for a in [w.r.byte(), *w.r.pick(&[0, 1, 250, 251, 252, 253, 254, 255])] {
					let m = gen::message_for(&mut w.r, ci);
					w.case(Level::Packet, &model::long_frame(c, a, &m), Focus::Place);
				}
				// ... and checksums like the bytes around them
				let m = gen::message_for(&mut w.r, ci);
				let sum = m.iter().fold(c, |s, b| s.wrapping_add(*b));
				let last = *m.last().expect("not empty");
				for like in [0x00, 0xFF, 0x16, 0x68, 0x10, 0xE5, c, m.len() as u8 + 2, ci, last] {
					let a = sum.wrapping_neg().wrapping_add(like);
					w.case(Level::Packet, &model::long_frame(c, a, &m), Focus::Place);
				}
				// Address like the bytes around it
				for a in [c, m.len() as u8 + 2, ci, last] {
					w.case(Level::Packet, &model::long_frame(c, a, &m), Focus::Place);
				}
			}
		}
		for c in 0..=255_u8 {
			if !w.mine(c as usize) {
				continue;
			}
			for len in 1..=253 {
				let a = w.r.edgy();
				let m = opaque(w, len);
				w.case(Level::Packet, &model::long_frame(c, a, &m), Focus::Pure);
			}
			// ... whatever the contents begin with and what the sum is
			for v in 0..=255_u8 {
				let mut m = opaque(w, 3);
				m[1] = v;
				let a = w.r.byte();
				let sum = [c, a, m[0], m[1]].iter().fold(0_u8, |s, b| s.wrapping_add(*b));
				w.case(Level::Packet, &model::long_frame(c, a, &m), Focus::Pure);
				m[2] = v.wrapping_sub(sum);
				w.case(Level::Packet, &model::long_frame(c, a, &m), Focus::Pure);
			}
		}
		w.exhaustive("all controls with all lengths, all first bytes of contents, all checksums");
		w.exhaustive("all 65536 control and address pairs in short and in long frames, all controls with all CI fields");
	})
}

// ------------------------------------------------------------------------ C05

fn opaque_kind(k: Kind) -> bool {
	matches!(
		k,
		Kind::Dlms
			| Kind::Specific
			| Kind::Wireless
			| Kind::Afl
			| Kind::Manufacturer
			| Kind::Image
			| Kind::Security
			| Kind::SelectDevice
			| Kind::ClockSync
			| Kind::ClockAdjust
			| Kind::Command
			| Kind::Alarm
	)
}

pub fn c05(sh: &Shared) -> Totals {
	parallel(sh, 5, &|w| {
		for ci in 0..=255_u8 {
			if !w.mine(ci as usize) || w.stopped() {
				continue;
			}
			let (h, k) = model::ci_table(ci);
			let head = gen::dull_header(h);
			w.count(&format!("CI class {k:?}"));
			// On its own
			w.case(Level::Message, &[ci], Focus::Pure);
			let mut m = vec![ci];
			m.extend(&head);
			w.case(Level::Message, &m, Focus::Pure);
			w.case(Level::Packet, &model::long_frame(0x08, 1, &m), Focus::Pure);
			let rounds = if w.thorough() { 60 } else { 24 };
			if opaque_kind(k) {
				// Every length a datagram has room for, and any textures
				for len in 0..=(252 - head.len()) {
					for _ in 0..rounds {
						let mut m = vec![ci];
						m.extend(&head);
						m.extend(w.r.texture(len));
						if len > 0 && w.r.one_in(2) {
							*m.last_mut().expect("has bytes") = w.r.byte();
						}
						w.case(Level::Message, &m, Focus::Pure);
						if len % 4 == 0 {
							w.case(Level::Packet, &model::long_frame(0x53, 0xFE, &m), Focus::Pure);
						}
					}
				}
				// ... and behind any header
				if !matches!(h, Hdr::None) {
					for len in 0..=(252 - head.len()) {
						for k in 0..8 {
							let mut head = gen::header(&mut w.r, h);
							if k % 2 == 0 {
								gen::alike(&mut w.r, &mut head);
							}
							let mut m = vec![ci];
							m.extend(head);
							m.extend(w.r.texture(len));
							w.case(Level::Message, &m, Focus::Place);
						}
					}
				}
				// Every value of the first and last byte
				for v in 0..=255_u8 {
					for n in [1, 2, 3] {
						for last in [false, true] {
							let mut m = vec![ci];
							m.extend(&head);
							let mut p = w.r.texture(n);
							let at = if last { n - 1 } else { 0 };
							p[at] = v;
							m.extend(p);
							w.case(Level::Message, &m, Focus::Pure);
						}
					}
				}
				// Runs of one byte at either end, of what fills blocks above all
				for len in 0..=112 {
					for run in 1..=4_usize.min(len) {
						for ends in 1..=3 {
							for any in [false, true] {
								let mut m = vec![ci];
								m.extend(&head);
								let mut p = w.r.bytes(len);
								let v = if any { w.r.edgy() } else { 0x2F };
								if ends & 1 == 1 {
									p[..run].fill(v);
								}
								if ends & 2 == 2 {
									p[len - run..].fill(v);
								}
								m.extend(p);
								w.case(Level::Message, &m, Focus::Pure);
							}
						}
					}
				}
				// Longer than a datagram
				let mut lengths: Vec<usize> = (0..24).map(|_| w.r.range(253, 5000)).collect();
				for bit in 8..17 {
					for around in [-1_isize, 0, 1] {
						lengths.push(((1_isize << bit) + around) as usize);
						lengths.push(((1_isize << bit) + around) as usize - 1 - head.len());
					}
				}
				for n in lengths {
					let mut m = vec![ci];
					m.extend(&head);
					m.extend(w.r.bytes(n));
					w.case(Level::Message, &m, Focus::Pure);
				}
			} else {
				for _ in 0..rounds * 100 {
					let mut m = vec![ci];
					m.extend(&head);
					let body = match k {
						Kind::Response => vec![0x01, 0x03, w.r.byte()],
						Kind::AppSelect | Kind::AppError if w.r.one_in(3) => vec![],
						Kind::AppSelect | Kind::SelectedResponse => vec![0x10],
						Kind::AppError => vec![0x08],
						// Whether junk is refused here is not ours
						_ => {
							let n = w.r.range(0, 12);
							w.r.texture(n)
						}
					};
					m.extend(body);
					// Reserved and unsupported ones are refused whatever follows
					w.case(Level::Message, &m, Focus::Pure);
					w.case(Level::Packet, &model::long_frame(0x08, 0x7F, &m), Focus::Pure);
				}
			}
			// Headers that are cut off, and those of the other classes
			if !matches!(h, Hdr::None) || opaque_kind(k) {
				for other in [Hdr::Short, Hdr::Long] {
					let other = gen::dull_header(other);
					for n in 0..other.len() {
						let mut m = vec![ci];
						m.extend(&other[..n]);
						if n < head.len() || opaque_kind(k) {
							w.case(Level::Message, &m, Focus::Pure);
						}
					}
				}
			}
			// Whatever the control field and the address are
			for address in 0..=255_u8 {
				let control = gen::good_control(&mut w.r);
				let mut m = vec![ci];
				m.extend(&head);
				m.extend(match k {
					Kind::Response => vec![0x01, 0x03, w.r.byte()],
					Kind::AppSelect | Kind::SelectedResponse => vec![0x10],
					Kind::AppError => vec![0x08],
					k if opaque_kind(k) => {
						let n = w.r.range(0, 60);
						w.r.texture(n)
					}
					_ => vec![],
				});
				w.case(Level::Packet, &model::long_frame(control, address, &m), Focus::Pure);
			}
			// Wherever in a datagram it ends, and with every control
			for control in 0..=255_u8 {
				let m = gen::message_for(&mut w.r, ci);
				let address = w.r.edgy();
				w.case(Level::Packet, &model::long_frame(control, address, &m), Focus::Place);
			}
			// With all sorts of headers
			for _ in 0..rounds * 250 {
				let m = gen::message_for(&mut w.r, ci);
				w.case(Level::Message, &m, Focus::Place);
			}
		}
		w.exhaustive("all 256 CI fields, each with all 256 addresses; opaque payloads of every length from 0 to what fits");
	})
}

// ------------------------------------------------------------------------ C06

fn headered(ci: u8, header: &[u8], r: &mut gen::Rng) -> Vec<u8> {
	let mut m = vec![ci];
	m.extend(header);
	match model::ci_table(ci).1 {
		Kind::SelectedResponse => m.push(0x10),
		Kind::Response if r.one_in(2) => m.extend([0x01, 0x03, 0x05]),
		k if opaque_kind(k) => {
			let n = if r.one_in(8) { r.range(0, 239) } else { r.below(8) };
			m.extend(r.texture(n));
		}
		_ => (),
	}
	m
}

pub fn c06(sh: &Shared) -> Totals {
	let of = |h: Hdr| -> Vec<u8> {
		gen::supported_cis()
			.into_iter()
			.filter(|ci| model::ci_table(*ci).0 == h)
			.collect()
	};
	let shorts = of(Hdr::Short);
	let longs = of(Hdr::Long);
	parallel(sh, 6, &|w| {
		let run = |w: &mut W, ci: u8, head: &[u8]| {
			let m = headered(ci, head, &mut w.r);
			w.case(Level::Message, &m, Focus::Pure);
			if w.r.one_in(16) {
				w.case(Level::Packet, &model::long_frame(0x08, 3, &m), Focus::Pure);
			}
		};
		let any_long = |w: &mut W| *w.r.pick(&longs);
		let any_short = |w: &mut W| *w.r.pick(&shorts);
		// Manufacturers and configurations: all of them
		for v in 0..=0xFFFF_u16 {
			if !w.mine(v as usize) {
				continue;
			}
			let ci = any_long(w);
			let mut h = gen::long_header(&mut w.r);
			h[4..6].copy_from_slice(&v.to_le_bytes());
			run(w, ci, &h);
			let ci = any_long(w);
			let mut h = gen::long_header(&mut w.r);
			h[10..12].copy_from_slice(&v.to_le_bytes());
			run(w, ci, &h);
			let ci = any_short(w);
			let mut h = gen::short_header(&mut w.r);
			h[2..4].copy_from_slice(&v.to_le_bytes());
			run(w, ci, &h);
			// Access number and status
			let ci = any_short(w);
			let mut h = gen::dull_header(Hdr::Short);
			h[..2].copy_from_slice(&v.to_le_bytes());
			run(w, ci, &h);
			let ci = any_long(w);
			let mut h = gen::dull_header(Hdr::Long);
			h[8..10].copy_from_slice(&v.to_le_bytes());
			run(w, ci, &h);
			// Version and device type
			let ci = any_long(w);
			let mut h = gen::dull_header(Hdr::Long);
			h[6..8].copy_from_slice(&v.to_le_bytes());
			run(w, ci, &h);
			// Identifier bytes
			let at = w.r.below(4);
			let mut h = gen::dull_header(Hdr::Long);
			h[at] = v as u8;
			h[(at + 1) % 4] = (v >> 8) as u8;
			let ci = any_long(w);
			run(w, ci, &h);
			// ... in pairs: FFFFFFFF and the like
			let mut h = gen::dull_header(Hdr::Long);
			let (a, b) = (v as u8, (v >> 8) as u8);
			h[..4].copy_from_slice(&match w.r.below(4) {
				0 => [a, a, b, b],
				1 => [a, b, a, b],
				2 => [a, a, a, b],
				_ => [a, b, b, b],
			});
			let ci = any_long(w);
			run(w, ci, &h);
		}
		// All bytes alike, alone and together with wildcards in other fields
		for v in 0..=255_u8 {
			if w.mine(v as usize) {
				for ci in &longs {
					for fields in 0..8 {
						let mut h = gen::dull_header(Hdr::Long);
						h[..4].fill(v);
						if fields & 1 != 0 {
							h[4..6].fill(*w.r.pick(&[0xFF, v]));
						}
						if fields & 2 != 0 {
							h[6] = *w.r.pick(&[0xFF, v]);
						}
						if fields & 4 != 0 {
							h[7] = *w.r.pick(&[0xFF, v]);
						}
						run(w, *ci, &h);
					}
				}
			}
		}
		w.exhaustive("all 65536 manufacturers, configuration fields, access number and status pairs, version and type pairs");
		// Any two bytes of the header
		for (hdr, size) in [(Hdr::Long, 12_usize), (Hdr::Short, 4)] {
			for i in 0..size {
				for j in 0..i {
					for v in 0..=0xFFFF_u16 {
						if !w.mine(v as usize) || (!w.thorough() && hdr == Hdr::Long && v % 2 == (i as u16 + j as u16) % 2) {
							continue;
						}
						let mut h = if v % 4 < 2 { gen::dull_header(hdr) } else { gen::header(&mut w.r, hdr) };
						let [a, b] = v.to_le_bytes();
						h[i] = a;
						h[j] = b;
						let ci = if hdr == Hdr::Long { any_long(w) } else { any_short(w) };
						run(w, ci, &h);
					}
				}
			}
			if w.stopped() {
				return;
			}
		}
		// Any byte with any CI field, and any two with the response
		for ci in longs.iter().chain(&shorts) {
			let hdr = model::ci_table(*ci).0;
			let size = gen::dull_header(hdr).len();
			for i in 0..size {
				for v in 0..=255_u8 {
					if w.mine(v as usize) {
						for dull in [true, false] {
							let mut h = if dull { gen::dull_header(hdr) } else { gen::header(&mut w.r, hdr) };
							h[i] = v;
							run(w, *ci, &h);
						}
					}
				}
			}
		}
		// Whatever comes behind: every length with every last byte, and with
		// every CI field
		for ci in longs.iter().chain(&shorts) {
			let (hdr, kind) = model::ci_table(*ci);
			if !opaque_kind(kind) && kind != Kind::Response {
				continue;
			}
			let room = 252 - gen::dull_header(hdr).len();
			for len in 0..=room {
				if !w.mine(len) {
					continue;
				}
				for k in 0..24 {
					let head = gen::header(&mut w.r, hdr);
					let mut m = vec![*ci];
					m.extend(&head);
					if kind == Kind::Response {
						let end = m.len() + len;
						while m.len() + 3 <= end && !w.r.one_in(100) {
							m.extend([0x01, 0x03, w.r.byte()]);
						}
						if m.len() + 2 <= end && w.r.one_in(2) {
							m.push(0x0F);
							let rest = end - m.len();
							m.extend(w.r.bytes(rest));
						}
						m.resize(end, 0x2F);
						w.case(Level::Message, &m, Focus::Place);
						continue;
					}
					m.extend(if k < 4 { w.r.texture(len) } else { w.r.bytes(len) });
					if k >= 12 && len > 0 {
						*m.last_mut().expect("has bytes") = w.r.edgy();
					}
					w.case(Level::Message, &m, Focus::Pure);
					if k == 0 {
						w.case(Level::Packet, &model::long_frame(0x08, 1, &m), Focus::Pure);
					}
				}
			}
		}
		for len in 1..=240_usize {
			if !w.mine(len) {
				continue;
			}
			for last in 0..=255_u8 {
				for ci in [any_long(w), any_short(w), 0x5B] {
					let (hdr, kind) = model::ci_table(ci);
					if !opaque_kind(kind) {
						continue;
					}
					let mut m = vec![ci];
					m.extend(gen::header(&mut w.r, hdr));
					m.extend(w.r.bytes(len));
					*m.last_mut().expect("has bytes") = last;
					w.case(Level::Message, &m, Focus::Pure);
				}
			}
		}
		w.exhaustive("every byte of both headers with every CI field; every other pair of values of any two bytes (all of them in thorough runs)");
		for n in 0..w.n(1_000_000, 20) {
			if w.r.one_in(2) {
				let ci = any_long(w);
				let mut h = gen::long_header(&mut w.r);
				match n % 8 {
					0 => {
						// Digits that are none
						let at = w.r.below(4);
						h[at] = w.r.byte();
						if n % 16 == 0 {
							let t = w.r.texture(4);
							h[..4].copy_from_slice(&t);
						}
					}
					1 => h[3] = *w.r.pick(&[0xF0, 0xF1, 0xF9, 0xFF, 0xA0, 0x0F]),
					2 => {
						let cut = w.r.below(12);
						h.truncate(cut);
						// Nothing may follow, or it would be more header
						let mut m = vec![ci];
						m.extend(&h);
						w.case(Level::Message, &m, Focus::Pure);
						continue;
					}
					_ => (),
				}
				run(w, ci, &h);
			} else {
				let ci = any_short(w);
				let mut h = gen::short_header(&mut w.r);
				if n % 8 == 0 {
					let cut = w.r.below(4);
					h.truncate(cut);
					let mut m = vec![ci];
					m.extend(&h);
					w.case(Level::Message, &m, Focus::Pure);
					continue;
				}
				run(w, ci, &h);
			}
		}
	})
}

// ------------------------------------------------------------------------ C07

pub fn c07(sh: &Shared) -> Totals {
	let longs: Vec<u8> = gen::supported_cis()
		.into_iter()
		.filter(|ci| model::ci_table(*ci).0 == Hdr::Long)
		.collect();
	parallel(sh, 7, &|w| {
		let mut makers: Vec<&str> = model::DEVICE_NAMES.iter().map(|r| r.0).collect();
		makers.dedup();
		makers.sort_unstable();
		makers.dedup();
		let run = |w: &mut W, id: [u8; 4], maker: u16, version: u8, dt: u8| {
			let mut head = id.to_vec();
			head.extend(maker.to_le_bytes());
			head.extend([version, dt]);
			let ci = if w.r.one_in(3) {
				head.extend(gen::short_header(&mut w.r));
				*w.r.pick(&longs)
			} else {
				head.extend([0x2A, 0, 0, 0]);
				0x72
			};
			if w.r.one_in(8) {
				// Other fields at their ends
				if !model::VERSION_IN_ID.iter().any(|m| model::manufacturer_code(m) == maker) {
					head[..4].fill(*w.r.pick(&[0x00, 0x00, 0x99, 0x11]));
				} else {
					head[..3].fill(*w.r.pick(&[0x00, 0x99, 0x11]));
				}
				head[8] = *w.r.pick(&[0x00, 0x01, 0x7F, 0x80, 0xFE, 0xFF]);
				head[9] = *w.r.pick(&[0x00, 0x01, 0x02, 0x03, 0x04, 0x08, 0x10, 0xE0, 0xFC, 0xFF]);
			}
			let mut focus = Focus::Pure;
			let m = if w.r.one_in(4) {
				// Whatever comes after it
				focus = Focus::Place;
				let kind = model::ci_table(ci).1;
				let mut m = vec![ci];
				m.extend(&head);
				m.extend(gen::body(&mut w.r, kind, 240));
				m
			} else {
				headered(ci, &head, &mut w.r)
			};
			let j = w.case(Level::Message, &m, focus);
			let named = match &j.out {
				Out::Ok(t) => t
					.get("header")
					.and_then(|h| h.get("device_name"))
					.map(|n| matches!(n, crate::tree::T::S(_)))
					.unwrap_or(false),
				_ => false,
			};
			w.count(if named { "named devices" } else { "nameless devices" });
		};
		let bcd = |v: usize| ((v / 10) * 16 + v % 10) as u8;
		for (i, maker) in makers.iter().enumerate() {
			let code = model::manufacturer_code(maker);
			let in_id = model::VERSION_IN_ID.contains(maker);
			for version in 0..=255_u8 {
				if !w.mine(version as usize + i) || w.stopped() {
					continue;
				}
				let known: Vec<u8> = (0..=0x20).chain([0x25, 0x28, 0x31, 0x40, 0xFE, 0xFF]).collect();
				for dt in known {
					let id = [0x12, 0x34, 0x56, bcd(w.r.below(100))];
					run(w, id, code, version, dt);
				}
				for dt in 0..=255 {
					let id = [bcd(w.r.below(100)), bcd(w.r.below(100)), bcd(w.r.below(100)), bcd(w.r.below(100))];
					run(w, id, code, version, dt);
				}
				if in_id {
					for hi in 0..100 {
						run(w, [0, 0, 0, bcd(hi)], code, version, 0x02);
						let x = [bcd(w.r.below(100)), bcd(w.r.below(100)), bcd(w.r.below(100))];
						let dt = w.r.byte();
						run(w, [x[0], x[1], x[2], bcd(hi)], code, version, dt);
					}
				}
			}
		}
		// Messages of all lengths with all CI fields
		for ci in &longs {
			for len in 0..=240_usize {
				if !w.mine(len) {
					continue;
				}
				for _ in 0..if w.thorough() { 40 } else { 4 } {
					let row = *w.r.pick(model::DEVICE_NAMES);
					let mut head = gen::long_header(&mut w.r);
					head[4..6].copy_from_slice(&model::manufacturer_code(row.0).to_le_bytes());
					head[6] = row.1;
					if model::VERSION_IN_ID.contains(&row.0) {
						head[3] = row.1;
					}
					if let Some(t) = row.3 {
						head[7] = t;
					}
					let mut m = vec![*ci];
					m.extend(head);
					match model::ci_table(*ci).1 {
						Kind::Response => {
							while m.len() + 3 < 13 + len {
								m.extend([0x01, 0x03, w.r.byte()]);
							}
							m.resize(13 + len, 0x2F);
						}
						k if opaque_kind(k) => m.extend(w.r.bytes(len)),
						_ => (),
					}
					w.case(Level::Message, &m, Focus::Place);
				}
			}
		}
		w.exhaustive("all known manufacturers with all versions and all device types; identifier bytes 00 to 99 where they hold the version");
		// All other manufacturers
		for code in 0..0x8000_u16 {
			if !w.mine(code as usize) || model::manufacturer(code).is_err() {
				continue;
			}
			for _ in 0..if w.thorough() { 64 } else { 6 } {
				let row = *w.r.pick(model::DEVICE_NAMES);
				let version = if w.r.one_in(2) { row.1 } else { w.r.byte() };
				let dt = row.3.unwrap_or(2);
				let id = [bcd(w.r.below(100)), 0, bcd(w.r.below(100)), bcd(w.r.below(100))];
				run(w, id, code, version, dt);
			}
		}
		w.exhaustive("all 17576 manufacturers");
	})
}

// ------------------------------------------------------------------------ C08

/// Whether one of the records is where another one belongs
fn rearranged(expected: &crate::tree::T, got: &crate::tree::T) -> Option<String> {
	use crate::tree::{diff, T};
	let (Some(T::List(e)), Some(T::List(g))) = (expected.get("records"), got.get("records")) else {
		return None;
	};
	let same = |a: &T, b: &T| {
		let mut d = Vec::new();
		diff(a, b, &mut Vec::new(), &mut d);
		d.is_empty()
	};
	for (i, (x, y)) in e.iter().zip(g).enumerate() {
		if !same(x, y) {
			if let Some(j) = e.iter().position(|other| same(other, y)) {
				return Some(format!("record {j} comes out as record {i}"));
			}
		}
	}
	None
}

pub fn c08(sh: &Shared) -> Totals {
	use crate::judge::Accept;
	parallel(sh, 8, &|w| {
		let one = |w: &mut W, d: &[u8], pure: bool| {
			let focus = if pure { Focus::Pure } else { Focus::Place };
			let j = w.case(Level::Frame, d, focus);
			w.count_n("records in frames", j.notes.records.len() as u64);
			w.count_n("fillers in frames", j.notes.fillers as u64);
			if !pure {
				// Records that are there have to come out, whatever keeps them
				// from it
				if j.findings.iter().any(|f| f.accept == Accept::Yes) && matches!(j.out, Out::Ok(_)) {
					let what = j.findings[0].what.clone();
					w.violate(Some(Level::Frame), &[d], what);
				}
			}
			if !j.findings.is_empty() {
				if let (Out::Ok(t), crate::obs::Obs::Ok { tree, .. }) = (&j.out, &j.obs) {
					if let Some(what) = rearranged(t, tree) {
						w.violate(Some(Level::Frame), &[d], what);
					}
				}
			}
			if let (Out::Ok(t), true) = (&j.out, j.findings.is_empty()) {
				// Conservation, from what was observed
				let rest = match t.get("manufacturer_data") {
					Some(crate::tree::T::B(b)) => b.len(),
					_ => 0,
				};
				let in_records: usize = j.notes.records.iter().map(|(a, b)| b - a).sum();
				let marker = d.len() - in_records - j.notes.fillers - rest;
				if marker > 1 {
					w.violate(Some(Level::Frame), &[d], "bytes unaccounted for".into());
				}
				w.count("frames with every byte accounted for");
			}
		};
		// Structure only: simple records, fillers, ends
		let atoms: [&[u8]; 9] = [
			&[0x2F],
			&[0x01, 0x03, 0x05],
			&[0x0F],
			&[0x1F],
			&[0x00, 0x13],
			&[0x0D, 0x78, 0x02, 0x2F, 0x0F],
			&[0x02, 0x7F, 0x0F, 0x1F],
			&[0x8C, 0x10, 0x93, 0x2F, 0x2F, 0x0F, 0x1F, 0x00],
			&[0x55],
		];
		let max = if w.thorough() { 6 } else { 5 };
		let mut total = 0;
		for len in 0..=max {
			let mut idx = vec![0_usize; len];
			loop {
				total += 1;
				if w.mine(total) {
					let d: Vec<u8> = idx.iter().flat_map(|i| atoms[*i].iter().copied()).collect();
					one(w, &d, true);
				}
				let mut k = 0;
				while k < len {
					idx[k] += 1;
					if idx[k] < atoms.len() {
						break;
					}
					idx[k] = 0;
					k += 1;
				}
				if k == len {
					break;
				}
			}
		}
		w.exhaustive("all sequences of up to 5 of 9 structural pieces (records, fillers, markers, a stray byte)");
		// Short strings of telling bytes
		let bytes = [0x00_u8, 0x01, 0x03, 0x0D, 0x0F, 0x1F, 0x2F, 0x3F, 0x4F, 0x7F, 0x80, 0x8F, 0xFF];
		let max = if w.thorough() { 5 } else { 4 };
		for len in 1..=max {
			let n = bytes.len().pow(len as u32);
			for i in 0..n {
				if !w.mine(i) {
					continue;
				}
				let mut x = i;
				let d: Vec<u8> = (0..len)
					.map(|_| {
						let b = bytes[x % bytes.len()];
						x /= bytes.len();
						b
					})
					.collect();
				one(w, &d, false);
			}
		}
		for v in 0..=0xFFFF_u16 {
			if w.mine(v as usize) {
				one(w, &v.to_be_bytes(), false);
			}
		}
		w.exhaustive("all frames of 2 bytes; all strings of up to 4 of 13 telling bytes");
		// Long runs
		for n in (0..=300).chain([511, 512, 1000, 1024, 5000, 65535, 65536, 70000]) {
			if w.mine(n) {
				let run = vec![0x2F; n];
				for after in [&[][..], &[0x02, 0x93, 0x3B, 0x2F, 0x2F], &[0x0F, 0x2F, 0x2F], &[0x1F, 0x2F]] {
					for before in [&[][..], &[0x01, 0x03, 0x2F], &[0x00, 0x13]] {
						one(w, &[before, &run, after].concat(), true);
					}
				}
				one(w, &vec![0x2F; n], true);
				one(w, &[0x01, 0x03, 0x05].repeat(n), true);
				one(w, &[0x2F, 0x01, 0x03, 0x2F, 0x2F].repeat(n), true);
				let mut d = vec![0x0F];
				d.extend(w.r.bytes(n));
				one(w, &d, true);
				d[0] = 0x1F;
				one(w, &d, true);
			}
		}
		for n in 0..w.n(300_000, 15) {
			if w.stopped() {
				break;
			}
			let max = if n % 4 == 1 { w.r.range(14, 48) } else { w.r.range(1, 14) };
			let (d, _) = gen::frame(&mut w.r, max);
			one(w, &d, false);
			if n % 4 == 0 && !d.is_empty() {
				let cut = w.r.below(d.len());
				one(w, &d[..cut], false);
			}
			if n % 8 == 0 {
				let mut d = d.clone();
				gen::mutate(&mut w.r, &mut d);
				one(w, &d, false);
			}
			if n % 16 == 0 {
				let mut m = vec![*w.r.pick(&[0x72, 0x78, 0x7A])];
				m.extend(gen::dull_header(model::ci_table(m[0]).0));
				m.extend(&d);
				w.case(Level::Message, &m, Focus::Place);
				if m.len() < 253 {
					w.case(Level::Packet, &model::long_frame(0x08, 1, &m), Focus::Place);
				}
			}
		}
		// How many records, fillers and bytes after the marker, and which marker
		let simple: [&[u8]; 4] = [&[0x01, 0x03, 0x05], &[0x00, 0x13], &[0x0D, 0x78, 0x02, 0x31, 0x32], &[0x42, 0x6C, 0x21, 0x31]];
		let most = if w.thorough() { 60 } else { 24 };
		for count in 0..=most {
			for tail in 0..=most {
				if !w.mine(count * 61 + tail) {
					continue;
				}
				let bytes = w.r.bytes(tail);
				for idle in [0, 1, 2, count] {
					for marker in [&[][..], &[0x0F], &[0x1F]] {
						for (k, same) in simple.iter().map(|s| (0, Some(s))).chain([(0, None), (1, None)]) {
							let mut d = Vec::new();
							for i in 0..count {
								d.extend_from_slice(same.unwrap_or(&simple[(i + k) % 4]));
								if k == 1 && i % 2 == 1 {
									d.push(0x2F);
								}
							}
							d.extend(vec![0x2F; idle]);
							d.extend_from_slice(marker);
							if !marker.is_empty() {
								d.extend(&bytes);
							}
							one(w, &d, true);
						}
					}
				}
			}
		}
		w.exhaustive("all numbers of records up to 24 with all lengths of manufacturer data up to 24, both markers and none");
		// Every prefix of frames with simple records
		for _ in 0..w.n(4_000, 20) {
			let mut d = Vec::new();
			for _ in 0..w.r.range(1, 6) {
				let dib = vec![*w.r.pick(&gen::DIF_NIBBLES)];
				let rec = Rec {
					data: gen::dull_data(gen::want(&dib, &[0x13])),
					dib,
					vib: vec![0x13],
				};
				d.extend(rec.bytes());
				if w.r.one_in(3) {
					d.push(0x2F);
				}
			}
			for cut in 0..=d.len() {
				one(w, &d[..cut], true);
			}
		}
	})
}

// ------------------------------------------------------------------------ C09

pub fn c09(sh: &Shared) -> Totals {
	parallel(sh, 9, &|w| {
		let one = |w: &mut W, dib: Vec<u8>, cut: bool| {
			let data = gen::dull_data(gen::want(&dib, &[0x03]));
			let mut rec = Rec {
				dib,
				vib: vec![0x03],
				data,
			};
			if cut {
				// Header ends in the middle of the chain
				let n = w.r.below(rec.dib.len());
				rec.dib.truncate(n + 1);
				let last = rec.dib.len() - 1;
				rec.dib[last] |= 0x80;
				w.case(Level::Record, &rec.dib, Focus::Pure);
			} else {
				record(w, &rec, Focus::Pure);
			}
		};
		for dif in 0..=255_u8 {
			if !w.mine(dif as usize) || w.stopped() {
				continue;
			}
			if dif & 0x80 == 0 {
				one(w, vec![dif], false);
				continue;
			}
			one(w, vec![dif], true);
			for a in 0..0x80_u8 {
				one(w, vec![dif, a], false);
				for b in 0..0x80_u8 {
					if w.thorough() || (a ^ b ^ dif) % 4 == 0 {
						one(w, vec![dif, a | 0x80, b], false);
					}
				}
			}
			// Each bit of each position of each length
			for len in 1..=13_usize {
				for at in 0..len {
					for bit in 0..7 {
						let mut difes = vec![0; len];
						difes[at] = 1 << bit;
						one(w, gen::with_difes(dif, &difes), false);
						difes[len - 1] |= 0x10;
						one(w, gen::with_difes(dif, &difes), false);
						for d in &mut difes {
							*d ^= 0x7F;
						}
						one(w, gen::with_difes(dif, &difes), false);
					}
				}
				one(w, {
					let mut v = gen::with_difes(dif, &vec![0; len]);
					v[0] |= 0x80;
					v
				}, false);
			}
		}
		w.exhaustive("all DIFs; all DIFs with one DIFE; each single bit in chains of 1 to 13 DIFEs");
		for n in 0..w.n(600_000, 20) {
			let len = w.r.range(0, 12);
			let difes: Vec<u8> = (0..len)
				.map(|_| match w.r.below(4) {
					0 => 0,
					1 => 0x7F,
					_ => w.r.byte() & 0x7F,
				})
				.collect();
			let d = w.r.byte();
			one(w, gen::with_difes(d, &difes), n % 16 == 0);
		}
		// In any company
		for _ in 0..w.n(400_000, 20) {
			let rec = Rec::random(&mut w.r);
			let dull = rec.dull_dib();
			record(w, &rec, Focus::Unless(&|| dull.bytes()));
		}
		crossed(w, &|w, rec| {
			let dull = rec.dull_dib();
			record(w, rec, Focus::Unless(&|| dull.bytes()));
		});
		mixed(w, 40_000);
	})
}

/// All combinations of each few of the choices that make up a record, with
/// whatever it takes of the others
fn crossed(w: &mut W, go: &dyn Fn(&mut W, &Rec)) {
	let heads = gen::codes();
	let types = gen::DIF_NIBBLES;
	let finish = |w: &mut W, dib: Vec<u8>, vib: Vec<u8>| {
		let data = gen::data(&mut w.r, gen::want(&dib, &vib));
		go(w, &Rec { dib, vib, data });
		w.count("combinations of choices");
	};
	let upper = |w: &mut W| if w.r.one_in(3) { 0 } else { w.r.byte() & 0x70 };
	let more = |w: &mut W| if w.r.one_in(4) { gen::vifes(&mut w.r) } else { vec![] };
	for round in 0..if w.thorough() { 6 } else { 1 } {
		for (i, head) in heads.iter().enumerate() {
			if !w.mine(i + round) {
				continue;
			}
			for nibble in types {
				if w.stopped() {
					return;
				}
				for first in 0..0x80_u8 {
					let mut v = vec![first];
					v.extend(more(w));
					if w.r.one_in(8) {
						v.reverse();
					}
					let dib = vec![nibble | upper(w)];
					finish(w, dib, gen::with_vifes(head.clone(), &v));
				}
				for storage in 0..=34 {
					let tariff = if w.r.one_in(3) { w.r.below(5) as u64 } else { 0 };
					let device = if w.r.one_in(4) { w.r.below(4) as u64 } else { 0 };
					let dib = gen::dib_for(nibble | w.r.byte() & 0x30, storage, tariff, device);
					let v = more(w);
					finish(w, dib, gen::with_vifes(head.clone(), &v));
				}
				for tariff in 0..16 {
					let storage = if w.r.one_in(2) { w.r.below(20) as u64 } else { 0 };
					let device = w.r.below(4) as u64;
					let dib = gen::dib_for(nibble | w.r.byte() & 0x30, storage, tariff, device);
					let v = more(w);
					finish(w, dib, gen::with_vifes(head.clone(), &v));
				}
				for function in 0..4 {
					for _ in 0..3 {
						let v = more(w);
						finish(w, vec![nibble | function << 4], gen::with_vifes(head.clone(), &v));
					}
				}
			}
			for difes in 0..=10 {
				for vifes in 0..=10 {
					let nibble = *w.r.pick(&types) | upper(w);
					let difes: Vec<u8> = (0..difes).map(|_| w.r.edgy() & 0x7F).collect();
					let vifes: Vec<u8> = (0..vifes).map(|_| w.r.byte() & 0x7F).collect();
					finish(w, gen::with_difes(nibble, &difes), gen::with_vifes(head.clone(), &vifes));
				}
			}
			for byte in 0..=255_u8 {
				for at_end in [false, true] {
					let nibble = *w.r.pick(&types);
					let dib = vec![nibble | upper(w)];
					let v = more(w);
					let vib = gen::with_vifes(head.clone(), &v);
					let want = gen::want(&dib, &vib);
					let mut data = gen::data(&mut w.r, want);
					// Of variable length data the first byte says how much it is
					let at = match want {
						Want::Raw(Raw::Lvar) if data.len() < 2 => continue,
						_ if data.is_empty() => continue,
						_ if at_end => data.len() - 1,
						Want::Raw(Raw::Lvar) => 1,
						_ => 0,
					};
					data[at] = byte;
					go(w, &Rec { dib, vib, data });
					w.count("combinations of choices");
				}
			}
		}
		for nibble in types {
			for storage in 0..=34 {
				for tariff in 0..16 {
					for device in 0..8 {
						if !w.mine((storage * 16 + tariff + device) as usize) {
							continue;
						}
						let dib = gen::dib_for(nibble | w.r.byte() & 0x30, storage, tariff, device);
						let head = w.r.pick(&heads).clone();
						let v = more(w);
						finish(w, dib, gen::with_vifes(head, &v));
					}
				}
			}
		}
		for pair in 0..0x4000_u16 {
			if !w.mine(pair as usize) {
				continue;
			}
			for _ in 0..4 {
				let mut v: Vec<u8> = (0..w.r.small(6)).map(|_| w.r.byte() & 0x7F).collect();
				v.extend([(pair >> 7) as u8, pair as u8 & 0x7F]);
				if w.r.one_in(2) {
					v.extend((0..w.r.small(4)).map(|_| w.r.byte() & 0x7F));
				}
				let dib = gen::dib(&mut w.r);
				let head = w.r.pick(&heads).clone();
				finish(w, dib, gen::with_vifes(head, &v));
			}
		}
	}
	w.exhaustive("all combinations of code, data type and first extension; of code, data type and storage number up to 34; of code, data type and tariff up to 15; of code, data type and function; of code and lengths of both chains; of code and first or last byte of data; of data type, storage number, tariff and device; of two extensions in a row");
}

/// Whole telegrams, where values are put down to the property by place
fn mixed(w: &mut W, quick: usize) {
	for _ in 0..w.n(quick, 20) {
		if w.stopped() {
			break;
		}
		let n = w.r.range(1, 12);
		let (f, _) = gen::frame(&mut w.r, n);
		let ci = *w.r.pick(&[0x72, 0x78, 0x7A]);
		let mut m = vec![ci];
		m.extend(gen::header(&mut w.r, model::ci_table(ci).0));
		m.extend(f);
		if m.len() <= 253 {
			let (c, a) = (gen::good_control(&mut w.r), w.r.byte());
			let d = model::long_frame(c, a, &m);
			w.case(Level::Packet, &d, Focus::Place);
		} else {
			w.case(Level::Message, &m, Focus::Place);
		}
	}
}

// ------------------------------------------------------------------------ C10

pub fn c10(sh: &Shared) -> Totals {
	parallel(sh, 10, &|w| {
		let mut heads: Vec<Vec<u8>> = (0..0x80_u8).filter(|v| *v != 0x7C).map(|v| vec![v]).collect();
		for v in 0..0x80_u8 {
			heads.push(vec![0xFB, v]);
			if v != 0x7D {
				heads.push(vec![0xFD, v]);
			}
			heads.push(vec![0xFD, 0xFD, v]);
		}
		for (i, head) in heads.iter().enumerate() {
			if !w.mine(i) {
				continue;
			}
			let table_ext = head.len() == 1 && matches!(head[0], 0x7B | 0x7D);
			for nibble in gen::DIF_NIBBLES {
				for upper in 0..8_u8 {
					for vifes in [vec![], vec![0x00], vec![0x7F], vec![0x39, 0x12, 0x3A]] {
						if table_ext && !vifes.is_empty() {
							continue;
						}
						let dib = vec![nibble | upper << 4];
						let vib = gen::with_vifes(head.clone(), &vifes);
						let data = gen::dull_data(gen::want(&dib, &vib));
						let rec = Rec { dib, vib, data };
						record(w, &rec, Focus::Pure);
						w.count("codes in tables");
					}
				}
			}
		}
		w.exhaustive("every code of the four VIF tables, with each data type, function and storage bit, without and with VIFEs");
		for _ in 0..w.n(400_000, 20) {
			let rec = Rec::random(&mut w.r);
			let dull = rec.dull_vib();
			if dull.data.is_empty() || rec.vib[0] & 0x7F != 0x7C {
				record(w, &rec, Focus::Unless(&|| dull.bytes()));
			}
		}
		crossed(w, &|w, rec| {
			let dull = rec.dull_vib();
			if dull.data.is_empty() || rec.vib[0] & 0x7F != 0x7C {
				record(w, rec, Focus::Unless(&|| dull.bytes()));
			}
		});
		mixed(w, 40_000);
	})
}

// ------------------------------------------------------------------------ C11

pub fn c11(sh: &Shared) -> Totals {
	parallel(sh, 11, &|w| {
		let go = |w: &mut W, vib: Vec<u8>| {
			let dib = vec![*w.r.pick(&[0x01, 0x02, 0x05, 0x0A, 0x0D, 0x00])];
			let data = gen::dull_data(gen::want(&dib, &vib));
			let rec = Rec { dib, vib, data };
			record(w, &rec, Focus::Pure);
		};
		let cut = |w: &mut W, vib: &[u8]| {
			// Nothing after it, so it must be missed
			let mut d = vec![0x00];
			d.extend(vib);
			w.case(Level::Record, &d, Focus::Pure);
		};
		// Chains
		for len in 0..=60_usize {
			if !w.mine(len) {
				continue;
			}
			for _ in 0..if w.thorough() { 2000 } else { 300 } {
				let mut head = gen::vib_head(&mut w.r);
				if head.len() == 1 && matches!(head[0], 0x7B | 0x7D) {
					head = vec![0x13];
				}
				let v: Vec<u8> = (0..len).map(|_| w.r.edgy() & 0x7F).collect();
				let vib = gen::with_vifes(head, &v);
				go(w, vib.clone());
				let n = w.r.range(1, vib.len());
				cut(w, &vib[..n]);
			}
		}
		// Every VIFE value at every position of the first ten
		for v in 0..0x80_u8 {
			if !w.mine(v as usize) {
				continue;
			}
			for len in 1..=10 {
				for at in 0..len {
					let mut list = vec![0x2A; len];
					list[at] = v;
					for head in [vec![0x03], vec![0xFD, 0x46], vec![0xFB, 0x00], vec![0x7F], vec![0x7C, 0x01, b'x'], vec![0x6D]] {
						go(w, gen::with_vifes(head, &list));
					}
				}
			}
		}
		w.exhaustive("every VIFE value at every position in chains of 1 to 10, after 6 kinds of VIF");
		// All pairs (and some triples) of bytes after the DIF
		for v in 0..=0xFFFF_u16 {
			if !w.mine(v as usize) {
				continue;
			}
			let [a, b] = v.to_be_bytes();
			let tail: Vec<u8> = match w.r.below(3) {
				0 => vec![],
				1 => vec![w.r.byte()],
				_ => {
					let n = w.r.range(2, 20);
					w.r.texture(n)
				}
			};
			let mut d = vec![0x00, a, b];
			d.extend(&tail);
			w.case(Level::Record, &d, Focus::Pure);
			cut(w, &[a, b]);
		}
		w.exhaustive("all pairs of first and second VIB byte");
		for v in 0..=255_u8 {
			if !w.mine(v as usize) {
				continue;
			}
			cut(w, &[v]);
			for u in 0..=255_u8 {
				for head in [[0xFB, u, v], [0xFD, u, v], [0xFD, 0xFD, v]] {
					let mut d = vec![0x00];
					d.extend(head);
					w.case(Level::Record, &d, Focus::Pure);
					d.extend([0x11, 0x22]);
					w.case(Level::Record, &d, Focus::Pure);
				}
			}
		}
		// Plain text
		for len in 0..=255_usize {
			if !w.mine(len) || w.stopped() {
				continue;
			}
			for round in 0..if w.thorough() { 600 } else { 60 } {
				let mut t: Vec<u8> = match round % 5 {
					0 => (0..len).map(|_| w.r.range(0x20, 0x7E) as u8).collect(),
					1 => w.r.texture(len),
					2 => (0..len).map(|_| w.r.below(0x80) as u8).collect(),
					_ => loop {
						let t = gen::utf8(&mut w.r, 255);
						if t.len() <= len {
							let mut t = t;
							while t.len() < len {
								t.push(b'k');
							}
							break t;
						}
					},
				};
				if round % 10 == 9 && len > 0 {
					// Break it
					let at = w.r.below(len);
					t[at] = 0x80 | w.r.byte();
				}
				let mut head = vec![0x7C, len as u8];
				head.extend(&t);
				let count = *w.r.pick(&[0, 0, 1, 3]);
				let v: Vec<u8> = (0..count).map(|_| w.r.byte() & 0x7F).collect();
				let vib = gen::with_vifes(head, &v);
				go(w, vib.clone());
				let n = w.r.range(1, vib.len());
				cut(w, &vib[..n]);
				w.count("plain text units");
			}
		}
		w.exhaustive("plain text of every length from 0 to 255");
		for _ in 0..w.n(300_000, 20) {
			let rec = Rec::random(&mut w.r);
			let dull = rec.dull_vib();
			record(w, &rec, Focus::Unless(&|| dull.bytes()));
		}
		crossed(w, &|w, rec| {
			let dull = rec.dull_vib();
			record(w, rec, Focus::Unless(&|| dull.bytes()));
		});
		mixed(w, 40_000);
	})
}

// ------------------------------------------------------------------------ C12

pub fn c12(sh: &Shared) -> Totals {
	let mut heads: Vec<Vec<u8>> = (0..0x80_u8)
		.filter(|v| !matches!(v, 0x6C | 0x6D | 0x7B | 0x7C | 0x7D))
		.map(|v| vec![v])
		.collect();
	for v in 0..0x80_u8 {
		heads.push(vec![0xFB, v]);
		if v != 0x7D {
			heads.push(vec![0xFD, v]);
		}
		heads.push(vec![0xFD, 0xFD, v]);
	}
	heads.push(vec![0x7C, 0x01, b'x']);
	parallel(sh, 12, &|w| {
		const WIDTHS: [(u8, usize); 6] = [(1, 1), (2, 2), (3, 3), (4, 4), (6, 6), (7, 8)];
		let go = |w: &mut W, head: &[u8], nibble: u8, data: Vec<u8>| {
			let dib = vec![nibble];
			let vib = head.to_vec();
			if !matches!(gen::want(&dib, &vib), Want::Raw(_)) {
				return;
			}
			w.count(if nibble == 13 { "variable length integers" } else { "integers and reals of fixed width" });
			record(w, &Rec { dib, vib, data }, Focus::Pure);
		};
		// Whether negative numbers exist, for every quantity and width
		for (i, head) in heads.iter().enumerate() {
			if !w.mine(i) {
				continue;
			}
			for (nibble, width) in WIDTHS {
				for pattern in 0..6 {
					let mut d = match pattern {
						0 => vec![0xFF; width],
						1 => vec![0x00; width],
						2 => vec![0x80; width],
						3 => vec![0x7F; width],
						_ => w.r.bytes(width),
					};
					if pattern == 4 {
						d[width - 1] |= 0x80;
					}
					go(w, head, nibble, d);
				}
				for k in 0..8 * width {
					for delta in [0_u64, 1, u64::MAX] {
						go(w, head, nibble, gen::le((1_u64 << k).wrapping_add(delta), width));
					}
				}
			}
			for _ in 0..8 {
				let d = w.r.bytes(4);
				go(w, head, 5, d);
			}
			go(w, head, 0, vec![]);
		}
		// Variable length integers
		for (i, head) in heads.iter().enumerate() {
			if !w.mine(i) {
				continue;
			}
			for width in 0..=8_usize {
				let code = 0xE0 + width as u8;
				let lvar = |d: Vec<u8>| {
					let mut v = vec![code];
					v.extend(d);
					v
				};
				if width == 0 {
					go(w, head, 13, lvar(vec![]));
					continue;
				}
				for p in [0xFF, 0x00, 0x80, 0x7F] {
					go(w, head, 13, lvar(vec![p; width]));
				}
				for k in 0..8 * width {
					for delta in [0_u64, 1, u64::MAX] {
						if k % 8 == 7 || w.r.one_in(4) {
							go(w, head, 13, lvar(gen::le((1_u64 << k).wrapping_add(delta), width)));
							go(w, head, 13, lvar(gen::le((1_u64 << k).wrapping_add(delta).wrapping_neg(), width)));
						}
					}
				}
				for _ in 0..4 {
					let d = w.r.bytes(width);
					go(w, head, 13, lvar(d));
				}
			}
		}
		// All 1 and 2 byte numbers, signed and unsigned
		for v in 0..=0xFFFF_u16 {
			if !w.mine(v as usize) {
				continue;
			}
			for head in [vec![0x03], vec![0x78], vec![0xFD, 0x0C], vec![0xFD, 0x46]] {
				go(w, &head, 2, v.to_le_bytes().to_vec());
				if v < 256 {
					go(w, &head, 1, vec![v as u8]);
				}
			}
			for (nibble, width) in WIDTHS {
				if width > 2 {
					// Each pair of neighbouring bytes
					let head = w.r.pick(&heads).clone();
					let at = w.r.below(width - 1);
					let mut d = w.r.texture(width);
					d[at] = v as u8;
					d[at + 1] = (v >> 8) as u8;
					go(w, &head, nibble, d);
				}
			}
			// Exponents, signs, and the edges of mantissas
			for low in [0_u32, 1, 0x3FFF, 0xFFFF] {
				let bits = (v as u32) << 16 | low;
				go(w, &[0x03], 5, bits.to_le_bytes().to_vec());
			}
		}
		w.exhaustive("all 1 and 2 byte integers under signed and unsigned quantities; all upper halves of reals; sign edges of every width under every quantity");
		if w.thorough() {
			for v in 0..1_usize << 24 {
				if w.mine(v) {
					let head: &[u8] = if v & 1 == 0 { &[0x13] } else { &[0xFD, 0x0C] };
					go(w, head, 3, (v as u32).to_le_bytes()[..3].to_vec());
				}
			}
			w.exhaustive("all 3 byte integers");
		}
		for _ in 0..w.n(1_500_000, 20) {
			let head = w.r.pick(&heads).clone();
			let (nibble, width) = *w.r.pick(&WIDTHS);
			let d = w.r.texture(width);
			go(w, &head, nibble, d);
			if w.r.one_in(4) {
				let d = w.r.texture(4);
				go(w, &head, 5, d);
			}
		}
		for _ in 0..w.n(300_000, 20) {
			let rec = Rec::random(&mut w.r);
			let dull = rec.dull_data();
			match gen::want(&rec.dib, &rec.vib) {
				Want::Raw(Raw::Binary(_) | Raw::Real | Raw::None) => {
					record(w, &rec, Focus::Unless(&|| dull.bytes()))
				}
				_ => record(w, &rec, Focus::Place),
			}
		}
		crossed(w, &|w, rec| {
			let dull = rec.dull_data();
			match gen::want(&rec.dib, &rec.vib) {
				Want::Raw(Raw::Binary(_) | Raw::Real | Raw::None) => {
					record(w, rec, Focus::Unless(&|| dull.bytes()))
				}
				_ => record(w, rec, Focus::Place),
			}
		});
		mixed(w, 40_000);
	})
}

// ------------------------------------------------------------------------ C14

pub fn c14(sh: &Shared) -> Totals {
	parallel(sh, 14, &|w| {
		const WIDTHS: [(u8, usize); 5] = [(9, 1), (10, 2), (11, 3), (12, 4), (14, 6)];
		let go = |w: &mut W, nibble: u8, data: Vec<u8>| {
			let vib = match w.r.below(3) {
				0 => vec![0x13],
				1 => vec![0x78],
				_ => vec![0xFD, 0x17],
			};
			let rec = Rec {
				dib: vec![nibble],
				vib,
				data,
			};
			record(w, &rec, Focus::Pure);
		};
		for v in 0..=0xFFFF_u16 {
			if !w.mine(v as usize) {
				continue;
			}
			let b = v.to_le_bytes();
			if v < 256 {
				go(w, 9, vec![b[0]]);
			}
			go(w, 10, b.to_vec());
			for (nibble, width) in WIDTHS {
				if width > 2 {
					// Each pair of bytes among plain ones
					let mut d = gen::bcd_bytes(&mut w.r, width);
					let i = w.r.below(width);
					let j = (i + 1 + w.r.below(width - 1)) % width;
					d[i] = b[0];
					d[j] = b[1];
					go(w, nibble, d);
				}
			}
		}
		w.exhaustive("all BCD of 1 and 2 bytes");
		if w.thorough() {
			for v in 0..1_usize << 24 {
				if w.mine(v) {
					go(w, 11, (v as u32).to_le_bytes()[..3].to_vec());
				}
			}
			w.exhaustive("all BCD of 3 bytes");
		}
		// Every nibble value at every position
		for (nibble, width) in WIDTHS {
			for at in 0..2 * width {
				for n in 0..16_u8 {
					if !w.mine(at * 16 + n as usize) {
						continue;
					}
					for fill in [0x00, 0x11, 0x99, 0xFF, 0xAA] {
						let mut d = vec![fill; width];
						let (byte, hi) = (at / 2, at % 2 == 1);
						d[byte] = if hi { d[byte] & 0x0F | n << 4 } else { d[byte] & 0xF0 | n };
						go(w, nibble, d);
					}
				}
			}
		}
		for _ in 0..w.n(1_500_000, 20) {
			let (nibble, width) = *w.r.pick(&WIDTHS);
			let d = match w.r.below(4) {
				0 => gen::broken_bcd(&mut w.r, width),
				1 => w.r.texture(width),
				_ => gen::bcd_bytes(&mut w.r, width),
			};
			go(w, nibble, d);
		}
		for _ in 0..w.n(300_000, 20) {
			let rec = Rec::random(&mut w.r);
			let dull = rec.dull_data();
			match gen::want(&rec.dib, &rec.vib) {
				Want::Raw(Raw::Bcd(_)) => record(w, &rec, Focus::Unless(&|| dull.bytes())),
				_ => record(w, &rec, Focus::Place),
			}
		}
		crossed(w, &|w, rec| {
			let dull = rec.dull_data();
			match gen::want(&rec.dib, &rec.vib) {
				Want::Raw(Raw::Bcd(_)) => {
					record(w, rec, Focus::Unless(&|| dull.bytes()))
				}
				_ => record(w, rec, Focus::Place),
			}
		});
		mixed(w, 40_000);
	})
}

// ------------------------------------------------------------------------ C15

const SPECIAL_TEXTS: [&[u8]; 24] = [
	&[0xEF, 0xBB, 0xBF],
	&[0xFF, 0xFE],
	&[0xFE, 0xFF],
	&[0xFF, 0xFE, 0x00, 0x00],
	&[0x00, 0x00, 0xFE, 0xFF],
	&[0x2B, 0x2F, 0x76],
	&[0xC3, 0xA4],
	&[0xC2, 0xA0],
	&[0xE2, 0x82, 0xAC],
	&[0xF0, 0x9F, 0x98, 0x80],
	&[0xED, 0xA0, 0x80],
	b"\r\n",
	b"\\n",
	b"\\u{41}",
	b"\x1B[0m",
	b"\x1B$B",
	b"%41",
	b"&amp;",
	b"\"\"",
	b"''",
	b"  ",
	&[0xAD],
	&[0x00],
	&[0x00, 0x00],
];

pub fn c15(sh: &Shared) -> Totals {
	parallel(sh, 15, &|w| {
		let go = |w: &mut W, content: &[u8], cut: bool| {
			let mut d = vec![0x0D];
			d.extend(match w.r.below(4) {
				0 => vec![0x13],
				1 => vec![0x6D],
				2 => vec![0xFD, 0x0C],
				_ => vec![0xFD, 0x11],
			});
			d.extend(content);
			if !cut {
				let n = w.r.below(5);
				d.extend(w.r.texture(n));
			}
			w.case(Level::Record, &d, Focus::Pure);
		};
		for code in 0..=255_u8 {
			if !w.mine(code as usize) || w.stopped() {
				continue;
			}
			let Some(len) = gen::lvar_len(code) else {
				for n in 0..80 {
					let mut v = vec![code];
					v.extend(w.r.texture(n));
					go(w, &v, true);
				}
				continue;
			};
			go(w, &[code], true);
			for cut in 0..len {
				let mut v = vec![code];
				v.extend(w.r.texture(cut));
				go(w, &v, true);
			}
			let times = if code >= 0xC0 { 60 } else { 8 };
			for round in 0..times * if w.thorough() { 500 } else { 40 } {
				let mut v = vec![code];
				v.extend(match code {
					0x00..=0xBF if round % 2 == 0 => {
						(0..len).map(|_| w.r.range(0x20, 0x7E) as u8).collect()
					}
					0xC0..=0xDF => match round % 4 {
						0 => w.r.texture(len),
						1 => gen::broken_bcd(&mut w.r, len),
						_ => {
							let mut b = gen::bcd_bytes(&mut w.r, len);
							if len > 0 && round % 8 < 6 {
								b[len - 1] &= 0x7F;
							}
							b
						}
					},
					_ => w.r.texture(len),
				});
				go(w, &v, false);
			}
			w.count("LVAR codes with contents");
		}
		w.exhaustive("all 256 LVAR codes, each cut at every point");
		// All characters, alone and at both ends
		for c in 0..=255_u8 {
			if w.mine(c as usize) {
				go(w, &[1, c], false);
				go(w, &[2, c, b'a'], false);
				go(w, &[2, b'a', c], false);
				for d in 0..=255_u8 {
					go(w, &[2, c, d], false);
					go(w, &[3, c, d, b'x'], false);
					go(w, &[3, b'x', c, d], false);
				}
			}
		}
		w.exhaustive("all two character texts");
		// Bytes that mean something to others: marks, escapes, other encodings
		for (i, special) in SPECIAL_TEXTS.iter().enumerate() {
			if !w.mine(i) {
				continue;
			}
			for before in 0..=6 {
				for after in 0..=6 {
					for turned in [false, true] {
						for _ in 0..4 {
							let mut t: Vec<u8> = (0..before).map(|_| w.r.range(0x20, 0x7E) as u8).collect();
							t.extend(*special);
							t.extend((0..after).map(|_| w.r.range(0x20, 0x7E) as u8));
							if turned {
								t.reverse();
							}
							t.insert(0, t.len() as u8);
							go(w, &t, false);
						}
					}
				}
			}
			let many = special.repeat(0xBF / special.len());
			go(w, &[&[many.len() as u8], &many[..]].concat(), false);
		}
		// Every length byte with every quantity
		for (i, head) in gen::codes().into_iter().enumerate() {
			if !w.mine(i) || w.stopped() {
				continue;
			}
			for code in 0..=255_u8 {
				for _ in 0..if w.thorough() { 8 } else { 2 } {
					let mut data = vec![code];
					if let Some(n) = gen::lvar_len(code) {
						data.extend(match code {
							0xC0..=0xDF => gen::bcd_bytes(&mut w.r, n),
							_ => w.r.texture(n),
						});
					}
					let dib = if w.r.one_in(4) { gen::with_difes(0x0D | w.r.byte() & 0x70, &[0x01]) } else { vec![0x0D | w.r.byte() & 0x70] };
					let v = if w.r.one_in(4) { gen::vifes(&mut w.r) } else { vec![] };
					let rec = Rec { dib, vib: gen::with_vifes(head.clone(), &v), data };
					let dull = rec.dull_data();
					record(w, &rec, Focus::Unless(&|| dull.bytes()));
					w.count("length bytes with quantities");
				}
			}
		}
		w.exhaustive("all length bytes with all quantities");
		for _ in 0..w.n(200_000, 20) {
			let rec = Rec::random(&mut w.r);
			let dull = rec.dull_data();
			match gen::want(&rec.dib, &rec.vib) {
				Want::Raw(Raw::Lvar) => record(w, &rec, Focus::Unless(&|| dull.bytes())),
				_ => record(w, &rec, Focus::Place),
			}
		}
		crossed(w, &|w, rec| {
			let dull = rec.dull_data();
			match gen::want(&rec.dib, &rec.vib) {
				Want::Raw(Raw::Lvar) => {
					record(w, rec, Focus::Unless(&|| dull.bytes()))
				}
				_ => record(w, rec, Focus::Place),
			}
		});
		mixed(w, 40_000);
	})
}

// ------------------------------------------------------------------- C16, C17

fn pairs(w: &mut W, dull: &[Vec<u8>], header: &[u8]) {
	for base in dull {
		let n = base.len();
		for i in 0..n {
			for j in i..n {
				for v in 0..=0xFFFF_u16 {
					if !w.mine(v as usize) || (i == j && v > 0xFF) {
						continue;
					}
					let mut d = header.to_vec();
					let mut data = base.clone();
					data[i] = v as u8;
					if j > i {
						data[j] = (v >> 8) as u8;
					}
					d.extend(data);
					if v % 3 == 0 {
						d.push(w.r.byte());
					}
					w.case(Level::Record, &d, Focus::Pure);
				}
			}
		}
	}
}

/// Dates and times in every company of DIB and VIFEs
fn company(w: &mut W, kinds: &[(u8, &[u8])]) {
	for (nibble, head) in kinds {
		let go = |w: &mut W, dib: Vec<u8>, vifes: &[u8]| {
			let vib = gen::with_vifes(head.to_vec(), vifes);
			let data = gen::data(&mut w.r, gen::want(&dib, &vib));
			let rec = Rec { dib, vib, data };
			let dull = rec.dull_data();
			record(w, &rec, Focus::Unless(&|| dull.bytes()));
			w.count("combinations of choices");
		};
		for storage in 0..=40_u64 {
			for tariff in 0..16 {
				if !w.mine((storage * 16 + tariff) as usize) || w.stopped() {
					continue;
				}
				for device in 0..4 {
					for function in 0..4 {
						let v = if w.r.one_in(4) { gen::vifes(&mut w.r) } else { vec![] };
						go(w, gen::dib_for(nibble | function << 4, storage, tariff, device), &v);
					}
				}
			}
		}
		for first in 0..0x80_u8 {
			if !w.mine(first as usize) {
				continue;
			}
			for second in 0..=0x80_u8 {
				let dib = vec![nibble | w.r.byte() & 0x70];
				if second == 0x80 {
					go(w, dib, &[first]);
				} else {
					go(w, dib, &[first, second]);
				}
			}
		}
	}
	w.exhaustive("with storage numbers up to 40, tariffs up to 15, devices up to 3 and every function; with every one and two extensions");
}

pub fn c16(sh: &Shared) -> Totals {
	parallel(sh, 16, &|w| {
		// All dates
		for v in 0..=0xFFFF_u16 {
			if w.mine(v as usize) {
				let [a, b] = v.to_le_bytes();
				w.case(Level::Record, &[0x02, 0x6C, a, b], Focus::Pure);
				w.case(Level::Record, &[0x04, 0x6D, 0x15, 0x0A, a, b], Focus::Pure);
				w.case(Level::Record, &[0x06, 0x6D, 0x05, 0x15, 0x0A, a, b, 0x03], Focus::Pure);
			}
		}
		w.exhaustive("all type G dates, also within types F and I");
		// At hours that matter, with the flags that say more about them
		for v in 0..=0xFFFF_u16 {
			if !w.mine(v as usize) || w.stopped() {
				continue;
			}
			let [a, b] = v.to_le_bytes();
			for (minute, hour) in [(0, 0), (59, 23), (0, 24), (0, 2), (0, 3), (63, 31), (63, 12)] {
				let flags = w.r.byte();
				let company = w.r.one_in(8);
				let one = |w: &mut W, dib: u8, data: Vec<u8>| {
					let dib = if company { gen::dib_for(dib | 0x10, 3, 1, 0) } else { vec![dib] };
					record(w, &Rec { dib, vib: vec![0x6D], data }, Focus::Pure);
				};
				one(w, 0x04, vec![minute | flags & 0x40, hour | flags & 0x60 | (flags & 1) << 7, a, b]);
				let (s, more) = (*w.r.pick(&[0, 59, 63]), w.r.byte());
				let week = *w.r.pick(&[0, 1, 52, 53]) | more & 0xC0;
				one(w, 0x06, vec![s | flags << 6, minute | more & 0x40, hour | flags & 0xE0, a, b, week]);
			}
		}
		w.exhaustive("all dates at seven hours that matter, in types F and I");
		pairs(w, &[vec![0x15, 0x0A, 0x21, 0x13]], &[0x04, 0x6D]);
		pairs(w, &[vec![0x05, 0x15, 0x0A]], &[0x03, 0x6D]);
		pairs(w, &[vec![0x05, 0x15, 0x2A, 0x21, 0x13, 0x03]], &[0x06, 0x6D]);
		w.exhaustive("every pair of bytes of types F, I and J");
		for v in 0..1_usize << 24 {
			// The whole of type J
			if w.mine(v) && (w.thorough() || v % 17 == 5) {
				let b = (v as u32).to_le_bytes();
				w.case(Level::Record, &[0x03, 0x6D, b[0], b[1], b[2]], Focus::Pure);
			}
		}
		// Every second of a day, and whatever else those bits can say, on any date
		for v in 0..1_usize << 17 {
			if !w.mine(v) || w.stopped() {
				continue;
			}
			let (s, m, h) = ((v & 63) as u8, (v >> 6 & 63) as u8, (v >> 12) as u8);
			w.case(Level::Record, &[0x03, 0x6D, s, m, h], Focus::Pure);
			for k in 0..if w.thorough() { 24 } else { 3 } {
				let date = gen::date_g(&mut w.r);
				let week = *w.r.pick(&[0_u8, 1, 5, 26, 52, 53]) | w.r.byte() & 0xC0;
				let flags = w.r.byte();
				let data = vec![s | flags << 6, m | flags & 0x40, h | flags & 0xE0, date[0], date[1], week];
				w.case(Level::Record, &[&[0x06, 0x6D], &data[..]].concat(), Focus::Pure);
				if k == 0 || s < 8 {
					let date = gen::date_g(&mut w.r);
					let data = [m, h | flags & 0xE0, date[0], date[1]];
					w.case(Level::Record, &[&[0x04, 0x6D], &data[..]].concat(), Focus::Pure);
				}
			}
		}
		w.exhaustive("all values of seconds, minutes and hours in types I and J, of minutes and hours in type F");
		// Wrong widths, other data, VIFEs
		for vif in [0x6C_u8, 0x6D] {
			for nibble in gen::DIF_NIBBLES {
				for _ in 0..200 {
					let dib = vec![nibble];
					let count = w.r.below(3);
					let v: Vec<u8> = (0..count).map(|_| w.r.byte() & 0x7F).collect();
					let vib = gen::with_vifes(vec![vif], &v);
					let want = gen::want(&dib, &vib);
					let data = if w.r.one_in(2) { gen::data(&mut w.r, want) } else { gen::dull_data(want) };
					let pure = matches!(want, Want::F | Want::G | Want::I | Want::J) || data == gen::dull_data(want);
					record(w, &Rec { dib, vib, data }, if pure { Focus::Pure } else { Focus::Place });
				}
			}
		}
		for _ in 0..w.n(1_000_000, 20) {
			let (header, width): (&[u8], usize) = *w.r.pick(&[
				(&[0x04, 0x6D][..], 4),
				(&[0x02, 0x6C][..], 2),
				(&[0x06, 0x6D][..], 6),
				(&[0x03, 0x6D][..], 3),
			]);
			let dib = vec![header[0]];
			let vib = vec![header[1]];
			let mut data = match w.r.below(3) {
				0 => w.r.texture(width),
				_ => gen::data(&mut w.r, gen::want(&dib, &vib)),
			};
			if w.r.one_in(4) {
				let at = w.r.below(width);
				data[at] = w.r.edgy();
			}
			let rec = Rec { dib, vib, data };
			if w.r.one_in(16) {
				let mut d = rec.bytes();
				d.truncate(d.len() - w.r.range(1, width));
				w.case(Level::Record, &d, Focus::Pure);
			} else {
				record(w, &rec, Focus::Pure);
			}
		}
		for _ in 0..w.n(200_000, 20) {
			let dib = gen::dib(&mut w.r);
			let v = gen::vifes(&mut w.r);
			let vif = *w.r.pick(&[0x6C, 0x6D]);
			let vib = gen::with_vifes(vec![vif], &v);
			let data = gen::data(&mut w.r, gen::want(&dib, &vib));
			let rec = Rec { dib, vib, data };
			let dull = rec.dull_data();
			record(w, &rec, Focus::Unless(&|| dull.bytes()));
		}
		company(w, &[(2, &[0x6C]), (3, &[0x6D]), (4, &[0x6D]), (6, &[0x6D])]);
		mixed(w, 40_000);
	})
}

pub fn c17(sh: &Shared) -> Totals {
	parallel(sh, 17, &|w| {
		pairs(
			w,
			&[vec![0x02, 0x03, 0x04, 0xA3], vec![0xE2, 0xE3, 0xE4, 0x1C]],
			&[0x04, 0xFD, 0x72],
		);
		w.exhaustive("every pair of bytes of type K around two plain values");
		for nibble in gen::DIF_NIBBLES {
			for _ in 0..200 {
				let dib = vec![nibble];
				let count = w.r.below(3);
				let v: Vec<u8> = (0..count).map(|_| w.r.byte() & 0x7F).collect();
				let vib = gen::with_vifes(vec![0xFD, 0x72], &v);
				let want = gen::want(&dib, &vib);
				let data = if want == Want::K { gen::data(&mut w.r, want) } else { gen::dull_data(want) };
				record(w, &Rec { dib, vib, data }, Focus::Pure);
			}
		}
		for _ in 0..w.n(1_500_000, 40) {
			let data = match w.r.below(4) {
				0 => w.r.texture(4),
				1 => w.r.bytes(4),
				_ => gen::dst_k(&mut w.r),
			};
			let rec = Rec {
				dib: vec![0x04],
				vib: vec![0xFD, 0x72],
				data,
			};
			if w.r.one_in(16) {
				let mut d = rec.bytes();
				d.truncate(d.len() - w.r.range(1, 4));
				w.case(Level::Record, &d, Focus::Pure);
			} else {
				record(w, &rec, Focus::Pure);
			}
		}
		for _ in 0..w.n(200_000, 20) {
			let dib = gen::dib(&mut w.r);
			let v = gen::vifes(&mut w.r);
			let vib = gen::with_vifes(vec![0xFD, 0x72], &v);
			let data = gen::data(&mut w.r, gen::want(&dib, &vib));
			let rec = Rec { dib, vib, data };
			let dull = rec.dull_data();
			record(w, &rec, Focus::Unless(&|| dull.bytes()));
		}
		company(w, &[(4, &[0xFD, 0x72])]);
		mixed(w, 20_000);
	})
}

// ------------------------------------------------------------------- C18, C19

fn cis_of(kind: Kind) -> Vec<u8> {
	(0..=255_u8).filter(|c| model::ci_table(*c).1 == kind).collect()
}

fn with_header(w: &mut W, ci: u8, dull: bool, body: &[u8]) -> Vec<u8> {
	let h = model::ci_table(ci).0;
	let mut m = vec![ci];
	m.extend(if dull { gen::dull_header(h) } else { gen::header(&mut w.r, h) });
	m.extend(body);
	m
}

pub fn c18(sh: &Shared) -> Totals {
	let mut cis = cis_of(Kind::AppSelect);
	cis.extend(cis_of(Kind::SelectedResponse));
	cis.extend(cis_of(Kind::SelectedRequest));
	parallel(sh, 18, &|w| {
		for ci in cis.clone() {
			if w.mine(ci as usize) {
				let m = with_header(w, ci, true, &[]);
				w.case(Level::Message, &m, Focus::Pure);
				let h = model::ci_table(ci).0;
				for cut in 0..gen::dull_header(h).len() {
					w.case(Level::Message, &m[..1 + cut], Focus::Pure);
				}
			}
			for a in 0..=255_u8 {
				if !w.mine(a as usize) {
					continue;
				}
				let m = with_header(w, ci, true, &[a]);
				w.case(Level::Message, &m, Focus::Pure);
				w.case(Level::Packet, &model::long_frame(0x53, 1, &m), Focus::Pure);
				for b in 0..=255_u8 {
					let m = with_header(w, ci, true, &[a, b]);
					w.case(Level::Message, &m, Focus::Pure);
				}
			}
		}
		w.exhaustive("all one and two byte selections under every CI");
		for _ in 0..w.n(400_000, 20) {
			let ci = *w.r.pick(&cis);
			let n = w.r.range(0, 12);
			let body: Vec<u8> = (0..n)
				.map(|_| match w.r.below(3) {
					0 => w.r.byte() | 0xF0,
					1 => w.r.byte() & 0x0F,
					_ => w.r.byte(),
				})
				.collect();
			let dull = w.r.one_in(2);
			let m = with_header(w, ci, dull, &body);
			swapped(w, ci, &m, &[0x10]);
		}
		for _ in 0..w.n(200_000, 20) {
			let ci = *w.r.pick(&cis);
			let n = w.r.range(0, 3);
			let body = w.r.bytes(n);
			let m = with_header(w, ci, false, &body);
			swapped(w, ci, &m, &[0x10]);
		}
	})
}

/// A message whose header is not in question, as the same with a plain body is fine
fn swapped(w: &mut W, ci: u8, m: &[u8], plain: &[u8]) {
	let head = 1 + gen::dull_header(model::ci_table(ci).0).len();
	if m[head..] == *plain {
		w.case(Level::Message, m, Focus::Place);
		return;
	}
	let dull = || {
		let mut v = m[..head].to_vec();
		v.extend_from_slice(plain);
		v
	};
	w.case(Level::Message, m, Focus::Unless(&dull));
}

pub fn c19(sh: &Shared) -> Totals {
	let cis = cis_of(Kind::AppError);
	parallel(sh, 19, &|w| {
		for ci in cis.clone() {
			let m = with_header(w, ci, true, &[]);
			w.case(Level::Message, &m, Focus::Pure);
			for code in 0..=255_u8 {
				if !w.mine(code as usize) {
					continue;
				}
				let m = with_header(w, ci, true, &[code]);
				w.case(Level::Message, &m, Focus::Pure);
				w.case(Level::Packet, &model::long_frame(0x08, 1, &m), Focus::Pure);
				for n in (0..=260).chain([511, 512, 1000, 4095, 4096, 65535, 65536, 70000]) {
					if n > 240 && code < 0xF0 {
						break;
					}
					let mut body = vec![code];
					body.extend(w.r.texture(n));
					if code != 0xF0 {
						let m = with_header(w, ci, true, &body);
						w.case(Level::Message, &m, Focus::Pure);
						let m = with_header(w, ci, false, &body);
						swapped(w, ci, &m, &[0x09]);
					}
				}
			}
		}
		w.exhaustive("all error codes under every CI");
		for _ in 0..w.n(300_000, 20) {
			let ci = *w.r.pick(&cis);
			let dull = w.r.one_in(2);
			if w.r.one_in(2) {
				// The value of a dynamic error: plain records of all types
				let dib = vec![*w.r.pick(&gen::DIF_NIBBLES)];
				let vib = gen::with_vifes(vec![0xFD, 0x17], &[]);
				let data = gen::dull_data(gen::want(&dib, &vib));
				let mut body = vec![0xF0];
				body.extend(Rec { dib, vib, data }.bytes());
				if w.r.one_in(4) {
					let n = w.r.range(1, body.len());
					body.truncate(n);
				}
				let m = with_header(w, ci, dull, &body);
				swapped(w, ci, &m, &[0x09]);
			} else {
				let mut body = vec![0xF0];
				body.extend(Rec::random(&mut w.r).bytes());
				let m = with_header(w, ci, dull, &body);
				w.case(Level::Message, &m, Focus::Place);
			}
		}
	})
}
