//! Properties without a reference model: no crash, determinism, streaming,
//! resources, explained errors, independence of neighbours.

use std::collections::HashMap;
use std::hint::black_box;

use crate::alloc::{measure, Usage};
use crate::gen::{self, Rec, Rng};
use crate::judge::judge;
use crate::model::{self, Hdr, Out};
use crate::obs::{compared, copies, debug, observe, observe_streams, refusals_compared, run_only, Level, Obs, LEVELS};
use crate::run::{clip, parallel, Shared, Totals, W};
use crate::tree::{fnv, T};

// ----------------------------------------------------------- shared workload

/// Something for this level, in any state of repair
pub fn anything(r: &mut Rng) -> (Level, Vec<u8>) {
	let level = *r.pick(&LEVELS);
	let mut d = match r.below(10) {
		0 => {
			let n = r.small(300);
			r.bytes(n)
		}
		1 => {
			let n = r.small(300);
			r.texture(n)
		}
		_ => fitting(r, level),
	};
	if r.one_in(2) {
		gen::mutate(r, &mut d);
		if r.one_in(2) && matches!(level, Level::Packet | Level::PacketSlice | Level::PacketNext | Level::PacketPartial) {
			if let Some(x) = gen::reseal(&d) {
				d = x;
			}
		}
	}
	(level, d)
}

/// Something that looks right for this level
pub fn fitting(r: &mut Rng, level: Level) -> Vec<u8> {
	match level {
		Level::Message => gen::message(r),
		Level::Frame => gen::frame(r, 12).0,
		Level::Record => {
			let mut v = Rec::random(r).bytes();
			if r.one_in(3) {
				let n = r.small(8);
				v.extend(r.texture(n));
			}
			v
		}
		_ => gen::datagram(r),
	}
}

/// Families of inputs that can be grown without limit
pub fn families() -> Vec<(&'static str, Level, fn(usize) -> Vec<u8>)> {
	fn fill(n: usize, what: &[u8]) -> Vec<u8> {
		what.iter().copied().cycle().take(n / what.len() * what.len()).collect()
	}
	fn number(n: usize, each: impl Fn(u64) -> Vec<u8>) -> Vec<u8> {
		let mut v = Vec::with_capacity(n);
		for i in 1.. {
			let next = each(i);
			if v.len() + next.len() > n {
				break;
			}
			v.extend(next);
		}
		v
	}
	fn letters(i: u64) -> Vec<u8> {
		(0..5).map(|k| b'a' + (i / 26_u64.pow(k) % 26) as u8).collect()
	}
	vec![
		("idle fillers", Level::Frame, |n| fill(n, &[0x2F])),
		("records without data", Level::Frame, |n| fill(n, &[0x00, 0x03])),
		("one byte integers", Level::Frame, |n| fill(n, &[0x01, 0x03, 0x05])),
		("fillers and integers", Level::Frame, |n| fill(n, &[0x2F, 0x2F, 0x01, 0x03, 0x05])),
		("eight byte integers", Level::Frame, |n| {
			fill(n, &[0x07, 0x03, 1, 2, 3, 4, 5, 6, 7, 8])
		}),
		("BCD", Level::Frame, |n| fill(n, &[0x0E, 0x03, 0x12, 0x34, 0x56, 0x78, 0x90, 0x12])),
		("invalid BCD", Level::Frame, |n| fill(n, &[0x0E, 0x03, 0x12, 0xCA, 0x56, 0xFE, 0x90, 0x1A])),
		("short strings", Level::Frame, |n| fill(n, &[0x0D, 0x78, 0x04, b'a', b'b', b'c', b'd'])),
		("long strings", Level::Frame, |n| {
			let mut v = vec![0x0D, 0x78, 0xBF];
			v.extend([0xE4; 0xBF]);
			fill(n, &v)
		}),
		("dates", Level::Frame, |n| fill(n, &[0x04, 0x6D, 0x15, 0x0A, 0x21, 0x13])),
		("plain text units", Level::Frame, |n| {
			fill(n, &[0x01, 0x7C, 0x05, b'm', b'e', b't', b'e', b'r', 0x07])
		}),
		("long plain text units", Level::Frame, |n| {
			let mut v = vec![0x01, 0x7C, 0xFE];
			v.extend([b'x'; 0xFE]);
			v.push(0x09);
			fill(n, &v)
		}),
		("records with DIFEs and VIFEs", Level::Frame, |n| {
			fill(n, &[0x81, 0x80, 0x80, 0x40, 0x83, 0x80, 0x80, 0x00, 0x05])
		}),
		("giant variable length numbers", Level::Frame, |n| {
			let mut v = vec![0x0D, 0x03, 0xF6];
			v.extend([0x77; 64]);
			fill(n, &v)
		}),
		("manufacturer data", Level::Frame, |n| {
			let mut v = vec![0x01, 0x03, 0x05, 0x0F];
			v.resize(n.max(4), 0xAA);
			v
		}),
		("a broken record at the end", Level::Frame, |n| {
			let mut v = fill(n, &[0x02, 0x03, 0x05, 0x06]);
			v.extend([0x07, 0x03, 0x01]);
			v
		}),
		("ever higher storage numbers", Level::Frame, |n| {
			number(n, |i| [&gen::dib_for(0x01, i, 0, 0)[..], &[0x03, 0x05]].concat())
		}),
		("ever higher tariffs", Level::Frame, |n| {
			number(n, |i| [&gen::dib_for(0x01, 0, i & 0xF_FFFF, 0)[..], &[0x03, 0x05]].concat())
		}),
		("storage numbers, tariffs and devices", Level::Frame, |n| {
			number(n, |i| [&gen::dib_for(0x02, i * 7919, i & 0xF_FFFF, i & 0x3FF)[..], &[0x13, i as u8, 0x05]].concat())
		}),
		("ever other plain text units", Level::Frame, |n| {
			number(n, |i| [&[0x01, 0x7C, 0x05][..], &letters(i), &[0x07]].concat())
		}),
		("ever other texts", Level::Frame, |n| number(n, |i| [&[0x0D, 0x78, 0x05][..], &letters(i)].concat())),
		("ever higher integers", Level::Frame, |n| {
			number(n, |i| [&[0x04, 0x13][..], &(i as u32).to_le_bytes()].concat())
		}),
		("ever lower integers", Level::Frame, |n| {
			number(n, |i| [&[0x04, 0x13][..], &(u32::MAX / 2 - i as u32).to_le_bytes()].concat())
		}),
		("ever higher BCD numbers", Level::Frame, |n| {
			number(n, |i| [&[0x0C, 0x13][..], &gen::to_bcd(i, 4)].concat())
		}),
		("ever other reals", Level::Frame, |n| {
			number(n, |i| [&[0x05, 0x13][..], &(i as f32).to_le_bytes()].concat())
		}),
		("ever other long numbers", Level::Frame, |n| {
			number(n, |i| [&[0x0D, 0x13, 0xF0][..], &[0x5A; 8], &i.to_le_bytes()].concat())
		}),
		("ever later dates", Level::Frame, |n| {
			number(n, |i| {
				let (minute, day, month) = (i % 60, 1 + i / 1440 % 28, 1 + i / 40320 % 12);
				vec![0x04, 0x6D, minute as u8, (i / 60 % 24) as u8, day as u8, month as u8 | (i / 483_840 % 6) as u8 * 16]
			})
		}),
		("ever other orthogonal VIFEs", Level::Frame, |n| {
			number(n, |i| {
				let b = |k: u32| (i >> (7 * k)) as u8 & 0x7F;
				vec![0x01, 0x83, 0x80 | b(0), 0x80 | b(1), b(2), 0x05]
			})
		}),
		("ever other VIFs", Level::Frame, |n| {
			number(n, |i| {
				vec![0x01, (i % 0x6C) as u8 | 0x80, (i / 0x6C) as u8 & 0x3F, 0x05]
			})
		}),
		("one chain of VIFEs", Level::Record, |n| {
			let mut v = vec![0x00, 0x83];
			v.resize(n.max(3), 0x80);
			v.push(0x00);
			v
		}),
		("one endless chain of VIFEs", Level::Record, |n| {
			let mut v = vec![0x00, 0x83];
			v.resize(n.max(3), 0x80);
			v
		}),
		("one endless chain of DIFEs", Level::Record, |n| vec![0x80; n.max(1)]),
		("a payload", Level::Message, |n| {
			let mut v = vec![0xA0];
			v.resize(n.max(1), 0x2F);
			v
		}),
		("a response", Level::Message, |n| {
			let mut v = vec![0x78];
			v.extend(fill(n, &[0x03, 0x13, 1, 2, 3]));
			v
		}),
		("application subcodes", Level::Message, |n| {
			let mut v = vec![0x50, 0x1F];
			v.resize(n.max(2), 0xFF);
			v.push(0x00);
			v
		}),
		("manufacturer errors", Level::Message, |n| {
			let mut v = vec![0x70, 0xF5];
			v.resize(n.max(2), 0xFF);
			v
		}),
		("selection of a device", Level::Message, |n| {
			let mut v = vec![0x52];
			v.resize(n.max(2), 0xFF);
			v
		}),
		("noise after a datagram", Level::PacketNext, |n| {
			let mut v = model::short_frame(0x7B, 0x01);
			v.resize(n.max(5), 0x16);
			v
		}),
		("noise after a long datagram", Level::Packet, |n| {
			let mut v = model::long_frame(0x08, 1, &[0x78, 0x01, 0x03, 0x05]);
			v.resize(n.max(10), 0x68);
			v
		}),
	]
}

type Family = (String, Level, Box<dyn Fn(usize) -> Vec<u8> + Send + Sync>);

/// And any records there may be, few over and over or all of them different
fn every_family(seed: u64, random: u64) -> Vec<Family> {
	let mut all: Vec<Family> = families()
		.into_iter()
		.map(|(name, level, f)| (name.to_owned(), level, Box::new(f) as _))
		.collect();
	for k in 0..random {
		let seed = (seed.wrapping_mul(1000).wrapping_add(k)) / 8 * 8 + k % 8;
		all.push((
			format!("random records, the {k}th of their kind"),
			if seed % 8 == 7 { Level::Message } else { Level::Frame },
			Box::new(move |n| random_family(seed, n)),
		));
	}
	all
}

/// Good records in an endless row: of `k` kinds, or never the same twice
fn random_family(seed: u64, n: usize) -> Vec<u8> {
	let mut r = Rng::new(seed.wrapping_add(2323));
	let message = seed % 8 == 7;
	let pool = match r.below(5) {
		0 => 1,
		1 => 2,
		2 => 5,
		3 => 40,
		_ => usize::MAX,
	};
	// All of them of a kind, or of all kinds
	let style = r.below(6);
	let mut made: Vec<Vec<u8>> = Vec::new();
	let mut v = if message { vec![0x78] } else { vec![] };
	let mut tries = 0;
	while v.len() < n && tries < 4 * n + 1000 {
		tries += 1;
		if style == 5 && r.one_in(2) {
			v.push(0x2F);
		}
		if made.len() >= pool {
			let i = made.len();
			let next = made[if style == 0 { r.below(i) } else { tries % i }].clone();
			v.extend(next);
			continue;
		}
		let mut rec = Rec::random(&mut r);
		match style {
			1 => rec = rec.dull_dib(),
			2 => rec = rec.dull_vib(),
			3 => rec = rec.dull_data(),
			4 => rec = rec.dull_dib().dull_vib(),
			_ => (),
		}
		let d = rec.bytes();
		if run_only(Level::Record, &d) {
			v.extend(&d);
			if pool != usize::MAX {
				made.push(d);
			}
		}
	}
	v
}

// ------------------------------------------------------------------------ C01

fn survive(w: &mut W, level: Level, d: &[u8], print: bool) {
	w.begin(level, d);
	let o = observe(level, d);
	match &o {
		Obs::Panic(m) => {
			let what = format!("panicked: {m}");
			w.violate(Some(level), &[d], what);
		}
		Obs::Ok { .. } => w.count("returned a value"),
		Obs::Err { incomplete: Some(_), .. } => w.count("asked for more"),
		Obs::Err { .. } => w.count("returned an error"),
	}
	w.evaluated(level, d, !d.is_empty(), &|| o.show());
	if print {
		for pretty in [false, true] {
			match debug(level, d, pretty) {
				Ok(text) => {
					w.count("printed");
					if text.is_empty() {
						w.violate(Some(level), &[d], "prints as nothing".into());
					}
				}
				Err(m) => w.violate(Some(level), &[d], format!("panicked while printing: {m}")),
			}
		}
	}
}

pub fn c01(sh: &Shared) -> Totals {
	// Without optimisation it is the stack that counts
	let plain = std::env::var_os("MONITOR_PLAIN").is_some();
	let mut t = parallel(sh, 1, &|w| {
		if plain {
			for i in 0..w.n(20_000, 12) {
				if w.stopped() {
					return;
				}
				let (level, d) = anything(&mut w.r);
				survive(w, level, &d, i % 8 == 0);
			}
			return;
		}
		// Every string of up to two bytes, everywhere
		for a in 0..=255_u8 {
			if !w.mine(a as usize) {
				continue;
			}
			for level in LEVELS {
				survive(w, level, &[a], true);
				for b in 0..=255_u8 {
					survive(w, level, &[a, b], false);
				}
			}
			// CI fields and DIFs with a little behind them, of every length
			for len in 0..40 {
				for fill in [0x00, 0x2F, 0xFF, 0x99, 0x80] {
					let mut d = vec![a];
					d.resize(len + 1, fill);
					survive(w, Level::Message, &d, false);
					survive(w, Level::Record, &d, false);
					survive(w, Level::Packet, &model::long_frame(0x08, 0, &d), false);
				}
			}
		}
		if w.part == 0 {
			for level in LEVELS {
				survive(w, level, &[], true);
			}
		}
		w.exhaustive("every string of up to 2 bytes at all 7 entry points");
		for (i, (_, d)) in gen::corpus(&["test-frames", "error-frames", "unsupported-frames"])
			.iter()
			.enumerate()
		{
			if !w.mine(i) {
				continue;
			}
			for level in &LEVELS[..4] {
				survive(w, *level, d, true);
				for cut in 0..d.len() {
					survive(w, *level, &d[..cut], false);
				}
			}
			if d.len() > 9 {
				for at in 6..d.len() {
					survive(w, Level::Frame, &d[at..], false);
					survive(w, Level::Message, &d[at..], false);
					survive(w, Level::Record, &d[at..], false);
				}
			}
			for _ in 0..w.n(1600, 20) {
				let mut m = d.clone();
				gen::mutate(&mut w.r, &mut m);
				if w.r.one_in(2) {
					m = gen::reseal(&m).unwrap_or(m);
				}
				let level = *w.r.pick(&LEVELS[..4]);
				survive(w, level, &m, false);
				w.count("mutated recordings");
			}
		}
		for i in 0..w.n(1_600_000, 12) {
			if w.stopped() {
				return;
			}
			let (level, d) = anything(&mut w.r);
			survive(w, level, &d, i % 8 == 0);
		}
	});
	// Big inputs on a small stack: depth must not follow the input
	let big = parallel(sh, 101, &|w| {
		let sizes: &[usize] = if w.thorough() {
			&[1_000, 70_000, 1 << 20, 6 << 20]
		} else {
			&[1_000, 70_000, 1 << 20]
		};
		for (i, (name, level, f)) in every_family(w.sh.opts.seed, if w.thorough() { 48 } else { 16 }).into_iter().enumerate() {
			if !w.mine(i) {
				continue;
			}
			for size in sizes {
				let d = f(*size);
				// All of it only for whoever looks for what ended the process
				w.begin(level, if w.tracing() { &d } else { &d[..d.len().min(4096)] });
				// Catches panics; overflowing the stack ends the process, which
				// whoever runs this notices
				let r = std::thread::Builder::new()
					.stack_size(if plain { 1 << 20 } else { 256 << 10 })
					.spawn(move || {
						crate::obs::guarded(|| run_only(level, &d))
					})
					.expect("spawn")
					.join();
				match r {
					Ok(Ok(_)) => w.count("huge inputs"),
					Ok(Err(m)) => {
						let d = f(*size);
						w.violate(
							Some(level),
							&[&d[..d.len().min(100_000)]],
							format!("panicked on {size} bytes of {name}: {m}"),
						)
					}
					Err(_) => w.violate(None, &[], format!("the thread died on {size} bytes of {name}")),
				}
			}
		}
	});
	crate::run::merge(&mut t, big);
	t
}

// ------------------------------------------------------------------------ C20

pub fn digest_inputs(seed: u64, count: usize) -> Vec<(Level, Vec<u8>)> {
	let mut r = Rng::new(seed.wrapping_mul(77).wrapping_add(20));
	let mut v = Vec::new();
	for (_, d) in gen::corpus(&["test-frames", "error-frames", "unsupported-frames"]) {
		v.push((Level::Packet, d));
	}
	while v.len() < count {
		v.push(varied(&mut r));
	}
	v
}

/// Rather things of many kinds than ones of many layers
fn varied(r: &mut Rng) -> (Level, Vec<u8>) {
	match r.below(8) {
		0 | 1 => anything(r),
		2 => (Level::Message, fitting(r, Level::Message)),
		3 => {
			let l = *r.pick(&LEVELS);
			(l, fitting(r, l))
		}
		k => {
			let mut rec = Rec::random(r);
			if r.one_in(3) {
				rec = rec.dull_dib();
			}
			if r.one_in(3) {
				rec = rec.dull_vib();
			}
			let mut d = rec.bytes();
			// As it is, or one bit off, mostly in what it holds
			if k > 5 && !d.is_empty() {
				let at = if r.one_in(3) { r.below(d.len()) } else { d.len() - 1 - r.below(d.len().min(7)) };
				d[at] ^= 1 << r.below(8);
			}
			(Level::Record, d)
		}
	}
}

/// Everything visible about decoding this, including how it prints
fn fingerprint(level: Level, d: &[u8]) -> u64 {
	let o = observe(level, d);
	let mut h = fnv(o.all().as_bytes());
	if let Ok(t) = debug(level, d, false) {
		h = h.rotate_left(7) ^ fnv(t.as_bytes());
	}
	h
}

fn shuffle<X>(r: &mut Rng, v: &mut [X]) {
	for i in (1..v.len()).rev() {
		v.swap(i, r.below(i + 1));
	}
}

pub fn c20(sh: &Shared) -> Totals {
	parallel(sh, 20, &|w| {
		let rounds = w.n(4_000, 15);
		for _round in 0..rounds {
			if w.stopped() {
				return;
			}
			let mut inputs: Vec<(Level, Vec<u8>)> = (0..120).map(|_| varied(&mut w.r)).collect();
			for _ in 0..40 {
				let l = *w.r.pick(&LEVELS);
				let d = fitting(&mut w.r, l);
				inputs.push((l, d));
			}
			let first: Vec<u64> = inputs
				.iter()
				.map(|(l, d)| {
					w.begin(*l, d);
					fingerprint(*l, d)
				})
				.collect();
			let again = |w: &mut W, i: usize, h: u64, how: &str| {
				w.count("repeated observations");
				if h != first[i] {
					let (l, d) = &inputs[i];
					let now = observe(*l, d).all();
					w.violate(
						Some(*l),
						&[d],
						format!("decoded differently {how} (now: {})", clip(&now, 400)),
					);
				}
			};
			// In other orders, next to other things, elsewhere in memory
			let mut order: Vec<usize> = (0..inputs.len()).collect();
			shuffle(&mut w.r, &mut order);
			let mut buffer = Vec::new();
			for &i in &order {
				let (l, d) = &inputs[i];
				if w.r.one_in(4) {
					// Somebody else's work in between
					let (pl, pd) = anything(&mut w.r);
					w.begin(pl, &pd);
					black_box(fingerprint(pl, &pd));
				}
				buffer.clear();
				let offset = w.r.below(64);
				buffer.extend(w.r.texture(offset));
				buffer.extend_from_slice(d);
				let after = w.r.below(40);
				buffer.extend(w.r.texture(after));
				w.begin(*l, d);
				let h = fingerprint(*l, &buffer[offset..offset + d.len()]);
				again(w, i, h, "when decoded again, after other inputs and between other bytes");
				if &buffer[offset..offset + d.len()] != &d[..] {
					w.violate(Some(*l), &[d], "decoding changed its input".into());
				}
			}
			for (i, (l, d)) in inputs.iter().enumerate() {
				w.evaluated(*l, d, true, &|| format!("{:016x} every time", first[i]));
			}
			// All entry points for datagrams agree
			for (l, d) in &inputs {
				if !matches!(l, Level::Packet | Level::PacketSlice | Level::PacketNext | Level::PacketPartial) {
					continue;
				}
				w.begin(Level::Packet, d);
				let a = observe(Level::Packet, d);
				let b = observe(Level::PacketSlice, d);
				w.count("entry points compared");
				if a.all() != b.all() {
					w.violate(
						Some(Level::PacketSlice),
						&[d],
						format!("a byte slice gives {}, the same as Bytes {}", clip(&b.all(), 300), clip(&a.all(), 300)),
					);
				}
				// Every other kind of stream, also where more or less than a datagram is there
				let more = [&d[..], &[0x10]].concat();
				let less = w.r.below(d.len() + 1);
				for part in [&d[..], &d[..less], &more] {
					let plain = (observe(Level::PacketNext, part), observe(Level::PacketPartial, part));
					for (kind, as_level, got) in observe_streams(part) {
						w.count("stream kinds compared");
						let want = if as_level == Level::PacketNext { &plain.0 } else { &plain.1 };
						if want.all() != got.all() {
							w.violate(
								Some(as_level),
								&[part],
								format!("from {kind} it is {}, from {} {}", clip(&got.all(), 300), as_level.name(), clip(&want.all(), 300)),
							);
						}
					}
				}
				if let Obs::Ok { tree, .. } = &a {
					for other in [Level::PacketNext, Level::PacketPartial] {
						let o = observe(other, d);
						match &o {
							Obs::Ok { tree: t, consumed } if t == tree && *consumed == d.len() => {
								w.count("entry points compared")
							}
							_ => w.violate(
								Some(other),
								&[d],
								format!("{} gives {}, all at once {}", other.name(), clip(&o.all(), 300), clip(&a.all(), 300)),
							),
						}
					}
				}
			}
		}
		// Inputs that are nearly the same, one after the other: whatever is
		// remembered of one must not show up in the next
		for _ in 0..w.n(6_000, 15) {
			if w.stopped() {
				return;
			}
			let (level, base) = match w.r.below(4) {
				0 => anything(&mut w.r),
				1 => (Level::Record, fitting(&mut w.r, Level::Record)),
				_ => {
					let mut m = vec![*w.r.pick(&[0x72, 0x72, 0x7A, 0x68, 0x6F, 0x75, 0x53])];
					m.extend(gen::header(&mut w.r, model::ci_table(m[0]).0));
					let n = w.r.small(8);
					m.extend(w.r.texture(n));
					if m[0] == 0x72 {
						m.truncate(13);
						m.extend(gen::frame(&mut w.r, 3).0);
						m.truncate(253);
					}
					(Level::Packet, model::long_frame(0x08, 1, &m))
				}
			};
			let sealed = level == Level::Packet;
			let all = gen::siblings(&mut w.r, &base, sealed, 10);
			for d in &all {
				w.begin(level, d);
			}
			// Each in a thread of its own, which remembers nothing
			let alone: Vec<u64> = all
				.iter()
				.map(|d| std::thread::scope(|s| s.spawn(|| fingerprint(level, d)).join().unwrap_or(0)))
				.collect();
			let mut order: Vec<usize> = (0..all.len()).collect();
			for _ in 0..3 {
				shuffle(&mut w.r, &mut order);
				for (k, &i) in order.iter().enumerate() {
					w.begin(level, &all[i]);
					w.count("siblings compared");
					if fingerprint(level, &all[i]) != alone[i] {
						let before = if k > 0 { &all[order[k - 1]][..] } else { &[] };
						w.violate(Some(level), &[&all[i], before], format!(
							"decoded differently after a nearly identical input (now: {})",
							clip(&observe(level, &all[i]).all(), 400)
						));
					}
				}
			}
			for (d, h) in all.iter().zip(&alone) {
				w.evaluated(level, d, true, &|| format!("{h:016x} alone and after its siblings"));
			}
		}
		// At the same time, from many threads
		for round in 0..w.n(400, 15) {
			if w.stopped() {
				return;
			}
			let inputs: Vec<(Level, Vec<u8>)> = (0..150).map(|_| anything(&mut w.r)).collect();
			let first: Vec<u64> = inputs.iter().map(|(l, d)| fingerprint(*l, d)).collect();
			w.begin(Level::Packet, &[]);
			let threads = 4;
			let barrier = std::sync::Barrier::new(threads);
			let seed = w.r.next();
			let bad: Vec<(usize, String)> = std::thread::scope(|s| {
				let (barrier, inputs, first) = (&barrier, &inputs, &first);
				let hs: Vec<_> = (0..threads)
					.map(|k| {
						s.spawn(move || {
							let mut r = Rng::new(seed ^ k as u64);
							let mut order: Vec<usize> = (0..inputs.len()).collect();
							// Half of the rounds all threads do the same thing at once
							if round % 2 == 0 {
								shuffle(&mut r, &mut order);
							}
							barrier.wait();
							let mut bad = Vec::new();
							for i in order {
								let (l, d) = &inputs[i];
								if r.one_in(8) {
									std::thread::yield_now();
								}
								if fingerprint(*l, d) != first[i] {
									bad.push((i, observe(*l, d).all()));
								}
							}
							bad
						})
					})
					.collect();
				hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
			});
			w.count_n("concurrent observations", (threads * inputs.len()) as u64);
			for (i, now) in bad {
				let (l, d) = &inputs[i];
				w.violate(
					Some(*l),
					&[d],
					format!("decoded differently next to other threads (now: {})", clip(&now, 400)),
				);
			}
		}
	})
}

// ------------------------------------------------------------------------ C21

fn incomplete(o: &Obs) -> Option<Option<usize>> {
	match o {
		Obs::Err { incomplete: Some(i), .. } => Some(*i),
		_ => None,
	}
}

fn stream(w: &mut W, d: &[u8]) {
	let whole = observe(Level::Packet, d);
	let Obs::Ok { tree, .. } = &whole else {
		// Whether it must be accepted is for others to say
		w.count("datagrams refused as a whole");
		return;
	};
	for cut in 0..d.len() {
		let part = &d[..cut];
		w.begin(Level::PacketPartial, part);
		let o = observe(Level::PacketPartial, part);
		w.count("prefixes");
		w.evaluated(Level::PacketPartial, part, true, &|| o.show());
		match incomplete(&o) {
			None => w.violate(
				Some(Level::PacketPartial),
				&[part, d],
				format!("{cut} of {} bytes of a good datagram: {}", d.len(), clip(&o.show(), 300)),
			),
			Some(Some(hint)) if hint == 0 || hint > d.len() - cut => w.violate(
				Some(Level::PacketPartial),
				&[part, d],
				format!("asks for {hint} more bytes when {} are missing", d.len() - cut),
			),
			Some(Some(_)) => w.count("hints checked"),
			Some(None) => w.count("no hint"),
		}
	}
	// A reader that reads what it is asked for, or in random pieces
	for mode in 0..3 {
		let mut have = 0;
		let mut rounds = 0;
		loop {
			rounds += 1;
			w.begin(Level::PacketPartial, &d[..have]);
			let o = observe(Level::PacketPartial, &d[..have]);
			match (incomplete(&o), &o) {
				(Some(hint), _) if have < d.len() && rounds <= d.len() + 1 => {
					have += match mode {
						0 => hint.unwrap_or(1).max(1).min(d.len() - have),
						1 => 1 + w.r.below((d.len() - have).min(40)),
						_ => 1,
					};
				}
				(None, Obs::Ok { tree: t, consumed }) if have == d.len() => {
					if t != tree || *consumed != have {
						w.violate(
							Some(Level::PacketPartial),
							&[d],
							format!("in pieces, used {consumed} bytes for {}, in one {}", clip(&o.show(), 300), clip(&whole.show(), 300)),
						);
					}
					w.count("fed datagrams");
					break;
				}
				_ => {
					w.violate(
						Some(Level::PacketPartial),
						&[&d[..have], d],
						format!("after {have} of {} bytes: {}", d.len(), clip(&o.show(), 300)),
					);
					break;
				}
			}
		}
	}
}

/// Frame data that fills a datagram up to each length
fn of_every_length(w: &mut W, rounds: usize) -> Vec<Vec<u8>> {
	let mut all = Vec::new();
	for round in 0..rounds {
		for len in 1..=253_usize {
			if !w.mine(len + round) {
				continue;
			}
			// A response: what records fit, and fillers or manufacturer data
			let (ci, head) = *w.r.pick(&[(0x78, 0), (0x7A, 4), (0x72, 12)]);
			let ci = if len < 1 + head { 0x78 } else { ci };
			let mut m = vec![ci];
			m.extend(gen::header(&mut w.r, model::ci_table(ci).0));
			loop {
				let rec = Rec::random(&mut w.r).bytes();
				if m.len() + rec.len() > len || w.r.one_in(40) {
					break;
				}
				if let (Out::Ok(_), used, _) = model::record(&rec) {
					if used == rec.len() {
						m.extend(rec);
					}
				}
			}
			if m.len() + 2 <= len && w.r.one_in(2) {
				m.push(*w.r.pick(&[0x0F, 0x1F]));
				let n = len - m.len();
				m.extend(w.r.texture(n));
			} else {
				m.resize(len, 0x2F);
			}
			let c = gen::good_control(&mut w.r);
			let a = w.r.edgy();
			all.push(model::long_frame(c, a, &m));
		}
	}
	all
}

pub fn c21(sh: &Shared) -> Totals {
	parallel(sh, 21, &|w| {
		for (i, (_, d)) in gen::corpus(&["test-frames"]).iter().enumerate() {
			if w.mine(i) {
				stream(w, d);
			}
		}
		if w.part == 0 {
			stream(w, &[0xE5]);
		}
		for c in 0..=255_u8 {
			if w.mine(c as usize) {
				for a in [0, 1, 0x16, 0x68, 0xFD, 0xFF] {
					stream(w, &model::short_frame(c, a));
				}
			}
		}
		// Opaque long frames of every length
		for len in 1..=253 {
			if w.mine(len) {
				let mut m = vec![0xA0];
				m.extend(w.r.texture(len - 1));
				let c = gen::good_control(&mut w.r);
				let a = w.r.edgy();
				stream(w, &model::long_frame(c, a, &m));
			}
		}
		// Any contents that are accepted, of every length there is
		for d in of_every_length(w, if w.thorough() { 12 } else { 3 }) {
			w.count("whole messages of a given length");
			stream(w, &d);
		}
		w.exhaustive("every prefix of long frames of every length, and of short frames with every control");
		for _ in 0..w.n(6_400, 25) {
			if w.stopped() {
				return;
			}
			let d = gen::good_datagram(&mut w.r);
			stream(w, &d);
			// All there but damaged: an error, not a request for more
			if d.len() < 5 {
				continue;
			}
			for _ in 0..12 {
				let from = if d[0] == 0x68 { 1 } else { 3 };
				let at = w.r.range(from, d.len() - 1);
				let mut b = d.clone();
				b[at] = match w.r.below(3) {
					0 => b[at] ^ (1 << w.r.below(8)),
					1 => w.r.edgy(),
					_ => w.r.byte(),
				};
				if b[at] == d[at] {
					continue;
				}
				w.begin(Level::PacketPartial, &b);
				let o = observe(Level::PacketPartial, &b);
				w.evaluated(Level::PacketPartial, &b, true, &|| o.show());
				match (&o, incomplete(&o)) {
					(Obs::Err { .. }, None) => w.count("damaged streams refused"),
					_ => w.violate(
						Some(Level::PacketPartial),
						&[&b],
						format!(
							"all bytes are there, byte {at} is damaged, but: {}",
							clip(&o.show(), 300)
						),
					),
				}
			}
		}
	})
}

// ------------------------------------------------------------------------ C23

/// Generous: a plain record of 2 bytes becomes a struct of under 200
const PEAK: (i64, i64) = (16 << 10, 1024);
const BYTES: (u64, u64) = (64 << 10, 4096);
const CALLS: (u64, u64) = (64, 8);

/// What may be kept for good in all (tables made on first use)
const KEPT: i64 = 64 << 10;

/// What was not freed so far, by all threads
static LEFT: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

pub fn usage_of(level: Level, d: &[u8]) -> Usage {
	measure(|| {
		black_box(run_only(level, d));
	})
	.1
}

fn within(w: &mut W, level: Level, d: &[u8], name: &str) -> Usage {
	w.begin(level, &d[..d.len().min(4096)]);
	let u = usage_of(level, d);
	let n = d.len();
	let mut bad = None;
	if u.left != 0 {
		// A table made once and for all is fine, a growing one is not
		let again = usage_of(level, d);
		let left = LEFT.fetch_add(u.left + again.left, std::sync::atomic::Ordering::Relaxed) + u.left + again.left;
		w.max("bytes kept for good", left.max(0) as u64);
		if again.left != 0 {
			bad = Some(format!(
				"{} bytes are still allocated after dropping the result, {} more the second time",
				u.left, again.left
			));
		} else if left > KEPT {
			bad = Some(format!("{left} bytes are still allocated after dropping all results"));
		}
	} else if u.peak > PEAK.0 + PEAK.1 * n as i64 {
		bad = Some(format!("{} bytes were allocated at once", u.peak));
	} else if u.bytes > BYTES.0 + BYTES.1 * n as u64 {
		bad = Some(format!("{} bytes were allocated in total", u.bytes));
	} else if u.calls > CALLS.0 + CALLS.1 * n as u64 {
		bad = Some(format!("{} allocations were made", u.calls));
	}
	w.count("measured decodes");
	w.max("peak bytes, per byte of input over 64", if n > 64 { u.peak as u64 / n as u64 } else { 0 });
	w.max("allocated bytes, per byte of input over 64", if n > 64 { u.bytes / n as u64 } else { 0 });
	w.max("allocations per 100 bytes of input over 64", if n > 64 { u.calls * 100 / n as u64 } else { 0 });
	w.max("peak bytes for inputs up to 64", if n <= 64 { u.peak as u64 } else { 0 });
	w.max("allocated bytes for inputs up to 64", if n <= 64 { u.bytes } else { 0 });
	w.max("allocations for inputs up to 64", if n <= 64 { u.calls } else { 0 });
	w.evaluated(level, &d[..d.len().min(4096)], u.calls > 0, &|| format!("{u:?}"));
	if let Some(b) = bad {
		w.violate(Some(level), &[&d[..d.len().min(100_000)]], format!("for {n} bytes {name}: {b}"));
	}
	u
}

fn cpu_now() -> f64 {
	// SAFETY: plain call that fills a struct of ours
	#[repr(C)]
	struct Ts {
		s: i64,
		n: i64,
	}
	extern "C" {
		fn clock_gettime(clock: i32, ts: *mut Ts) -> i32;
	}
	let mut t = Ts { s: 0, n: 0 };
	unsafe { clock_gettime(3, &mut t) };
	t.s as f64 + t.n as f64 * 1e-9
}

fn cpu_of(level: Level, d: &[u8]) -> f64 {
	(0..3)
		.map(|_| {
			let a = cpu_now();
			black_box(run_only(level, d));
			cpu_now() - a
		})
		.fold(f64::MAX, f64::min)
}

pub fn c23(sh: &Shared) -> Totals {
	parallel(sh, 23, &|w| {
		for (i, (_, d)) in gen::corpus(&["test-frames", "error-frames", "unsupported-frames"])
			.iter()
			.enumerate()
		{
			if w.mine(i) {
				for l in &LEVELS[..4] {
					within(w, *l, d, "(recorded)");
				}
				for cut in 0..d.len() {
					within(w, Level::PacketPartial, &d[..cut], "(recorded, cut short)");
				}
			}
		}
		for _ in 0..w.n(1_200_000, 12) {
			if w.stopped() {
				return;
			}
			let (l, d) = anything(&mut w.r);
			within(w, l, &d, "");
		}
		// Everything a table could be kept of: makers with versions, units,
		// texts, addresses
		for maker in 0..0x8000_u16 {
			if !w.mine(maker as usize) {
				continue;
			}
			let mut h = gen::long_header(&mut w.r);
			h[4..6].copy_from_slice(&maker.to_le_bytes());
			h.insert(0, 0x72);
			let n = w.r.range(1, 8);
			let text: Vec<u8> = (0..n).map(|_| b'a' + w.r.below(26) as u8).collect();
			h.extend([0x0D, 0x7C, n as u8]);
			h.extend(&text);
			h.push(n as u8);
			h.extend(&text);
			within(w, Level::Message, &h, "(maker, unit and text)");
			let d = model::long_frame(gen::good_control(&mut w.r), maker as u8, &h);
			within(w, Level::Packet, &d, "(maker, unit and text)");
		}
		let all = every_family(w.sh.opts.seed, if w.thorough() { 96 } else { 24 });
		for (i, (name, level, f)) in all.into_iter().enumerate() {
			let name = &name[..];
			if !w.mine(i) {
				continue;
			}
			let sizes: &[usize] = if i >= families().len() && !w.thorough() {
				&[16 << 10, 256 << 10]
			} else if w.thorough() {
				&[16 << 10, 64 << 10, 256 << 10, 1 << 20, 4 << 20]
			} else {
				&[16 << 10, 64 << 10, 256 << 10, 1 << 20]
			};
			let mut base: Option<(usize, f64, Usage)> = None;
			for size in sizes {
				let d = f(*size);
				let u = within(w, level, &d, name);
				let t = cpu_of(level, &d);
				if let Some((n0, t0, u0)) = base {
					let grown = d.len() as f64 / n0 as f64;
					// A quadratic decoder is over by a factor of `grown`
					let t_ratio = t / t0.max(20e-6) / grown;
					let b_ratio = (u.bytes as f64 + 4096.0) / (u0.bytes as f64 + 4096.0) / grown;
					let c_ratio = (u.calls as f64 + 64.0) / (u0.calls as f64 + 64.0) / grown;
					if (grown > 15.0 && t_ratio > grown * 0.4 && t > 0.05) || b_ratio > 4.0 || c_ratio > 4.0 {
						w.violate(
							Some(level),
							&[&d[..d.len().min(50_000)]],
							format!(
								"{name}: {} times as long an input took {:.1} times the CPU time, {:.1} times the memory, {:.1} times the allocations",
								grown, t_ratio * grown, b_ratio * grown, c_ratio * grown
							),
						);
					}
				} else {
					base = Some((d.len(), t, u));
				}
			}
			w.count("growth families");
		}
	})
}

// ------------------------------------------------------------------------ C24

/// Words, one of which has to be in the explanation
type Named<'a> = &'a [&'a str];

/// The parts of a datagram, of a header, of a record and of a date: whichever of
/// those is at fault, its siblings are not
const FRAME_PARTS: Named = &["length", "marker", "control", "address", "checksum", "tail"];
const HEADER_PARTS: Named = &["identifier", "manufacturer", "version", "device type", "access number", "status", "configuration"];
const RECORD_PARTS: Named = &["DIF", "DIFE", "VIF", "VIFE", "LVAR", "string", "BCD", "real", "type F", "type G", "type I", "type J", "type K"];
const DATE_PARTS: Named = &["second", "minute", "hour", "day", "month", "year", "week"];

/// Whether a line of an explanation is about this part
fn mentions(line: &str, part: &str) -> bool {
	let split = |t: &str| -> Vec<String> {
		t.split(|c: char| !c.is_alphanumeric()).filter(|v| !v.is_empty()).map(|v| v.to_lowercase()).collect()
	};
	let (line, part) = (split(line), split(part));
	line.windows(part.len()).any(|v| v == part)
}

/// Not a part, but how many bytes there are to the number at fault: if the error
/// says a width it is this one
const WIDTHS: [Named<'static>; 10] = [
	&["width"],
	&["width", "1"],
	&["width", "2"],
	&["width", "3"],
	&["width", "4"],
	&["width", "5"],
	&["width", "6"],
	&["width", "7"],
	&["width", "8"],
	&["width", "9"],
];

fn width_in(line: &str) -> Option<usize> {
	let words: Vec<&str> = line.split(|c: char| !c.is_alphanumeric()).filter(|v| !v.is_empty()).collect();
	words.windows(2).find_map(|v| match v[1] {
		"bit" | "bits" => v[0].parse().ok(),
		"byte" | "bytes" => v[0].parse().ok().map(|n: usize| n * 8),
		_ => None,
	})
}

fn explained(w: &mut W, d: &[u8], kind: Option<&str>, named: &[Named], why: &str) {
	explained_without(w, d, kind, named, &[], why)
}

/// `sound` are the parts that must not be blamed
fn explained_without(w: &mut W, d: &[u8], kind: Option<&str>, named: &[Named], sound: &[&str], why: &str) {
	w.begin(Level::Packet, d);
	let o = observe(Level::Packet, d);
	let Obs::Err {
		contexts,
		display,
		cause,
		incomplete: None,
	} = &o
	else {
		// Whether it must be refused is for others to say
		w.count("not refused");
		return;
	};
	w.evaluated(Level::Packet, d, true, &|| display.clone());
	let mut bad = None;
	// The cause as it is, then every level, one step further in than the one inside it
	let mut wanted: Vec<String> = cause.iter().flat_map(|c| c.lines().map(|l| l.trim_end().to_owned()).collect::<Vec<_>>()).collect();
	let mut level = None;
	for c in contexts {
		// What was expected stands beside what it is about
		if !c.starts_with("expected ") {
			level = Some(level.map_or(0, |l| l + 1));
		}
		wanted.push(format!("{}{}", " ".repeat(level.unwrap_or(0)), c.trim_end()));
	}
	let got: Vec<String> = display.lines().map(|l| l.trim_end().to_owned()).collect();
	if got != wanted {
		bad = Some(format!("the text does not list the contexts {wanted:?} line by line, each a step further in"));
	}
	w.max("levels in an explanation", level.map_or(0, |l: usize| l as u64 + 1));
	if let Some(kind) = kind {
		if !contexts.last().map(|l| l.contains(kind)).unwrap_or(false) {
			bad = Some(format!("the last line does not name the {kind}"));
		}
		if display.trim().is_empty() {
			bad = Some("there is no explanation".to_owned());
		}
	}
	for words in named {
		if let ["width", bytes] = words {
			let bits = bytes.parse::<usize>().unwrap() * 8;
			if let Some(n) = got.iter().find_map(|l| width_in(l)).filter(|n| *n != bits) {
				bad = Some(format!("a number of {bits} bits is blamed for one of {n}"));
			}
			continue;
		}
		let low: Vec<String> = got.iter().map(|l| l.to_lowercase()).collect();
		if !low.iter().any(|l| words.iter().any(|v| l.contains(&v.to_lowercase()))) {
			bad = Some(format!("nothing in it mentions {words:?}"));
		}
	}
	for part in sound {
		// The names of whole dates have words in them that their parts have as well
		let line = got.iter().find(|l| {
			let date = DATE_PARTS.contains(part) && (l.contains("Type ") || l.contains("day of week"));
			mentions(l, part) && !date
		});
		if let Some(line) = line {
			bad = Some(format!("{line:?} blames the {part}, which is sound"));
		}
		w.count("sound parts not blamed");
	}
	match bad {
		None => w.count("explained errors"),
		Some(b) => w.violate(
			Some(Level::Packet),
			&[d],
			format!("{why}: {b}; the text is {display:?}"),
		),
	}
	// The same explanation however it came in
	for other in [Level::PacketSlice, Level::PacketNext, Level::PacketPartial] {
		if let Obs::Err {
			display: t,
			incomplete: None,
			..
		} = observe(other, d)
		{
			if &t != display {
				w.violate(
					Some(other),
					&[d],
					format!("explained as {t:?} by {}, otherwise {display:?}", other.name()),
				);
			}
			w.count("same explanation elsewhere");
		}
	}
}

const LONG: Option<&str> = Some("long frame");
const SHORT: Option<&str> = Some("short frame");

/// Records of dates and times with one part at fault, in front of and behind which
/// all is well
fn faulty_dates(r: &mut Rng) -> Vec<(Vec<u8>, Vec<Named<'static>>, &'static str)> {
	let mut out: Vec<(Vec<u8>, Vec<Named<'static>>, &'static str)> = Vec::new();
	for _ in 0..2 {
		let date = |r: &mut Rng| {
			let (d, m, y) = (r.range(0, 31) as u8, r.range(1, 12) as u8, r.range(0, 99) as u8);
			[d | (y & 7) << 5, m | (y >> 3) << 4]
		};
		let bad_month = |r: &mut Rng, d: [u8; 2]| [d[0], d[1] & 0xF0 | r.range(13, 14) as u8];
		let bad_year = |r: &mut Rng, d: [u8; 2]| {
			let y = r.range(100, 126) as u8;
			[d[0] & 0x1F | (y & 7) << 5, d[1] & 0x0F | (y >> 3) << 4]
		};
		let (sec, min, hour) = (r.range(0, 59) as u8, r.range(0, 59) as u8, r.range(0, 23) as u8);
		let (no_min, no_hour) = (r.range(60, 62) as u8, r.range(24, 30) as u8);
		let d = date(r);
		let (no_month, no_year) = (bad_month(r, d), bad_year(r, d));
		let dst = (r.byte() & 0xE0, r.byte() & 0x60);
		let g = |d: [u8; 2]| vec![0x02, 0x6C, d[0], d[1]];
		out.push((g(no_month), vec![&["record"], &["type G"], &["month"]], "a type G date of no month"));
		out.push((g(no_year), vec![&["record"], &["type G"], &["year"]], "a type G date of no year"));
		let f = |m: u8, h: u8, d: [u8; 2]| vec![0x04, 0x6D, m, dst.0 | h, d[0], d[1]];
		out.push((f(no_min, hour, d), vec![&["record"], &["type F"], &["minute"]], "a type F time of no minute"));
		out.push((f(min, no_hour, d), vec![&["record"], &["type F"], &["hour"]], "a type F time of no hour"));
		out.push((f(min, hour, no_month), vec![&["record"], &["type F"], &["month"]], "a type F date of no month"));
		out.push((f(min, hour, no_year), vec![&["record"], &["type F"], &["year"]], "a type F date of no year"));
		out.push((f(min | 0x80, hour, d), vec![&["record"], &["type F"], &["invalid"]], "a type F date that says it is invalid"));
		out.push((f(min | 0x40, hour, d), vec![&["record"], &["type F"], &["reserved"]], "a type F date with its reserved bit"));
		let j = |s: u8, m: u8, h: u8| vec![0x03, 0x6D, s, m, h];
		out.push((j(no_min, min, hour), vec![&["record"], &["type J"], &["second"]], "a type J time of no second"));
		out.push((j(sec, no_min, hour), vec![&["record"], &["type J"], &["minute"]], "a type J time of no minute"));
		out.push((j(sec, min, no_hour), vec![&["record"], &["type J"], &["hour"]], "a type J time of no hour"));
		let (ws, wd) = (r.range(0, 53) as u8, r.byte() & 0xC0);
		let i = |s: u8, m: u8, h: u8, d: [u8; 2], w: u8| vec![0x06, 0x6D, dst.1 << 1 | s, m | dst.1 & 0x40, dst.0 | h, d[0], d[1], wd | w];
		out.push((i(no_min, min, hour, d, ws), vec![&["record"], &["type I"], &["second"]], "a type I time of no second"));
		out.push((i(sec, no_min, hour, d, ws), vec![&["record"], &["type I"], &["minute"]], "a type I time of no minute"));
		out.push((i(sec, min, no_hour, d, ws), vec![&["record"], &["type I"], &["hour"]], "a type I time of no hour"));
		out.push((i(sec, min, hour, no_month, ws), vec![&["record"], &["type I"], &["month"]], "a type I date of no month"));
		out.push((i(sec, min, hour, no_year, ws), vec![&["record"], &["type I"], &["year"]], "a type I date of no year"));
		out.push((i(sec, min, hour, d, r.range(54, 63) as u8), vec![&["record"], &["type I"], &["week"]], "a type I date of no week"));
		let (sd, ed, sm, em) = (r.range(1, 31) as u8, r.range(1, 31) as u8, r.range(1, 12) as u8, r.range(1, 12) as u8);
		let no_em = [0, 13, 14, 15][r.below(4)];
		let top = (r.byte() & 0x80, r.byte() & 0xE0);
		let k = |h: u8, sd: u8, ed: u8, em: u8, sm: u8| vec![0x04, 0xFD, 0x72, h, top.0 | sd, top.1 | ed, em << 4 | sm];
		out.push((k(no_hour, sd, ed, em, sm), vec![&["record"], &["type K"], &["hour"]], "daylight saving at no hour"));
		out.push((k(hour, 0, ed, em, sm), vec![&["record"], &["type K"], &["day"]], "daylight saving from no day"));
		out.push((k(hour, sd, 0, em, sm), vec![&["record"], &["type K"], &["day"]], "daylight saving to no day"));
		out.push((k(hour, sd, ed, no_em, sm), vec![&["record"], &["type K"], &["month"]], "daylight saving to no month"));
		out.push((k(hour, sd, ed, em, no_em), vec![&["record"], &["type K"], &["month"]], "daylight saving from no month"));
	}
	out
}

/// The siblings of a part
fn others<'a>(all: &[&'a str], but: &[&str]) -> Vec<&'a str> {
	all.iter().copied().filter(|v| !but.iter().any(|b| b.eq_ignore_ascii_case(v))).collect()
}

/// A record that has one fault, the rest of it being anything
fn faulty_record(r: &mut Rng) -> (Vec<u8>, Vec<Named<'static>>, &'static str) {
	let codes = {
		static CODES: std::sync::OnceLock<Vec<Vec<u8>>> = std::sync::OnceLock::new();
		CODES.get_or_init(gen::codes)
	};
	// Dates have faults of their own
	let head = |r: &mut Rng| loop {
		let c = r.pick(codes);
		if !matches!(c[0] & 0x7F, 0x6C | 0x6D) && !(c[0] == 0xFD && c[1] & 0x7F == 0x72) {
			break c.clone();
		}
	};
	let vib = |r: &mut Rng| {
		let h = head(r);
		let v = gen::vifes(r);
		gen::with_vifes(h, &v[..v.len().min(9)])
	};
	let difes = |r: &mut Rng, max: usize| -> Vec<u8> {
		let n = if r.one_in(2) { r.below(2) } else { r.below(max + 1) };
		r.bytes(n)
	};
	let dib = |r: &mut Rng, nibble: u8| {
		let v = difes(r, 10);
		gen::with_difes(nibble | r.byte() & 0x70, &v)
	};
	let any_dib = |r: &mut Rng| {
		let n = *r.pick(&gen::DIF_NIBBLES);
		dib(r, n)
	};
	match r.below(12) {
		0 => {
			let mut v = vec![match r.below(2) {
				0 => 0x08 | r.byte() & 0x70,
				_ => *r.pick(&[0x3F, 0x4F, 0x5F, 0x6F, 0x7F]),
			}];
			let n = r.below(8);
			v.extend(r.texture(n));
			(v, vec![&["record"], &["DIF"]], "a special DIF and anything behind it")
		}
		1 => {
			let mut v = any_dib(r);
			v.truncate(10);
			let last = v.len() - 1;
			v[last] |= 0x80;
			(v, vec![&["record"], &["DIFE"]], "a chain of DIFEs cut short")
		}
		2 => {
			let mut v = vec![dif_of(r) | 0x80];
			v.extend(r.bytes(10).iter().map(|b| b | 0x80));
			let n = r.range(1, 8);
			v.extend(r.texture(n));
			(v, vec![&["record"], &["DIFE"]], "eleven DIFEs and more")
		}
		3 => (any_dib(r), vec![&["record"], &["VIF"]], "a record that ends with its DIB"),
		4 => {
			let mut v = any_dib(r);
			v.extend_from_slice(*r.pick(&[&[0xFB][..], &[0xFD], &[0xFD, 0xFD]]));
			(v, vec![&["record"], &["VIF"]], "a code cut short")
		}
		5 => {
			let mut v = any_dib(r);
			let h = head(r);
			let n = r.range(1, 9);
			let vifes = r.bytes(n);
			let mut b = gen::with_vifes(h, &vifes);
			b.pop();
			v.extend(b);
			(v, vec![&["record"], &["VIFE"]], "a chain of VIFEs cut short")
		}
		6 => {
			let mut v = any_dib(r);
			let n = r.range(1, 60);
			let k = r.below(n);
			v.extend([*r.pick(&[0x7C, 0xFC]), n as u8]);
			v.extend((0..k).map(|_| r.range(0x20, 0x7E) as u8));
			(v, vec![&["record"], &["plain text"]], "any plain text unit cut short")
		}
		7 => {
			let nibble = *r.pick(&[1_u8, 2, 3, 4, 6, 7]);
			let size = [0, 1, 2, 3, 4, 0, 6, 8][nibble as usize];
			let mut v = dib(r, nibble);
			v.extend(vib(r));
			let n = r.below(size);
			v.extend(r.texture(n));
			(v, vec![&["record"], &["number"], WIDTHS[size]], "any integer cut short")
		}
		8 => {
			let nibble = *r.pick(&[9_u8, 10, 11, 12, 14]);
			let size = [1, 2, 3, 4, 0, 6][nibble as usize - 9];
			let mut v = dib(r, nibble);
			v.extend(vib(r));
			let n = r.below(size);
			v.extend(gen::bcd_bytes(r, n));
			(v, vec![&["record"], &["BCD"], WIDTHS[size]], "any BCD number cut short")
		}
		9 => {
			let mut v = dib(r, 5);
			v.extend(vib(r));
			let n = r.below(4);
			v.extend(r.texture(n));
			(v, vec![&["record"], &["real"]], "any real cut short")
		}
		10 => {
			let mut v = dib(r, 13);
			v.extend(vib(r));
			if !r.one_in(6) {
				v.push(loop {
					let code = r.byte() | 0xC0;
					if gen::lvar_len(code).is_none() {
						break code;
					}
				});
				let n = r.below(20);
				v.extend(r.texture(n));
			}
			(v, vec![&["record"], &["LVAR"]], "any reserved or missing length")
		}
		_ => {
			let mut v = dib(r, 13);
			v.extend(vib(r));
			let code = if r.one_in(2) { r.range(1, 0xBF) as u8 } else { 0xC0 + r.below(0x37) as u8 };
			let Some(size @ 1..) = gen::lvar_len(code) else {
				return (vec![0x0D, 0x03], vec![&["record"], &["LVAR"]], "any reserved or missing length");
			};
			v.push(code);
			let n = r.below(size).min(100);
			let (part, why): (Named, &str) = match code {
				0..=0xBF => (&["string"], "any string cut short"),
				0xC0..=0xDF => (&["BCD"], "any variable length BCD number cut short"),
				_ => (&["number"], "any variable length number cut short"),
			};
			v.extend(match code {
				0xC0..=0xDF => gen::bcd_bytes(r, n),
				_ => r.texture(n),
			});
			let mut named = vec![&["record"][..], part];
			if code >= 0xC0 && size < WIDTHS.len() {
				named.push(WIDTHS[size]);
			}
			(v, named, why)
		}
	}
}

fn dif_of(r: &mut Rng) -> u8 {
	*r.pick(&gen::DIF_NIBBLES) | r.byte() & 0x70
}

/// A message whose header has one fault, the rest of it being anything
fn faulty_header(r: &mut Rng) -> (Vec<u8>, Vec<Named<'static>>, &'static str) {
	let supported = gen::supported_cis();
	let (ci, hdr) = loop {
		let ci = *r.pick(&supported);
		let hdr = model::ci_table(ci).0;
		if hdr != Hdr::None {
			break (ci, hdr);
		}
	};
	let name: Named = match hdr {
		Hdr::Long => &["long header"],
		_ => &["short header"],
	};
	let mut h = gen::header(r, hdr);
	let at = h.len() - 4;
	let (part, why): (Named, &str) = match r.below(if hdr == Hdr::Long { 4 } else { 2 }) {
		0 => {
			let cut = r.below(h.len());
			h.truncate(cut);
			let field: Named = match cut as i32 - at as i32 {
				0 => &["access number"],
				1 => &["status"],
				2 | 3 => &["configuration"],
				-8..=-5 => &["identifier"],
				-4 | -3 => &["manufacturer"],
				-2 => &["version"],
				_ => &["device type"],
			};
			return ([&[ci][..], &h].concat(), vec![name, field], "any header cut short");
		}
		1 => {
			let (low, high) = (r.byte(), r.byte() & 0xE0);
			let mode = *r.pick(&[0_u8, 1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 15]);
			h[at + 2] = low;
			h[at + 3] = high | mode;
			if mode == 0 && low | high == 0 {
				h[at + 2] = 1 << r.below(8);
			}
			(&["configuration"], "any security mode this library does not know")
		}
		2 => {
			let i = r.below(4);
			// The first digit may be a sign
			let upper = r.one_in(2) && i != 3;
			let digit = r.range(10, 15) as u8;
			h[i] = if upper { h[i] & 0x0F | digit << 4 } else { h[i] & 0xF0 | digit };
			(&["identifier"], "any identifier that is no number")
		}
		_ => {
			let v = loop {
				let v = r.byte() as u16 | (r.byte() as u16) << 8;
				if model::manufacturer(v).is_err() {
					break v;
				}
			};
			h[4..6].copy_from_slice(&v.to_le_bytes());
			(&["manufacturer"], "any manufacturer of impossible letters")
		}
	};
	let body = gen::body(r, model::ci_table(ci).1, 200);
	([&[ci][..], &h, &body].concat(), vec![name, part], why)
}

pub fn c24(sh: &Shared) -> Totals {
	parallel(sh, 24, &|w| {
		for _ in 0..w.n(8_000, 20) {
			if w.stopped() {
				return;
			}
			let (c, a) = (gen::good_control(&mut w.r), w.r.byte());
			let s = model::short_frame(c, a);
			let other = |w: &mut W, v: u8| loop {
				let x = w.r.byte();
				if x != v {
					break x;
				}
			};
			let mut d = s.clone();
			d[3] = other(w, s[3]);
			explained_without(w, &d, SHORT, &[&["checksum"]], &others(FRAME_PARTS, &["checksum"]), "short frame with a wrong checksum");
			let mut d = s.clone();
			d[4] = other(w, 0x16);
			explained_without(w, &d, SHORT, &[&["tail"]], &others(FRAME_PARTS, &["tail"]), "short frame with a wrong stop byte");
			let mut d = s.clone();
			d[1] |= 0x80;
			d[3] = d[3].wrapping_add(0x80);
			explained_without(w, &d, SHORT, &[&["control"]], &others(FRAME_PARTS, &["control"]), "short frame with a reserved control bit");
			let cut = w.r.range(1, 4);
			let part: Named = [&["control"][..], &["address"], &["checksum"], &["tail"]][cut - 1];
			explained_without(w, &s[..cut], SHORT, &[part], &others(FRAME_PARTS, part), "short frame cut short");

			let m = loop {
				let d = gen::good_datagram(&mut w.r);
				if d.len() > 8 {
					break d[6..d.len() - 2].to_vec();
				}
			};
			let good = model::long_frame(c, a, &m);
			let n = good.len();
			let mut d = good.clone();
			d[1] = other(w, d[1]);
			explained_without(w, &d, LONG, &[&["length"]], &others(FRAME_PARTS, &["length"]), "long frame with a wrong first length");
			let mut d = good.clone();
			d[2] = other(w, d[2]);
			explained_without(w, &d, LONG, &[&["length"]], &others(FRAME_PARTS, &["length"]), "long frame with a wrong second length");
			let mut d = good.clone();
			d[3] = other(w, 0x68);
			explained_without(w, &d, LONG, &[&["marker"]], &others(FRAME_PARTS, &["marker"]), "long frame with a wrong second start byte");
			let mut d = good.clone();
			d[n - 2] = other(w, d[n - 2]);
			explained_without(w, &d, LONG, &[&["checksum"]], &others(FRAME_PARTS, &["checksum"]), "long frame with a wrong checksum");
			let mut d = good.clone();
			d[n - 1] = other(w, 0x16);
			explained_without(w, &d, LONG, &[&["tail"]], &others(FRAME_PARTS, &["tail"]), "long frame with a wrong stop byte");
			let at = w.r.range(5, n - 3);
			let mut d = good.clone();
			d[at] = other(w, d[at]);
			explained_without(w, &d, LONG, &[&["checksum"]], &others(FRAME_PARTS, &["checksum"]), "long frame with a damaged byte");
			let mut bad = other(w, 0) | 0x80;
			if w.r.one_in(2) {
				bad = *w.r.pick(&[0x42, 0x4C, 0x43, 0x02, 0x3D, 0x54, 0x5F]);
			}
			explained_without(w, &model::long_frame(bad, a, &m), LONG, &[&["control"]], &others(FRAME_PARTS, &["control"]), "long frame with a wrong control byte");
			let cut = w.r.range(1, n - 1);
			let part: Named = match cut {
				1 | 2 => &["length"],
				3 => &["marker"],
				4 => &["control"],
				5 => &["address"],
				_ if cut == n - 1 => &["tail"],
				_ if cut == n - 2 => &["checksum"],
				_ => &["data"],
			};
			explained_without(w, &good[..cut], LONG, &[part], &others(FRAME_PARTS, part), "long frame cut short");
			explained_without(w, &[0x68, cut as u8 % 2, cut as u8 % 2, 0x68, 0x16], LONG, &[&["length"]], &others(FRAME_PARTS, &["length"]), "long frame without room for a header");

			// Inside
			let r = &mut w.r;
			let long = |m: &[u8]| model::long_frame(0x08, 1, m);
			let mut jobs: Vec<(Vec<u8>, Vec<Named>, &str)> = Vec::new();
			let reserved = loop {
				let ci = r.byte();
				if model::ci_table(ci) == (Hdr::None, model::Kind::Reserved) {
					break ci;
				}
			};
			let tail = r.small(20);
			let mut m = vec![reserved];
			m.extend(r.texture(tail));
			jobs.push((m, vec![&["CI field"]], "reserved CI field"));
			let unsupported = loop {
				let ci = r.byte();
				let (hdr, kind) = model::ci_table(ci);
				if kind == model::Kind::Unsupported {
					break [&[ci][..], &gen::dull_header(hdr), &[0x01, 0x03, 0x05]].concat();
				}
			};
			jobs.push((unsupported, vec![&["CI field"]], "a CI field this library does not know"));
			let code = loop {
				let code = r.byte();
				if !matches!(code, 0..=6 | 8 | 9 | 0x11..=0x16 | 0x20..=0x22 | 0xF0..) {
					break code;
				}
			};
			for (ci, hdr) in [(0x70_u8, Hdr::None), (0x6E, Hdr::Short), (0x6F, Hdr::Long)] {
				let front = [&[ci][..], &gen::dull_header(hdr)].concat();
				let tail = if r.one_in(3) { r.below(4) } else { r.small(40) };
				let tail = r.texture(tail);
				jobs.push(([&front[..], &[code], &tail].concat(), vec![&["error code"]], "a reserved error code"));
				let special = *r.pick(&[0x0F, 0x1F, 0x2F, 0x3F, 0x4F, 0x6F, 0x7F]);
				jobs.push(([&front[..], &[0xF0, special], &tail].concat(), vec![&["DIF"]], "an error record with a special DIF"));
				jobs.push(([&front[..], &[0xF0, 0x01]].concat(), vec![&["VIF"]], "an error record without VIF"));
			}
			for (ci, hdr, at) in [(0x72_u8, Hdr::Long, 8), (0x7A, Hdr::Short, 0)] {
				let name: Named = match hdr {
					Hdr::Long => &["long header"],
					_ => &["short header"],
				};
				let h = gen::dull_header(hdr);
				let mut x = h.clone();
				x[at + 3] = 1 + r.below(30) as u8;
				let m = [&[ci][..], &x, &[0x01, 0x03, 0x05]].concat();
				jobs.push((m, vec![name, &["configuration"]], "a security mode this library does not know"));
				// Cut short
				let cut = r.below(h.len());
				let field: Named = match cut as i32 - at as i32 {
					0 => &["access number"],
					1 => &["status"],
					2 | 3 => &["configuration"],
					-8..=-5 => &["identifier"],
					-4 | -3 => &["manufacturer"],
					-2 => &["version"],
					_ => &["device type"],
				};
				let m = [&[ci][..], &h[..cut]].concat();
				jobs.push((m, vec![name, field], "header cut short"));
			}
			let mut h = gen::dull_header(Hdr::Long);
			h[r.below(3)] = 0x1A + (r.below(6) as u8);
			jobs.push((
				[&[0x72][..], &h, &[0x01, 0x03, 0x05]].concat(),
				vec![&["long header"], &["identifier"]],
				"an identifier that is no number",
			));
			let mut h = gen::dull_header(Hdr::Long);
			h[4] = 0;
			h[5] = r.below(4) as u8;
			jobs.push((
				[&[0x72][..], &h].concat(),
				vec![&["long header"], &["manufacturer"]],
				"a manufacturer of impossible letters",
			));
			// A bad record after a few good ones
			let mut frame = vec![0x7A, 0x01, 0x00, 0x00, 0x00];
			if r.one_in(2) {
				for _ in 0..r.below(4) {
					frame.extend(Rec::random(r).dull_dib().dull_vib().dull_data().bytes());
				}
			} else {
				// Any good ones
				frame.extend(gen::frame_of(r, 4));
			}
			let before = frame.clone();
			let difs = [0x3F, 0x4F, 0x5F, 0x6F, 0x7F, 0x1D + 0x20 + 2];
			let bads: Vec<(Vec<u8>, Vec<Named>, &str)> = vec![
				(vec![difs[r.below(5)], 0x03, 0x05], vec![&["record"], &["DIF"]], "a special DIF"),
				(
					[&[0x81][..], &[0x80; 10], &[0x00, 0x03, 0x05]].concat(),
					vec![&["record"], &["DIFE"]],
					"11 DIFEs",
				),
				(vec![0x81], vec![&["record"], &["DIFE"]], "a missing DIFE"),
				(vec![0x01], vec![&["record"], &["VIF"]], "a missing VIF"),
				(vec![0x01, 0xFB], vec![&["record"], &["VIF"]], "a missing VIF extension"),
				(vec![0x01, 0x83], vec![&["record"], &["VIFE"]], "a missing VIFE"),
				(vec![0x01, 0x7C, 0x03, b'a'], vec![&["record"], &["plain text"]], "a plain text unit cut short"),
				(
					vec![0x01, 0x7C, 0x02, 0xC3, 0x28, 0x05],
					vec![&["record"], &["plain text"]],
					"a plain text unit that is no text",
				),
				(vec![0x04, 0x6D, 0x80, 0x0A, 0x21, 0x13], vec![&["record"], &["Type F"]], "a type F date marked invalid"),
				(vec![0x04, 0x6D, 0x3C, 0x0A, 0x21, 0x13], vec![&["record"], &["Type F"], &["minute"]], "60 minutes"),
				(vec![0x04, 0x6D, 0x15, 0x18, 0x21, 0x13], vec![&["record"], &["Type F"], &["hour"]], "24 hours"),
				(vec![0x02, 0x6C, 0x21, 0x1D], vec![&["record"], &["Type G"], &["month"]], "the 13th month"),
				(vec![0x03, 0x6D, 0x3C, 0x00, 0x00], vec![&["record"], &["Type J"], &["second"]], "60 seconds"),
				(
					vec![0x06, 0x6D, 0x05, 0x15, 0x1F, 0x21, 0x13, 0x03],
					vec![&["record"], &["Type I"], &["hour"]],
					"a type I time of 31 hours",
				),
				(
					vec![0x04, 0xFD, 0x72, 0x1F, 0x03, 0x04, 0xA3],
					vec![&["record"], &["Type K"], &["hour"]],
					"daylight savings at 31",
				),
				(vec![0x0D, 0x03, 0xD5, 0x01], vec![&["record"], &["BCD"]], "a number without its bytes"),
				(vec![0x0D, 0x03, 0x05, 0x41], vec![&["record"], &["string"]], "a string cut short"),
				(vec![0x04, 0x03, 0x01, 0x02], vec![&["record"], &["number"]], "an integer cut short"),
				(vec![0x0C, 0x03, 0x01, 0x02], vec![&["record"], &["BCD"]], "a BCD number cut short"),
			];
			let mut bads = bads;
			bads.extend(faulty_dates(&mut w.r));
			let r = &mut w.r;
			let codes = [0xCA, 0xCF, 0xDA, 0xDF, 0xF7, 0xFA, 0xFF];
			let code = codes[r.below(codes.len())];
			let many = r.texture(12);
			bads.push(([&[0x0D, 0x03, code][..], &many].concat(), vec![&["record"], &["LVAR"]], "a reserved length"));
			bads.push((vec![0x0D, 0x03], vec![&["record"], &["LVAR"]], "a missing length"));
			bads.push((vec![0x05, 0x03, 1, 2, 3], vec![&["record"], &["real"]], "a real cut short"));
			bads.push((vec![0x0D, 0x03, 0xC4, 1, 2, 3], vec![&["record"], &["BCD"]], "a variable length BCD number cut short"));
			bads.push((vec![0x0D, 0x03, 0xC2, 0x1A, 2], vec![&["record"], &["BCD"]], "variable length BCD digits that are none"));
			bads.push((vec![0x0D, 0x03, 0xE4, 1, 2, 3], vec![&["record"], &["number"]], "a variable length integer cut short"));
			bads.push((vec![0x01, 0xFD, 0xFD], vec![&["record"], &["VIF"]], "a missing second VIF extension"));
			bads.push((vec![0x01, 0xFD, 0x7D, 0x05], vec![&["record"], &["VIF", "VIFE"]], "a second VIF extension that is not there"));
			bads.push((vec![0x01, 0xFD, 0x88], vec![&["record"], &["VIFE"]], "a missing VIFE behind a VIF extension"));
			bads.push((vec![0x01, 0x7C], vec![&["record"], &["plain text"]], "a plain text unit without its length"));
			bads.push((vec![0x01, 0xFC, 0x01, b'a'], vec![&["record"], &["VIFE"]], "a missing VIFE behind a plain text unit"));
			bads.push((vec![0x08, 0x03, 0x05], vec![&["record"], &["DIF"]], "a selection for readout"));
			for (b, named, why) in bads {
				let mut m = before.clone();
				m.extend(b);
				jobs.push((m, named, why));
			}
			// Any fault in any record, behind any header and any records, or in an
			// error message
			for _ in 0..14 {
				let (b, named, why) = faulty_record(r);
				let ci = *r.pick(&[0x72_u8, 0x78, 0x7A, 0x6E, 0x6F, 0x70]);
				let mut m = vec![ci];
				m.extend(gen::header(r, model::ci_table(ci).0));
				if model::ci_table(ci).1 == model::Kind::AppError {
					m.push(0xF0);
					m.extend(b);
					jobs.push((m, named[1..].to_vec(), why));
				} else {
					let most = if r.one_in(4) { 30 } else { 3 };
					let before = gen::frame_of(r, most);
					if m.len() + before.len() + b.len() <= 253 {
						m.extend(before);
					}
					let fillers = if r.one_in(3) { r.below(4) } else { 0 };
					m.extend(vec![0x2F; fillers]);
					m.extend(b);
					jobs.push((m, named, why));
				}
			}
			for _ in 0..5 {
				jobs.push(faulty_header(r));
			}
			for (m, named, why) in jobs {
				if m.len() <= 253 {
					// Texts and numbers have lengths of their own
					let mut sound = others(FRAME_PARTS, &["length"]);
					for parts in [HEADER_PARTS, RECORD_PARTS, DATE_PARTS] {
						for part in parts {
							// What is named, or is part of what is named, or how it is written
							let form = match *part {
								"BCD" => named.iter().any(|n| n.contains(&"identifier")),
								"string" | "VIF" => named.iter().any(|n| n.contains(&"plain text")),
								_ => false,
							};
							if !form && !named.iter().flat_map(|n| n.iter()).any(|n| mentions(n, part) || mentions(part, n)) {
								sound.push(part);
							}
						}
					}
					// Daylight saving has two of some parts
					if why.starts_with("daylight saving ") {
						if why.contains(" from no ") {
							sound.extend(["end", "ends"]);
						} else if why.contains(" to no ") {
							sound.extend(["begin", "begins", "start", "starts"]);
						}
					}
					explained_without(w, &long(&m), LONG, &named, &sound, why);
				}
			}
			// Anything else that is refused
			let mut d = gen::datagram(&mut w.r);
			if w.r.one_in(2) {
				gen::mutate(&mut w.r, &mut d);
				if w.r.one_in(2) {
					d = gen::reseal(&d).unwrap_or(d);
				}
			}
			let kind = match d.first() {
				Some(0x68) => LONG,
				Some(0x10) => SHORT,
				_ => None,
			};
			if !(d.first() == Some(&0x10) && d.len() > 5) {
				explained(w, &d, kind, &[], "a random datagram");
			}
		}
	})
}

// ------------------------------------------------------------------------ C28

/// The words of a debug text: names, numbers and quoted texts, without the
/// white space and trailing commas that only make it pretty
fn words(text: &str) -> Vec<String> {
	let mut out: Vec<String> = Vec::new();
	let mut chars = text.chars().peekable();
	while let Some(c) = chars.next() {
		if c == '"' {
			let mut v = String::from('"');
			while let Some(c) = chars.next() {
				v.push(c);
				match c {
					'\\' => v.extend(chars.next()),
					'"' => break,
					_ => (),
				}
			}
			out.push(v);
		} else if c.is_alphanumeric() || matches!(c, '_' | '-' | '+' | '.') {
			let mut v = String::from(c);
			while let Some(c) = chars.peek() {
				if !(c.is_alphanumeric() || matches!(c, '_' | '-' | '+' | '.')) {
					break;
				}
				v.extend(chars.next());
			}
			out.push(v);
		} else if !c.is_whitespace() {
			if matches!(c, ')' | ']' | '}') && out.last().map(|l| l == ",").unwrap_or(false) {
				out.pop();
			}
			out.push(c.to_string());
		}
	}
	out
}

/// What has to be found in the text that prints this
fn leaves(t: &T, out: &mut Vec<String>) {
	match t {
		T::N(v) => out.push(v.to_string()),
		T::F(bits) => out.push(format!("{:?}", f32::from_bits(*bits))),
		T::S(v) => out.push(format!("{v:?}")),
		T::B(v) => out.extend(v.iter().map(|b| b.to_string())),
		T::Bool(v) => out.push(v.to_string()),
		// (whether there is an extra header is not a field)
		T::Node(_, f) => f.iter().filter(|(k, _)| *k != "extra").for_each(|(_, v)| leaves(v, out)),
		T::List(v) => v.iter().for_each(|v| leaves(v, out)),
		T::Unit | T::OneOf(_) | T::Any => (),
	}
}

fn has_printed(t: &T) -> bool {
	match t {
		T::Node(name, f) => *name == "Printed" || f.iter().any(|(_, v)| has_printed(v)),
		T::List(v) => v.iter().any(has_printed),
		_ => false,
	}
}

fn has_nan(t: &T) -> bool {
	match t {
		T::F(b) => f32::from_bits(*b).is_nan(),
		T::Node(_, f) => f.iter().any(|(_, v)| has_nan(v)),
		T::List(v) => v.iter().any(has_nan),
		_ => false,
	}
}

/// The printed text, if this is accepted and prints
fn prints(w: &mut W, level: Level, d: &[u8]) -> Option<(T, String)> {
	w.begin(level, d);
	let o = observe(level, d);
	let tree = o.tree()?.clone();
	let (Ok(compact), Ok(pretty)) = (debug(level, d, false), debug(level, d, true)) else {
		w.violate(Some(level), &[d], "decoding works but printing panics".into());
		return None;
	};
	let a = words(&compact);
	let b = words(&pretty);
	w.count("printed values");
	w.count_n("words printed", a.len() as u64);
	if a != b {
		let at = a.iter().zip(&b).position(|(a, b)| a != b).unwrap_or(a.len().min(b.len()));
		w.violate(
			Some(level),
			&[d],
			format!("compact and pretty text differ: ...{:?} and ...{:?}", &a[at.min(a.len())..a.len().min(at + 8)], &b[at.min(b.len())..b.len().min(at + 8)]),
		);
		return None;
	}
	let mut there: HashMap<&str, i64> = HashMap::new();
	for v in &a {
		*there.entry(v).or_insert(0) += 1;
	}
	let mut wanted = Vec::new();
	// What can only be seen by printing it is no witness of what there is to print
	match judge(level, d).out {
		Out::Ok(t) if has_printed(&tree) => leaves(&t, &mut wanted),
		_ => leaves(&tree, &mut wanted),
	}
	w.count_n("fields looked for in the text", wanted.len() as u64);
	for v in &wanted {
		// Names are kept as texts in the tree
		let plain = v.trim_matches('"');
		let n = match there.get_mut(&v[..]) {
			Some(n) => n,
			None => match there.get_mut(plain) {
				Some(n) => n,
				// Names that consist of several words, like "Energy(Wh, 3)"
				None => {
					let parts = words(&v[1..v.len().max(2) - 1]);
					if v.starts_with('"') && parts.len() > 1 && a.windows(parts.len()).any(|x| x == parts) {
						continue;
					}
					w.violate(Some(level), &[d], format!("{v} was decoded but is not printed in {}", clip(&compact, 600)));
					return None;
				}
			},
		};
		*n -= 1;
		if *n < 0 {
			w.violate(Some(level), &[d], format!("{v} was decoded more often than it is printed in {}", clip(&compact, 600)));
			return None;
		}
	}
	w.evaluated(level, d, true, &|| clip(&compact, 300));
	Some((tree, compact))
}

pub fn c28(sh: &Shared) -> Totals {
	parallel(sh, 28, &|w| {
		// Values of the same kind that differ in little: equal or not?
		for _ in 0..w.n(60_000, 20) {
			if w.stopped() {
				return;
			}
			let rec = Rec::random(&mut w.r);
			let a = rec.bytes();
			let mut others: Vec<Vec<u8>> = Vec::new();
			if rec.data.len() <= 8 {
				for bit in 0..rec.data.len() * 8 {
					let mut v = a.clone();
					v[a.len() - rec.data.len() + bit / 8] ^= 1 << (bit % 8);
					others.push(v);
				}
			}
			others.push(rec.twin(&mut w.r).bytes());
			others.push(Rec::random(&mut w.r).bytes());
			for b in others {
				w.begin(Level::Record, &b);
				match compared(&a, &b) {
					Ok(None) => (),
					Ok(Some((equal, bad))) => {
						w.evaluated(Level::Record, &b, true, &|| format!("equal: {equal}"));
						w.count(if equal { "data values found equal" } else { "data values found different" });
						if let Some(bad) = bad {
							w.violate(Some(Level::Record), &[&a, &b], bad);
						}
					}
					Err(p) => w.violate(Some(Level::Record), &[&a, &b], format!("comparing panics: {p}")),
				}
			}
		}
		// Errors: the same or not? A broken input and what is broken a little otherwise
		let mut last: Vec<(Level, Vec<u8>)> = vec![];
		for _ in 0..w.n(60_000, 20) {
			if w.stopped() {
				return;
			}
			let (level, mut d) = anything(&mut w.r);
			if w.r.one_in(2) {
				let n = d.len();
				d.truncate(w.r.below(n + 1));
			}
			let mut others = vec![(level, d.clone())];
			let mut near = d.clone();
			gen::mutate(&mut w.r, &mut near);
			others.push((level, near));
			if let Some((_, shorter)) = d.split_last() {
				others.push((level, shorter.to_vec()));
			}
			others.push((*w.r.pick(&LEVELS), d.clone()));
			others.append(&mut last);
			for (l, b) in others {
				w.begin(l, &b);
				match refusals_compared((level, &d), (l, &b)) {
					Ok(None) => (),
					Ok(Some((equal, bad))) => {
						w.evaluated(l, &b, true, &|| format!("equal: {equal}"));
						w.count(if equal { "errors found equal" } else { "errors found different" });
						if let Some(bad) = bad {
							w.violate(Some(l), &[&d, &b], bad);
						}
					}
					Err(p) => w.violate(Some(l), &[&d, &b], format!("comparing errors panics: {p}")),
				}
			}
			last = vec![(level, d)];
		}
		for _ in 0..w.n(40_000, 20) {
			if w.stopped() {
				return;
			}
			let (level, d) = match w.r.below(3) {
				0 => (Level::Record, fitting(&mut w.r, Level::Record)),
				1 => (Level::Packet, gen::datagram(&mut w.r)),
				_ => anything(&mut w.r),
			};
			match copies(level, &d) {
				Ok((n, bad)) => {
					w.count_n("copies and comparisons", n);
					if let Some(b) = bad.first() {
						w.violate(Some(level), &[&d], b.clone());
					}
				}
				Err(p) => w.violate(Some(level), &[&d], format!("copying or comparing panics: {p}")),
			}
			let Some((tree, text)) = prints(w, level, &d) else {
				continue;
			};
			if has_nan(&tree) {
				continue;
			}
			let sealed = level == Level::Packet;
			for v in gen::siblings(&mut w.r, &d, sealed, 6).into_iter().skip(1) {
				let Some((other, print)) = prints(w, level, &v) else {
					continue;
				};
				if has_nan(&other) {
					continue;
				}
				if other == tree {
					w.count("pairs of equal values");
					if print != text {
						w.violate(Some(level), &[&d, &v], format!("equal values print differently: {} and {}", clip(&text, 400), clip(&print, 400)));
					}
				} else {
					w.count("pairs of different values");
					if print == text {
						w.violate(Some(level), &[&d, &v], format!("different values print the same: {} and {}", clip(&tree.show(), 400), clip(&other.show(), 400)));
					}
				}
			}
		}
		for (i, (_, d)) in gen::corpus(&["test-frames", "unsupported-frames"]).into_iter().enumerate() {
			if w.mine(i) {
				prints(w, Level::Packet, &d);
			}
		}
	})
}

// ------------------------------------------------------------------------ C29

fn frame_of(w: &mut W, d: &[u8]) -> Option<(Vec<T>, T, T)> {
	w.begin(Level::Frame, d);
	let Obs::Ok { tree, .. } = observe(Level::Frame, d) else {
		return None;
	};
	take_frame(&tree)
}

fn take_frame(tree: &T) -> Option<(Vec<T>, T, T)> {
	let T::List(records) = tree.get("records")? else {
		return None;
	};
	Some((records.clone(), tree.get("more")?.clone(), tree.get("manufacturer_data")?.clone()))
}

fn list(v: &[T]) -> String {
	clip(&T::List(v.to_vec()).show(), 600)
}

/// Every kind of record right before and right after every other kind
fn neighbours(w: &mut W) {
	let heads = gen::codes();
	let types = gen::DIF_NIBBLES;
	let record = |w: &mut W, dib: Vec<u8>, vib: Vec<u8>| {
		let want = gen::want(&dib, &vib);
		let data = gen::data(&mut w.r, want);
		let rec = Rec { dib, vib, data };
		let b = rec.bytes();
		w.begin(Level::Record, &b);
		match observe(Level::Record, &b) {
			Obs::Ok { tree, consumed } if consumed == b.len() => Some((b, tree)),
			_ => {
				let b = rec.dull_data().bytes();
				match observe(Level::Record, &b) {
					Obs::Ok { tree, consumed } if consumed == b.len() => Some((b, tree)),
					_ => None,
				}
			}
		}
	};
	let together = |w: &mut W, parts: &mut Vec<(Vec<u8>, T)>| {
		let fill = w.r.one_in(4);
		let mut d = Vec::new();
		for (b, _) in parts.iter() {
			d.extend_from_slice(b);
			if fill && w.r.one_in(3) {
				d.push(0x2F);
			}
		}
		let alone: Vec<T> = parts.drain(..).map(|p| p.1).collect();
		w.count_n("neighbours", alone.len() as u64);
		match frame_of(w, &d) {
			Some((r, _, _)) if r == alone => (),
			Some((r, _, _)) => {
				let k = (0..alone.len()).find(|k| r.get(*k) != Some(&alone[*k])).unwrap_or(0);
				w.violate(Some(Level::Frame), &[&d], format!(
					"record {k} is alone {}, behind {} it is {}",
					clip(&alone[k].show(), 300),
					clip(&k.checked_sub(1).map(|k| alone[k].show()).unwrap_or_default(), 300),
					clip(&r.get(k).map(|t| t.show()).unwrap_or_default(), 300)
				));
			}
			None => w.violate(Some(Level::Frame), &[&d], format!("records that decode alone are refused together: {}", list(&alone))),
		}
		w.evaluated(Level::Frame, &d, true, &|| format!("{} neighbours", alone.len()));
	};
	// Each kind is a DIB and a VIB to be made of its number
	type Make<'a> = &'a dyn Fn(&mut W, usize) -> (Vec<u8>, Vec<u8>);
	let some_vib = |w: &mut W| {
		let head = w.r.pick(&heads).clone();
		let v = gen::vifes(&mut w.r);
		gen::with_vifes(head, &v)
	};
	let by_code = |w: &mut W, k: usize| {
		let dib = if w.r.one_in(3) { gen::dib(&mut w.r) } else { vec![*w.r.pick(&types) | w.r.byte() & 0x70] };
		let v = if w.r.one_in(4) { gen::vifes(&mut w.r) } else { vec![] };
		(dib, gen::with_vifes(heads[k].clone(), &v))
	};
	let by_dif = |w: &mut W, k: usize| {
		let dib = gen::dib_for(types[k % 14] | (k as u8 / 14 % 4) << 4, k as u64 / 56, 0, 0);
		(dib, some_vib(w))
	};
	let by_numbers = |w: &mut W, k: usize| {
		let k = k as u64;
		let dib = gen::dib_for(*w.r.pick(&types) | w.r.byte() & 0x30, k % 6, k / 6 % 5, k / 30 % 3);
		(dib, some_vib(w))
	};
	let by_vife = |w: &mut W, k: usize| {
		let head = w.r.pick(&heads).clone();
		let mut v = vec![k as u8];
		if w.r.one_in(3) {
			v.insert(0, w.r.byte() & 0x7F);
		}
		(vec![*w.r.pick(&types) | w.r.byte() & 0x70], gen::with_vifes(head, &v))
	};
	let crossings: [(usize, Make, usize, Make); 5] = [
		(heads.len(), &by_code, heads.len(), &by_code),
		(224, &by_dif, 224, &by_dif),
		(90, &by_numbers, 90, &by_numbers),
		(128, &by_vife, heads.len(), &by_code),
		(128, &by_vife, 128, &by_vife),
	];
	for _ in 0..if w.thorough() { 8 } else { 1 } {
		for (n, a, m, b) in crossings {
			for i in 0..n {
				if !w.mine(i) || w.stopped() {
					continue;
				}
				let mut order: Vec<usize> = (0..m).collect();
				shuffle(&mut w.r, &mut order);
				let mut parts = Vec::new();
				for j in order {
					for (make, k) in [(a, i), (b, j)] {
						let (dib, vib) = make(w, k);
						parts.extend(record(w, dib, vib));
					}
					if parts.len() >= 40 {
						together(w, &mut parts);
					}
				}
				if !parts.is_empty() {
					together(w, &mut parts);
				}
			}
		}
	}
	w.exhaustive("every code next to every code; every data type, function and storage number up to 3 next to every other; small storage numbers, tariffs and devices next to each other; every extension next to every code and extension");
}

pub fn c29(sh: &Shared) -> Totals {
	parallel(sh, 29, &|w| {
		neighbours(w);
		for _ in 0..w.n(320_000, 15) {
			if w.stopped() {
				return;
			}
			// Records that decode on their own, whatever to
			let kin = w.r.one_in(3).then(|| Rec::random(&mut w.r));
			let count = match w.r.below(60) {
				0 => w.r.range(8, 140),
				1 => w.r.range(8, 40),
				_ => w.r.range(1, 7),
			};
			let mut parts: Vec<(Vec<u8>, T)> = Vec::new();
			for _ in 0..count {
				let mut b = match &kin {
					Some(k) => k.twin(&mut w.r).bytes(),
					None => Rec::random(&mut w.r).bytes(),
				};
				if w.r.one_in(8) {
					gen::mutate(&mut w.r, &mut b);
				}
				if w.r.one_in(5) && !parts.is_empty() {
					// The same again, or nearly
					b = w.r.pick(&parts).0.clone();
					if w.r.one_in(2) {
						let i = w.r.below(b.len());
						b[i] ^= 1 << w.r.below(8);
					}
				}
				w.begin(Level::Record, &b);
				if let Obs::Ok { tree, consumed } = observe(Level::Record, &b) {
					if consumed > 0 && consumed <= b.len() && !matches!(b[0], 0x0F | 0x1F | 0x2F) {
						b.truncate(consumed);
						parts.push((b, tree));
					}
				}
			}
			if parts.is_empty() {
				continue;
			}
			let alone: Vec<T> = parts.iter().map(|p| p.1.clone()).collect();
			let violate = |w: &mut W, level: Level, d: &[u8], what: String| w.violate(Some(level), &[d], what);

			// Each with anything behind it
			let (b, t) = w.r.pick(&parts).clone();
			let mut d = b.clone();
			let n = w.r.small(60);
			d.extend(w.r.texture(n));
			w.begin(Level::Record, &d);
			let o = observe(Level::Record, &d);
			w.count("compositions");
			match &o {
				Obs::Ok { tree, consumed } if *tree == t && *consumed == b.len() => (),
				_ => violate(w, Level::Record, &d, format!(
					"a record is {} on its own, but followed by other bytes {}",
					clip(&t.show(), 400),
					clip(&o.show(), 400)
				)),
			}

			// One after the other, with fillers, and an end
			let mut d = Vec::new();
			for (b, _) in &parts {
				let n = gen::fillers(&mut w.r);
				d.resize(d.len() + n, 0x2F);
				d.extend_from_slice(b);
			}
			let n = gen::fillers(&mut w.r);
			d.resize(d.len() + n, 0x2F);
			let n = w.r.range(1, 30);
			let rest = w.r.texture(n);
			let (more, data) = match w.r.below(4) {
				0 => {
					d.push(0x0F);
					d.extend_from_slice(&rest);
					(false, rest)
				}
				1 => {
					d.push(0x1F);
					d.extend_from_slice(&rest);
					(true, rest)
				}
				_ => (false, vec![]),
			};
			let f = frame_of(w, &d);
			w.count("compositions");
			w.evaluated(Level::Frame, &d, true, &|| format!("{} records", alone.len()));
			match &f {
				Some((r, m, x)) => {
					if *r != alone {
						violate(w, Level::Frame, &d, format!("the records alone are {}, together {}", list(&alone), list(r)));
					} else if *m != T::Bool(more) || *x != T::B(data.clone()) {
						violate(w, Level::Frame, &d, format!(
							"the end should be more: {more} and {data:02x?}, is {} {}",
							m.show(),
							clip(&x.show(), 200)
						));
					}
				}
				None => violate(w, Level::Frame, &d, format!("records that decode alone are refused together: {}", list(&alone))),
			}
			let Some((r, m, x)) = f else { continue };

			// In any response, to anybody, from anybody
			for (ci, hdr) in [(0x72_u8, Hdr::Long), (0x78, Hdr::None), (0x7A, Hdr::Short)] {
				let mut msg = vec![ci];
				loop {
					let h = match hdr {
						Hdr::Long => gen::long_header(&mut w.r),
						Hdr::Short => gen::short_header(&mut w.r),
						Hdr::None => vec![],
					};
					// With a header it takes
					let mut probe = vec![ci];
					probe.extend_from_slice(&h);
					if observe(Level::Message, &probe).is_ok() {
						msg.extend(h);
						break;
					}
				}
				msg.extend_from_slice(&d);
				w.begin(Level::Message, &msg);
				let o = observe(Level::Message, &msg);
				w.count("compositions");
				let tree = o.tree().and_then(|t| t.get("frame")).and_then(take_frame);
				if tree.as_ref() != Some(&(r.clone(), m.clone(), x.clone())) {
					violate(w, Level::Message, &msg, format!(
						"with this header the records {} become {}",
						list(&r),
						clip(&o.show(), 800)
					));
					continue;
				}
				if msg.len() > 253 {
					continue;
				}
				let (c, a) = (gen::good_control(&mut w.r), w.r.byte());
				let g = model::long_frame(c, a, &msg);
				w.begin(Level::Packet, &g);
				let p = observe(Level::Packet, &g);
				w.count("compositions");
				if p.tree().and_then(|t| t.get("message")) != o.tree() {
					violate(w, Level::Packet, &g, format!(
						"with control {c:02x} and address {a:02x} the message {} becomes {}",
						clip(&o.show(), 400),
						clip(&p.show(), 400)
					));
				}
			}
		}
	})
}

// ------------------------------------------------------------------ commands

/// Commands for check.py beyond running a check
pub fn special(cmd: &str, args: &[String]) -> Option<i32> {
	match cmd {
		// digest SEED COUNT ORDER: a line for every input, in input order, but
		// decoded in another
		"digest" => {
			let seed: u64 = args[0].parse().ok()?;
			let count: usize = args[1].parse().ok()?;
			let order: u64 = args[2].parse().ok()?;
			let threads: usize = args.get(3).and_then(|v| v.parse().ok()).unwrap_or(0);
			let inputs = digest_inputs(seed, count);
			let mut index: Vec<usize> = (0..inputs.len()).collect();
			if order > 0 {
				shuffle(&mut Rng::new(order), &mut index);
			}
			let mut out = vec![0_u64; inputs.len()];
			// Asking for these tells what is preloaded that the decoding begins and ends
			let mark = |name: &str| drop(black_box(std::env::var_os(name)));
			if threads == 0 {
				mark("MONITOR_DECODING_BEGINS");
				mark("MONITOR_PROBE");
				for i in index {
					let (l, d) = &inputs[i];
					out[i] = fingerprint(*l, d);
				}
				mark("MONITOR_DECODING_ENDS");
			} else {
				// On threads of every kind of name and size
				let parts: Vec<&[usize]> = index.chunks(index.len().div_ceil(threads)).collect();
				let results: Vec<Vec<(usize, u64)>> = std::thread::scope(|s| {
					let inputs = &inputs;
					let running: Vec<_> = parts
						.iter()
						.enumerate()
						.map(|(k, part)| {
							let b = std::thread::Builder::new().stack_size([512 << 10, 4 << 20, 64 << 20][k % 3]);
							let b = match k % 4 {
								0 => b,
								1 => b.name("main".into()),
								2 => b.name("worker".into()),
								_ => b.name("".into()),
							};
							b.spawn_scoped(s, move || {
								part.iter().map(|&i| (i, fingerprint(inputs[i].0, &inputs[i].1))).collect()
							})
							.expect("a thread")
						})
						.collect();
					running.into_iter().map(|t| t.join().unwrap_or_default()).collect()
				});
				for (i, h) in results.into_iter().flatten() {
					out[i] = h;
				}
			}
			let mut text = String::new();
			for (h, (l, d)) in out.iter().zip(&inputs) {
				use std::fmt::Write;
				write!(text, "{h:016x} {} ", l.name()).unwrap();
				for b in d {
					write!(text, "{b:02x}").unwrap();
				}
				text.push('\n');
			}
			print!("{text}");
			Some(0)
		}
		"families" => {
			for (name, _, _) in families() {
				println!("{name}");
			}
			Some(0)
		}
		// work FAMILY SIZE: decode this once, for counting instructions
		"work" => {
			let size: usize = args[1].parse().ok()?;
			let k: usize = args[0].parse().ok()?;
			let fs = families();
			let (_, level, f) = fs.get(k)?;
			let d = f(size);
			black_box(measured(*level, &d));
			Some(0)
		}
		_ => super::special_system(cmd, args),
	}
}

/// Not inlined so that callgrind can tell it apart
#[inline(never)]
#[no_mangle]
pub fn measured(level: Level, d: &[u8]) -> bool {
	run_only(level, d)
}
