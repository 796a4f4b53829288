//! Seeded workload generators: records, frames, messages and datagrams, from
//! well formed to hostile.

use std::path::Path;
use std::sync::OnceLock;

use crate::model::{self, Hdr, Kind, Raw};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
		for _ in 0..4 {
			r.next();
		}
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	/// 0 <= x < n
	pub fn below(&mut self, n: usize) -> usize {
		((self.next() >> 11) % n as u64) as usize
	}
	/// lo <= x <= hi
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}
	pub fn one_in(&mut self, n: usize) -> bool {
		self.below(n) == 0
	}
	pub fn byte(&mut self) -> u8 {
		self.next() as u8
	}
	pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
		&v[self.below(v.len())]
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.byte()).collect()
	}
	/// Mostly small, now and then up to max
	pub fn small(&mut self, max: usize) -> usize {
		if self.one_in(24) {
			// Around a number of the source
			let v = self.dict().wrapping_add(self.range(0, 2) as u64).wrapping_sub(1);
			if v <= max as u64 {
				return v as usize;
			}
		}
		match self.below(8) {
			0 => self.range(0, max),
			1..=3 => self.range(0, max.min(12)),
			_ => self.range(0, max.min(4)),
		}
	}
	/// A byte with a taste for the edges
	pub fn edgy(&mut self) -> u8 {
		const EDGES: [u8; 28] = [
			0x00, 0x01, 0x02, 0x0F, 0x10, 0x1F, 0x20, 0x2F, 0x3F, 0x40, 0x68, 0x16, 0x7B, 0x7C,
			0x7D, 0x7E, 0x7F, 0x80, 0x99, 0x9F, 0xC0, 0xE5, 0xEF, 0xF0, 0xFB, 0xFD, 0xFE, 0xFF,
		];
		match self.below(4) {
			0 => *self.pick(&EDGES),
			_ => self.byte(),
		}
	}
	/// Bytes in one of several textures, some with a run of one byte at an end
	pub fn texture(&mut self, n: usize) -> Vec<u8> {
		let mut v = self.plain_texture(n);
		if n > 1 && self.one_in(6) {
			let run = self.range(1, 4.min(n));
			let b = self.edgy();
			if self.one_in(2) {
				v[..run].fill(b);
			} else {
				v[n - run..].fill(b);
			}
		}
		v
	}
	/// Bytes in one of several textures
	fn plain_texture(&mut self, n: usize) -> Vec<u8> {
		match self.below(13) {
			12 => {
				// A text forwards or backwards, at either end
				let mut w = self.word().to_vec();
				w.truncate(n);
				if self.one_in(2) {
					w.reverse();
				}
				let mut v = self.bytes(n);
				let at = if self.one_in(2) { 0 } else { n - w.len() };
				v[at..at + w.len()].copy_from_slice(&w);
				v
			}
			0 => vec![0; n],
			1 => vec![0xFF; n],
			2 => {
				let b = self.byte();
				vec![b; n]
			}
			3 => {
				// One odd byte out
				let base = *self.pick(&[0x00, 0xFF, 0x20, 0x55]);
				let mut v = vec![base; n];
				if n > 0 {
					let i = self.below(n);
					v[i] = self.byte();
				}
				v
			}
			4 => {
				// One bit
				let mut v = vec![0; n];
				if n > 0 {
					let i = self.below(n);
					v[i] = 1 << self.below(8);
				}
				v
			}
			5 => {
				// Around a power of two
				let bits = (8 * n).max(1).min(64);
				let k = self.below(bits);
				let d = self.range(0, 4) as u64;
				let v = (1_u64 << k).wrapping_add(d).wrapping_sub(2);
				le(v, n)
			}
			6 => {
				let v = self.dict();
				le(v, n)
			}
			7 => {
				let d = self.range(0, 4) as u64;
				let v = self.dict().wrapping_add(d).wrapping_sub(2);
				let mut b = le(v, n);
				if self.one_in(4) {
					b.reverse();
				}
				b
			}
			8 => (0..n).map(|_| self.edgy()).collect(),
			_ => self.bytes(n),
		}
	}
	/// A text that appears in the source of the code under test
	pub fn word(&mut self) -> &'static [u8] {
		let d = &dictionary().words;
		if d.is_empty() {
			b"kWh"
		} else {
			&d[self.below(d.len())]
		}
	}
	/// A number that appears in the source of the code under test
	pub fn dict(&mut self) -> u64 {
		let d = &dictionary().numbers;
		if d.is_empty() {
			self.next()
		} else {
			*self.pick(d)
		}
	}
}

pub fn le(v: u64, n: usize) -> Vec<u8> {
	let mut out = v.to_le_bytes().to_vec();
	out.resize(n, 0);
	out
}

/// What the source of the code under test is about: only a source of inputs that
/// random choice would not come upon, never of what is right
#[derive(Default)]
struct Dictionary {
	numbers: Vec<u64>,
	words: Vec<Vec<u8>>,
}

static DICT: OnceLock<Dictionary> = OnceLock::new();

fn dictionary() -> &'static Dictionary {
	DICT.get_or_init(|| {
		let mut out = Dictionary::default();
		let root = std::env::var("MONITOR_REPO").unwrap_or_else(|_| "/repo".into());
		for d in ["src", "libmbus_macros/src"] {
			scan(&Path::new(&root).join(d), &mut out);
		}
		out.numbers.sort_unstable();
		out.numbers.dedup();
		out.words.sort_unstable();
		out.words.dedup();
		out
	})
}

fn scan(dir: &Path, out: &mut Dictionary) {
	let Ok(entries) = std::fs::read_dir(dir) else {
		return;
	};
	let mut paths: Vec<_> = entries.flatten().map(|e| e.path()).collect();
	paths.sort();
	for p in paths {
		if p.is_dir() {
			scan(&p, out);
		} else if p.extension().map(|e| e == "rs").unwrap_or(false) {
			if let Ok(text) = std::fs::read_to_string(&p) {
				literals(&text, &mut out.numbers);
				words(&text, &mut out.words);
			}
		}
	}
}

fn literals(text: &str, out: &mut Vec<u64>) {
	let mut word = String::new();
	for c in text.chars().chain(" ".chars()) {
		if c.is_ascii_alphanumeric() || c == '_' {
			word.push(c);
			continue;
		}
		if word.starts_with(|c: char| c.is_ascii_digit()) {
			let mut w = word.replace('_', "");
			for t in ["usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"] {
				if w.len() > t.len() && w.ends_with(t) {
					w.truncate(w.len() - t.len());
				}
			}
			let v = if let Some(h) = w.strip_prefix("0x") {
				u64::from_str_radix(h, 16).ok()
			} else if let Some(b) = w.strip_prefix("0b") {
				u64::from_str_radix(b, 2).ok()
			} else if let Some(o) = w.strip_prefix("0o") {
				u64::from_str_radix(o, 8).ok()
			} else {
				w.parse().ok()
			};
			out.extend(v);
		}
		word.clear();
	}
}

/// The texts and characters in quotes, roughly
fn words(text: &str, out: &mut Vec<Vec<u8>>) {
	for line in text.lines() {
		for quote in ['"', '\''] {
			let parts: Vec<&str> = line.split(quote).collect();
			for part in parts.iter().skip(1).step_by(2) {
				let w = unescaped(part);
				if !w.is_empty() && w.len() <= 24 {
					out.push(w);
				}
			}
		}
	}
}

fn unescaped(text: &str) -> Vec<u8> {
	let mut out = Vec::new();
	let mut chars = text.chars();
	let mut buffer = [0; 4];
	while let Some(c) = chars.next() {
		let c = match c {
			'\\' => match chars.next() {
				Some('n') => '\n',
				Some('r') => '\r',
				Some('t') => '\t',
				Some('0') => '\0',
				Some('x') => {
					let hex: String = chars.by_ref().take(2).collect();
					out.extend(u8::from_str_radix(&hex, 16).ok());
					continue;
				}
				Some('u') => {
					let hex: String = chars.by_ref().skip(1).take_while(|c| *c != '}').collect();
					match u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
						Some(c) => c,
						None => continue,
					}
				}
				Some(c) => c,
				None => break,
			},
			c => c,
		};
		out.extend_from_slice(c.encode_utf8(&mut buffer).as_bytes());
	}
	out
}

/// A number as BCD bytes, least significant first
pub fn to_bcd(mut v: u64, n: usize) -> Vec<u8> {
	(0..n)
		.map(|_| {
			let b = (v % 10 + v / 10 % 10 * 16) as u8;
			v /= 100;
			b
		})
		.collect()
}

// --------------------------------------------------------------------- parts

/// Data types a DIF can announce
pub const DIF_NIBBLES: [u8; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14];

/// A DIF (without the extension bit) that is not one of the special codes
pub fn dif(r: &mut Rng) -> u8 {
	*r.pick(&DIF_NIBBLES) | r.byte() & 0x70
}

pub fn with_difes(dif: u8, difes: &[u8]) -> Vec<u8> {
	let mut v = vec![dif & 0x7F];
	v.extend_from_slice(difes);
	let last = v.len() - 1;
	for b in &mut v[..last] {
		*b |= 0x80;
	}
	v[last] &= 0x7F;
	v
}

/// A DIB for these numbers, with as many extension bytes as they need
pub fn dib_for(data_type: u8, mut storage: u64, mut tariff: u64, mut device: u64) -> Vec<u8> {
	let dif = data_type & 0x3F | (storage as u8 & 1) << 6;
	storage >>= 1;
	let mut difes = Vec::new();
	while (storage, tariff, device) != (0, 0, 0) && difes.len() < 10 {
		difes.push(
			(storage & 15) as u8 | ((tariff & 3) as u8) << 4 | ((device & 1) as u8) << 6,
		);
		storage >>= 4;
		tariff >>= 2;
		device >>= 1;
	}
	with_difes(dif, &difes)
}

pub fn dib(r: &mut Rng) -> Vec<u8> {
	let d = dif(r);
	if r.one_in(12) {
		// Numbers of the source
		let mut part = |odds| if r.one_in(odds) { r.dict() } else { 0 };
		let (s, t, u) = (part(2), part(2), part(4));
		return dib_for(d, s & ((1 << 41) - 1), t & 0xF_FFFF, u & 0x3FF);
	}
	let count = match r.below(16) {
		0..=5 => 0,
		6..=9 => 1,
		10..=11 => 2,
		12..=14 => r.range(3, 9),
		_ => r.range(9, 11),
	};
	let mut difes: Vec<u8> = (0..count)
		.map(|_| match r.below(4) {
			0 => 0,
			1 => 1 << r.below(7),
			_ => r.byte() & 0x7F,
		})
		.collect();
	if count > 0 && r.one_in(8) {
		difes[count - 1] = 0;
	}
	with_difes(d, &difes)
}

/// Set the extension bits of a VIB with VIFEs
pub fn with_vifes(mut head: Vec<u8>, vifes: &[u8]) -> Vec<u8> {
	// In `head` the last byte's extension bit says whether VIFEs follow, for
	// plain text that is the first byte
	let ext = if vifes.is_empty() { 0 } else { 0x80 };
	let at = if head[0] & 0x7F == 0x7C { 0 } else { head.len() - 1 };
	head[at] = head[at] & 0x7F | ext;
	for (i, v) in vifes.iter().enumerate() {
		head.push(v & 0x7F | if i + 1 < vifes.len() { 0x80 } else { 0 });
	}
	head
}

pub fn utf8(r: &mut Rng, max: usize) -> Vec<u8> {
	let mut t = String::new();
	if r.one_in(8) {
		let w = r.word();
		if w.len() <= max && std::str::from_utf8(w).is_ok() {
			let mut w = w.to_vec();
			if r.one_in(2) {
				// In the order of transmission
				w = std::str::from_utf8(&w).unwrap().chars().rev().collect::<String>().into_bytes();
			}
			return w;
		}
	}
	let len = r.small(max);
	loop {
		let c = match r.below(8) {
			0 => char::from_u32(r.range(0x80, 0x7FF) as u32),
			1 => char::from_u32(r.range(0x800, 0xFFFF) as u32),
			2 => char::from_u32(r.range(0x1_0000, 0x10_FFFF) as u32),
			3 => char::from_u32(r.range(0, 0x1F) as u32),
			_ => char::from_u32(r.range(0x20, 0x7E) as u32),
		};
		let Some(c) = c else { continue };
		if t.len() + c.len_utf8() > len {
			break;
		}
		t.push(c);
	}
	t.into_bytes()
}

/// Every code of the four tables, as it stands in a VIB
pub fn codes() -> Vec<Vec<u8>> {
	let mut heads: Vec<Vec<u8>> =
		(0..0x80_u8).filter(|v| !matches!(v, 0x7B..=0x7D)).map(|v| vec![v]).collect();
	for v in 0..0x80_u8 {
		heads.push(vec![0xFB, v]);
		if v != 0x7D {
			heads.push(vec![0xFD, v]);
		}
		heads.push(vec![0xFD, 0xFD, v]);
	}
	heads.push(vec![0x7C, 0x02, b'h', b'm']);
	heads
}

/// The code part of a VIB, to be passed to with_vifes
pub fn vib_head(r: &mut Rng) -> Vec<u8> {
	match r.below(12) {
		0..=4 => vec![r.below(0x7B) as u8],
		5..=6 => vec![0xFD, loop {
			let v = r.byte() & 0x7F;
			if v != 0x7D {
				break v;
			}
		}],
		7 => vec![0xFB, r.byte() & 0x7F],
		8 => vec![0xFD, 0xFD, r.byte() & 0x7F],
		9 => {
			let max = if r.one_in(6) { 255 } else { 40 };
			let t = utf8(r, max);
			let mut v = vec![0x7C, t.len() as u8];
			v.extend(t);
			v
		}
		10 => vec![*r.pick(&[0x7E, 0x7F])],
		_ => vec![*r.pick(&[0x6C, 0x6D])],
	}
}

pub fn vifes(r: &mut Rng) -> Vec<u8> {
	let count = match r.below(8) {
		0..=4 => 0,
		5 => 1,
		6 => r.range(1, 4),
		_ => r.range(4, 10),
	};
	(0..count).map(|_| r.byte() & 0x7F).collect()
}

pub fn vib(r: &mut Rng) -> Vec<u8> {
	let h = vib_head(r);
	let v = vifes(r);
	with_vifes(h, &v)
}

pub fn bcd_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
	let mut v: Vec<u8> = match r.below(7) {
		6 => {
			let d = r.dict();
			to_bcd(d, n)
		}
		0 => vec![0x99; n],
		1 => vec![0; n],
		2 => {
			let mut v = vec![0; n];
			if n > 0 {
				let i = r.below(n);
				v[i] = 1 + r.below(9) as u8;
				if r.one_in(2) {
					v[i] <<= 4;
				}
			}
			v
		}
		_ => (0..n)
			.map(|_| (r.below(10) * 16 + r.below(10)) as u8)
			.collect(),
	};
	if n > 0 && r.one_in(4) {
		v[n - 1] |= 0xF0;
	}
	v
}

/// BCD with a digit or two that is none
pub fn broken_bcd(r: &mut Rng, n: usize) -> Vec<u8> {
	let mut v = bcd_bytes(r, n);
	if n > 0 {
		for _ in 0..r.range(1, 3) {
			let i = r.below(n);
			let nib = 10 + r.below(6) as u8;
			if r.one_in(2) {
				v[i] = v[i] & 0x0F | nib << 4;
			} else {
				v[i] = v[i] & 0xF0 | nib;
			}
		}
	}
	v
}

fn minute(r: &mut Rng) -> u8 {
	match r.below(6) {
		0 => 63,
		1 => 59,
		_ => r.below(60) as u8,
	}
}

fn hour(r: &mut Rng) -> u8 {
	match r.below(6) {
		0 => 31,
		1 => 23,
		_ => r.below(24) as u8,
	}
}

fn dmy(r: &mut Rng) -> [u8; 2] {
	let day = r.below(32) as u8;
	let month = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 15]);
	let year = match r.below(8) {
		0 => 127,
		1 => 99,
		2 => r.range(79, 82) as u8,
		_ => r.below(100) as u8,
	};
	let v = [day | (year & 7) << 5, month | (year >> 3) << 4];
	if v == [0xFF, 0xFF] {
		[0x21, 0x21]
	} else {
		v
	}
}

pub fn date_f(r: &mut Rng) -> Vec<u8> {
	let d = dmy(r);
	vec![minute(r), hour(r) | r.byte() & 0xE0, d[0], d[1]]
}

pub fn date_g(r: &mut Rng) -> Vec<u8> {
	dmy(r).to_vec()
}

pub fn date_i(r: &mut Rng) -> Vec<u8> {
	let d = dmy(r);
	vec![
		minute(r) | r.byte() & 0xC0,
		minute(r) | r.byte() & 0x40,
		hour(r) | r.byte() & 0xE0,
		d[0],
		d[1],
		r.below(54) as u8 | r.byte() & 0xC0,
	]
}

pub fn time_j(r: &mut Rng) -> Vec<u8> {
	vec![minute(r), minute(r), hour(r)]
}

pub fn dst_k(r: &mut Rng) -> Vec<u8> {
	let local = if r.one_in(4) { 31 } else { r.below(24) as u8 };
	vec![
		hour(r) | (local & 7) << 5,
		r.range(1, 31) as u8 | (local >> 3) << 5 | r.byte() & 0x80,
		r.range(1, 31) as u8 | r.byte() & 0xE0,
		r.range(1, 12) as u8 | (r.range(1, 12) as u8) << 4,
	]
}

pub fn lvar(r: &mut Rng) -> Vec<u8> {
	match r.below(10) {
		0..=3 => {
			let n = r.small(0xBF);
			let mut v = vec![n as u8];
			if r.one_in(2) {
				v.extend((0..n).map(|_| r.range(0x20, 0x7E) as u8));
			} else {
				v.extend(r.texture(n));
			}
			v
		}
		4 => {
			let n = r.range(0, 9);
			let mut v = vec![0xC0 + n as u8];
			let mut b = bcd_bytes(r, n);
			if n > 0 && b[n - 1] >> 4 == 15 {
				b[n - 1] &= 0x0F;
			}
			v.extend(b);
			v
		}
		5 => {
			let n = r.range(0, 9);
			let mut v = vec![0xD0 + n as u8];
			let mut b = bcd_bytes(r, n);
			if n > 0 && b[n - 1] >> 4 == 15 {
				b[n - 1] &= 0x0F;
			}
			v.extend(b);
			v
		}
		6..=7 => {
			let n = r.range(0, 8);
			let mut v = vec![0xE0 + n as u8];
			v.extend(r.texture(n));
			v
		}
		_ => {
			let code = r.range(0xE9, 0xF6);
			let n = lvar_len(code as u8).unwrap();
			let mut v = vec![code as u8];
			v.extend(r.texture(n));
			v
		}
	}
}

pub fn lvar_len(code: u8) -> Option<usize> {
	let c = code as usize;
	Some(match code {
		0x00..=0xBF => c,
		0xC0..=0xC9 | 0xD0..=0xD9 => c & 15,
		0xE0..=0xEF => c - 0xE0,
		0xF0..=0xF4 => 4 * (c - 0xEC),
		0xF5 => 48,
		0xF6 => 64,
		_ => return None,
	})
}

/// What kind of data a DIB and VIB ask for
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Want {
	F,
	G,
	I,
	J,
	K,
	Raw(Raw),
}

pub fn want(dib: &[u8], vib: &[u8]) -> Want {
	let raw = model::raw_type(dib[0]).unwrap_or(Raw::None);
	let first = vib[0] & 0x7F;
	let k = vib[0] == 0xFD && vib.len() > 1 && vib[1] & 0x7F == 0x72;
	match (first, raw) {
		(0x6C, Raw::Binary(2)) => Want::G,
		(0x6D, Raw::Binary(3)) => Want::J,
		(0x6D, Raw::Binary(4)) => Want::F,
		(0x6D, Raw::Binary(6)) => Want::I,
		(_, Raw::Binary(4)) if k => Want::K,
		_ => Want::Raw(raw),
	}
}

/// Data that is right for the header
pub fn data(r: &mut Rng, w: Want) -> Vec<u8> {
	match w {
		Want::F => date_f(r),
		Want::G => date_g(r),
		Want::I => date_i(r),
		Want::J => time_j(r),
		Want::K => dst_k(r),
		Want::Raw(Raw::None) => vec![],
		Want::Raw(Raw::Binary(n)) => r.texture(n),
		Want::Raw(Raw::Real) => r.texture(4),
		Want::Raw(Raw::Bcd(n)) => match r.below(4) {
			0 => broken_bcd(r, n),
			1 => r.texture(n),
			_ => bcd_bytes(r, n),
		},
		Want::Raw(Raw::Lvar) => lvar(r),
	}
}

/// Plain data that any decoder gets right
pub fn dull_data(w: Want) -> Vec<u8> {
	match w {
		Want::F => vec![0x15, 0x0A, 0x21, 0x13],
		Want::G => vec![0x21, 0x13],
		Want::I => vec![0x05, 0x15, 0x2A, 0x21, 0x13, 0x03],
		Want::J => vec![0x05, 0x15, 0x0A],
		Want::K => vec![0x02, 0x03, 0x04, 0xA3],
		Want::Raw(Raw::None) => vec![],
		Want::Raw(Raw::Binary(n)) => {
			let mut v = vec![0x21; n];
			v[n - 1] = 0x03;
			v
		}
		Want::Raw(Raw::Real) => vec![0x00, 0x00, 0xC0, 0x3F],
		Want::Raw(Raw::Bcd(n)) => {
			let mut v = vec![0x21; n];
			v[n - 1] = 0x03;
			v
		}
		Want::Raw(Raw::Lvar) => vec![0x02, b'o', b'k'],
	}
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
	pub dib: Vec<u8>,
	pub vib: Vec<u8>,
	pub data: Vec<u8>,
}

impl Rec {
	pub fn bytes(&self) -> Vec<u8> {
		let mut v = self.dib.clone();
		v.extend_from_slice(&self.vib);
		v.extend_from_slice(&self.data);
		v
	}
	pub fn random(r: &mut Rng) -> Rec {
		let dib = dib(r);
		let vib = vib(r);
		let data = data(r, want(&dib, &vib));
		Rec { dib, vib, data }
	}
	/// The same quantity and type with other data
	pub fn twin(&self, r: &mut Rng) -> Rec {
		Rec {
			data: data(r, want(&self.dib, &self.vib)),
			..self.clone()
		}
	}
	/// With the DIB replaced by a plain one of the same data type
	pub fn dull_dib(&self) -> Rec {
		Rec {
			dib: vec![self.dib[0] & 0x0F],
			..self.clone()
		}
	}
	/// With a plain VIB
	pub fn dull_vib(&self) -> Rec {
		let vib = match want(&self.dib, &self.vib) {
			Want::Raw(_) => vec![0x03],
			Want::G => vec![0x6C],
			Want::K => vec![0xFD, 0x72],
			_ => vec![0x6D],
		};
		Rec {
			vib,
			..self.clone()
		}
	}
	pub fn dull_data(&self) -> Rec {
		Rec {
			data: dull_data(want(&self.dib, &self.vib)),
			..self.clone()
		}
	}
}

/// How many fillers: mostly none or few, now and then any number
pub fn fillers(r: &mut Rng) -> usize {
	match r.below(16) {
		0..=9 => 0,
		10..=12 => r.range(1, 4),
		13 => r.range(1, 70),
		14 => (1 << r.below(8)) + r.below(3) - 1,
		_ => r.range(1, 280),
	}
}

/// Records as meters send them: a few quantities over and over, from one to the
/// next some number one further
pub fn series(r: &mut Rng, count: usize) -> Vec<Rec> {
	let group: Vec<Rec> = (0..1 + r.below(3) * r.below(2)).map(|_| Rec::random(r)).collect();
	// Up, down, back and forth, or the same each time
	let step = *r.pick(&[1_i64, 1, 1, -1, -1, 2, 0, 10]);
	let wave = r.one_in(8);
	let what = r.below(8);
	let counts = what >= 5 || r.one_in(3);
	let small = |r: &mut Rng| match r.below(4) {
		0 => r.below(3) as i64,
		1 => r.below(20) as i64,
		2 => 1_i64 << r.below(12),
		_ => 0,
	};
	let (storage, tariff, device) = (small(r), small(r), small(r));
	let first = r.dict() as i64 >> r.below(40);
	let dig = r.below(7);
	(0..count)
		.map(|i| {
			let (round, at) = ((i / group.len()) as i64, i % group.len());
			let by = step * if wave { round % 2 } else { round };
			let mut rec = group[at].clone();
			let part = |start: i64, this: bool, bits: u32| (start + if this { by } else { 0 }).rem_euclid(1 << bits) as u64;
			if what < 6 {
				rec.dib = dib_for(
					rec.dib[0] & 0x3F,
					part(storage, what < 3, 41),
					part(tariff, what == 3, 20),
					part(device, what == 4, 10),
				);
			}
			if what == 6 && rec.dib[0] & 0x80 == 0 {
				rec.dib[0] ^= 0x40 * (by & 1) as u8;
			}
			if what == 7 && rec.vib[0] & 0x7F < 0x70 {
				// Another digit of the same quantity
				rec.vib[0] = rec.vib[0] & 0x78 | (dig as i64 + by).rem_euclid(8) as u8;
				rec.data = dull_data(want(&rec.dib, &rec.vib));
			}
			if counts {
				let v = first.wrapping_add(by);
				match want(&rec.dib, &rec.vib) {
					Want::Raw(Raw::Binary(n)) => rec.data = v.to_le_bytes()[..n].to_vec(),
					Want::Raw(Raw::Bcd(n)) => rec.data = to_bcd(v.unsigned_abs(), n),
					_ => (),
				}
			}
			rec
		})
		.collect()
}

/// Frame data: records, fillers, an end
pub fn frame(r: &mut Rng, max_records: usize) -> (Vec<u8>, Vec<Rec>) {
	let count = r.range(0, max_records);
	let mut recs = Vec::new();
	let mut v = Vec::new();
	let all = if r.one_in(6) {
		series(r, count)
	} else {
		(0..count).map(|_| Rec::random(r)).collect()
	};
	let idle = all.len() == count && r.one_in(2) || !r.one_in(3);
	for rec in all {
		while idle && r.one_in(6) {
			v.push(0x2F);
		}
		v.extend(rec.bytes());
		recs.push(rec);
	}
	while r.one_in(6) {
		v.push(0x2F);
	}
	match r.below(6) {
		0 => {
			v.push(0x0F);
			let n = r.range(1, 24);
			v.extend(r.texture(n));
		}
		1 => {
			v.push(0x1F);
			let n = r.small(24);
			v.extend(r.texture(n));
		}
		_ => (),
	}
	(v, recs)
}

/// Whole records and fillers only, so that more can follow
pub fn frame_of(r: &mut Rng, max_records: usize) -> Vec<u8> {
	let mut v = Vec::new();
	let count = r.range(0, max_records);
	let all = if r.one_in(6) {
		series(r, count)
	} else {
		(0..count).map(|_| Rec::random(r)).collect()
	};
	for rec in all {
		let rec = rec.bytes();
		// Random contents may make an unexpected record: only what stands alone
		if let (model::Out::Ok(_), used, _) = model::record(&rec) {
			if used == rec.len() {
				v.extend(rec);
			}
		}
	}
	v
}

// ------------------------------------------------------------------ messages

pub fn identifier(r: &mut Rng) -> Vec<u8> {
	match r.below(6) {
		5 => {
			let d = r.dict();
			to_bcd(d, 4)
		}
		0 => vec![0; 4],
		1 => vec![0x99; 4],
		2 => {
			let mut v = vec![0; 4];
			let d = (1 + r.below(9)) as u8;
			v[r.below(4)] = if r.one_in(2) { d << 4 } else { d };
			v
		}
		_ => (0..4)
			.map(|_| (r.below(10) * 16 + r.below(10)) as u8)
			.collect(),
	}
}

pub fn maker(r: &mut Rng) -> u16 {
	if r.one_in(2) {
		let row = r.pick(model::DEVICE_NAMES);
		model::manufacturer_code(row.0)
	} else {
		let mut v = 0;
		for _ in 0..3 {
			v = v * 32 + r.range(1, 26) as u16;
		}
		v
	}
}

pub fn config(r: &mut Rng) -> u16 {
	if r.one_in(3) {
		let mode = *r.pick(&[6_u16, 11, 12, 14, 16, 17, 20, 24, 28, 30, 31]);
		r.byte() as u16 | mode << 8 | (r.below(8) as u16) << 13
	} else {
		0
	}
}

pub fn short_header(r: &mut Rng) -> Vec<u8> {
	let mut v = vec![r.byte(), r.byte()];
	v.extend(config(r).to_le_bytes());
	if r.one_in(16) {
		alike(r, &mut v);
	}
	v
}

/// Makes two bytes of a header the same, where these can be anything
pub fn alike(r: &mut Rng, header: &mut [u8]) {
	let sets: &[&[usize]] = match header.len() {
		12 => &[&[0, 1, 2, 3], &[6, 7, 8, 9], &[0, 1, 2, 3, 6, 7, 8, 9], &[4, 6, 7, 8, 9], &[5, 6, 7, 8, 9]],
		4 => &[&[0, 1], &[0, 1, 2], &[0, 1, 3]],
		_ => return,
	};
	let set = *r.pick(sets);
	let (i, j) = (*r.pick(set), *r.pick(set));
	let (from, to) = (i.min(j), i.max(j));
	if header.len() == 4 {
		// The access number takes the value
		header[from] = header[to];
	} else {
		header[to] = header[from];
	}
}

pub fn long_header(r: &mut Rng) -> Vec<u8> {
	let mut v = identifier(r);
	let m = maker(r);
	v.extend(m.to_le_bytes());
	v.push(r.edgy());
	v.push(if r.one_in(2) { r.below(0x40) as u8 } else { r.byte() });
	if r.one_in(3) {
		// A product that has a name, or nearly
		let row = *r.pick(model::DEVICE_NAMES);
		v[4..6].copy_from_slice(&model::manufacturer_code(row.0).to_le_bytes());
		v[6] = r.range(row.1 as usize, row.2 as usize) as u8;
		if model::VERSION_IN_ID.contains(&row.0) && r.one_in(2) {
			v[3] = v[6];
		}
		if let (Some(t), false) = (row.3, r.one_in(3)) {
			v[7] = t;
		}
	}
	v.extend(short_header(r));
	if r.one_in(12) {
		alike(r, &mut v);
	}
	if r.one_in(12) {
		// Fields at their ends
		if r.one_in(2) {
			v[..4].fill(*r.pick(&[0x00, 0x99, 0x11]));
		}
		if r.one_in(3) {
			v[6] = *r.pick(&[0x00, 0x01, 0x7F, 0x80, 0xFF]);
		}
		if r.one_in(3) {
			v[7] = *r.pick(&[0x00, 0x02, 0x3F, 0x40, 0xFF]);
		}
		if r.one_in(2) {
			v[8] = *r.pick(&[0x00, 0x01, 0x7F, 0x80, 0xFF]);
		}
		if r.one_in(2) {
			v[9] = *r.pick(&[0x00, 0xFF]);
		}
	}
	v
}

pub fn header(r: &mut Rng, h: Hdr) -> Vec<u8> {
	match h {
		Hdr::None => vec![],
		Hdr::Short => short_header(r),
		Hdr::Long => long_header(r),
	}
}

pub fn dull_header(h: Hdr) -> Vec<u8> {
	match h {
		Hdr::None => vec![],
		Hdr::Short => vec![0x2A, 0x00, 0x00, 0x00],
		Hdr::Long => vec![
			0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00,
		],
	}
}

pub fn supported_cis() -> Vec<u8> {
	(0..=255_u8)
		.filter(|ci| {
			!matches!(
				model::ci_table(*ci).1,
				Kind::Reserved | Kind::Unsupported
			)
		})
		.collect()
}

/// A body that suits the kind, at most `room` bytes
pub fn body(r: &mut Rng, kind: Kind, room: usize) -> Vec<u8> {
	let mut v = match kind {
		Kind::Response => {
			let max = r.range(0, 12);
			let mut total = Vec::new();
			let mut f = frame(r, max).0;
			if f.len() > room {
				f = frame(r, 2).0;
			}
			if f.len() > room {
				f = vec![0x01, 0x03, 0x05];
			}
			total.append(&mut f);
			total
		}
		Kind::AppSelect | Kind::SelectedResponse => {
			let n = match r.below(4) {
				0 if kind == Kind::AppSelect => 0,
				3 => r.range(1, 10),
				_ => 1,
			};
			(0..n)
				.map(|_| if r.one_in(3) { r.byte() | 0xF0 } else { r.byte() })
				.collect()
		}
		Kind::AppError => match r.below(4) {
			0 => vec![],
			1 => {
				let mut v = vec![0xF0];
				v.extend(Rec::random(r).bytes());
				v
			}
			2 => {
				let mut v = vec![0xF1 + r.below(15) as u8];
				let n = r.small(30);
				v.extend(r.texture(n));
				v
			}
			_ => vec![*r.pick(&[
				0, 1, 2, 3, 4, 5, 6, 8, 9, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x20, 0x21, 0x22,
			])],
		},
		Kind::Sync | Kind::Baud | Kind::SelectedRequest => vec![],
		_ => {
			let n = r.small(room);
			r.texture(n)
		}
	};
	v.truncate(room);
	v
}

pub fn message(r: &mut Rng) -> Vec<u8> {
	let ci = match r.below(4) {
		0 => *r.pick(&[0x72, 0x78, 0x7A]),
		1 => r.byte(),
		_ => *r.pick(&CIS.get_or_init(supported_cis)[..]),
	};
	message_for(r, ci)
}

static CIS: OnceLock<Vec<u8>> = OnceLock::new();

pub fn message_for(r: &mut Rng, ci: u8) -> Vec<u8> {
	let (h, k) = model::ci_table(ci);
	let mut v = vec![ci];
	v.extend(header(r, h));
	let room = 253 - v.len();
	v.extend(body(r, k, room));
	v
}

pub fn good_control(r: &mut Rng) -> u8 {
	*r.pick(&[
		0x08, 0x18, 0x28, 0x38, 0x00, 0x01, 0x09, 0x0B, 0x0E, 0x0F, 0x40, 0x41, 0x44, 0x48, 0x49,
		0x53, 0x73, 0x5A, 0x7A, 0x5B, 0x7B,
	])
}

/// A well formed datagram (its contents may still be refused)
pub fn datagram(r: &mut Rng) -> Vec<u8> {
	match r.below(12) {
		0 => vec![0xE5],
		1 => {
			let c = good_control(r);
			let a = r.byte();
			model::short_frame(c, a)
		}
		_ => {
			let c = good_control(r);
			let a = r.byte();
			let m = message(r);
			model::long_frame(c, a, &m)
		}
	}
}

/// A datagram that must be accepted
pub fn good_datagram(r: &mut Rng) -> Vec<u8> {
	loop {
		let d = datagram(r);
		if matches!(model::packet(&d).0, model::Out::Ok(_)) {
			return d;
		}
	}
}

/// Damage in one of many ways
pub fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
	for _ in 0..r.range(1, 4) {
		let n = v.len();
		match r.below(10) {
			0 if n > 0 => {
				let i = r.below(n);
				v[i] ^= 1 << r.below(8);
			}
			1 if n > 0 => {
				let i = r.below(n);
				v[i] = r.edgy();
			}
			2 if n > 0 => {
				let i = r.below(n);
				v.remove(i);
			}
			3 => {
				let i = r.range(0, n);
				let b = r.edgy();
				v.insert(i, b);
			}
			4 if n > 0 => v.truncate(r.below(n)),
			5 => {
				let k = r.small(16);
				let t = r.texture(k);
				v.extend(t);
			}
			6 if n > 2 => {
				let a = r.below(n);
				let b = r.range(a, n - 1);
				let part = v[a..=b].to_vec();
				let at = r.range(0, n);
				if n + part.len() < 2000 {
					v.splice(at..at, part);
				}
			}
			7 if n > 2 => {
				let a = r.below(n);
				let b = r.range(a, n - 1);
				v.drain(a..=b);
			}
			8 if n > 1 => {
				let a = r.below(n);
				let b = r.below(n);
				v.swap(a, b);
			}
			_ if n > 0 => {
				let i = r.below(n);
				v[i] = r.dict() as u8;
			}
			_ => v.push(r.edgy()),
		}
	}
}

/// Variants of an input that differ from it in one place each
pub fn siblings(r: &mut Rng, d: &[u8], sealed: bool, count: usize) -> Vec<Vec<u8>> {
	let mut all = vec![d.to_vec()];
	// In telegrams the header is of more interest than the rest
	let lo = if sealed && d.len() > 9 { 4 } else { 0 };
	while all.len() < count && d.len() > lo {
		let mut v = d.to_vec();
		let at = match r.below(3) {
			0 => (lo + r.below(16)).min(v.len() - 1),
			_ => r.range(lo, v.len() - 1),
		};
		match r.below(6) {
			0 => v[at] ^= 1 << r.below(8),
			1 => v[at] = v[at].wrapping_add(1),
			2 => v[at] = r.below(0x40) as u8,
			3 => v[at] = r.byte(),
			4 if at + 1 < v.len() => v.swap(at, at + 1),
			_ => v[at] = r.edgy(),
		}
		if sealed {
			v = reseal(&v).unwrap_or(v);
		}
		all.push(v);
	}
	all
}

/// Repair length, checksum and stop of a long frame (if it can be one)
pub fn reseal(v: &[u8]) -> Option<Vec<u8>> {
	if v.len() < 9 || v.len() > 261 {
		return None;
	}
	let mut out = v.to_vec();
	let n = out.len();
	out[0] = 0x68;
	out[1] = (n - 6) as u8;
	out[2] = out[1];
	out[3] = 0x68;
	out[n - 2] = model::checksum(&out[4..n - 2]);
	out[n - 1] = 0x16;
	Some(out)
}

/// Every hex file under the directory, sorted
pub fn corpus(dirs: &[&str]) -> Vec<(String, Vec<u8>)> {
	let root = std::env::var("MONITOR_REPO").unwrap_or_else(|_| "/repo".into());
	let mut out = Vec::new();
	for d in dirs {
		let dir = Path::new(&root).join("libmbus_test_data").join(d);
		let Ok(entries) = std::fs::read_dir(&dir) else {
			continue;
		};
		let mut paths: Vec<_> = entries.flatten().map(|e| e.path()).collect();
		paths.sort();
		for p in paths {
			if p.extension().map(|e| e == "hex").unwrap_or(false) {
				let text = std::fs::read_to_string(&p).unwrap_or_default();
				let bytes: Option<Vec<u8>> = text
					.split_whitespace()
					.map(|t| u8::from_str_radix(t, 16).ok())
					.collect();
				if let Some(b) = bytes {
					let name = p.file_name().unwrap().to_string_lossy().into_owned();
					out.push((format!("{d}/{name}"), b));
				}
			}
		}
	}
	out
}
