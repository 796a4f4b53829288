//! Drives the parsers of single parts on their own and compares what they do
//! with the reference model: same value, exactly their bytes, nothing cut short.

use std::path::PathBuf;

use libmbus::parse::application_layer::application::{ApplicationErrorMessage, ApplicationMessage};
use libmbus::parse::application_layer::dib::DataInfoBlock;
use libmbus::parse::application_layer::record::{parse_binary, Record};
use libmbus::parse::application_layer::vib::{dump_remaining_vifes, parse_vif_byte, ValueInfoBlock, ValueType};
use libmbus::parse::error::MBusError;
use libmbus::parse::transport_layer::header::{LongHeader, ShortHeader};
use libmbus::parse::transport_layer::manufacturer::unpack_manufacturer_code;
use libmbus::parse::types::date::{TypeFDateTime, TypeGDate, TypeIDateTime, TypeJTime, TypeKDST};
use libmbus::parse::types::number::{
	parse_bcd, parse_binary_signed, parse_binary_unsigned, parse_invalid_bcd, parse_real,
};
use libmbus::parse::types::string::{parse_latin1, parse_length_prefix_ascii};
use libmbus::parse::types::{BitsInput, DataType};
use monitor::gen::{self, Rec};
use monitor::model::{self, Hdr, Kind, Out, Sign};
use monitor::obs::{self, guarded, quiet_panics, Level};
use monitor::run::{clip, coverage_json, parallel, report, Opts, Shared, Totals, W};
use monitor::tree::{matches, n, T};
use winnow::binary::bits;
use winnow::{Bytes, Parser};

#[global_allocator]
static ALLOC: monitor::alloc::Counting = monitor::alloc::Counting;

type Res = Result<T, MBusError>;

/// What a part has to be
#[derive(Clone)]
enum Expect {
	Value(T),
	/// Or refused
	Maybe(T),
	Refused,
}

/// `d` is all of the part; `run` is given it alone, with more behind it, and
/// cut short (where that can be told)
fn part(w: &mut W, name: &str, d: &[u8], want: &Expect, prefixes: bool, run: &dyn Fn(&mut &Bytes) -> Res) {
	if w.stopped() {
		return;
	}
	let n = w.r.range(1, 9);
	let mut longer = d.to_vec();
	longer.extend(w.r.texture(n));
	let fail = |w: &mut W, d: &[u8], what: String| w.violate(None, &[d], format!("{name}: {what}"));
	let alone = [d, &longer[..]];
	for (k, input) in alone.into_iter().enumerate() {
		if k == 1 && !prefixes && matches!(want, Expect::Value(_) | Expect::Maybe(_)) {
			// These take everything there is
			continue;
		}
		w.begin(Level::Record, input);
		let mut rest = Bytes::new(input);
		let got = match guarded(|| run(&mut rest)) {
			Err(p) => return fail(w, input, format!("panicked: {p}")),
			Ok(v) => v,
		};
		let used = input.len() - rest.len();
		match (want, &got) {
			(Expect::Refused, Err(_)) => w.count("parts refused, as the model demands"),
			(Expect::Maybe(_), Err(_)) => w.count("parts refused where either is right"),
			(Expect::Refused, Ok(v)) => {
				if !(k == 1 && d.is_empty()) {
					return fail(w, input, format!("should be refused, got {}", clip(&v.show(), 300)));
				}
			}
			(Expect::Value(t), Err(e)) => {
				return fail(w, input, format!("refused with {:?}, should be {}", e.to_string(), clip(&t.show(), 300)))
			}
			(Expect::Value(t) | Expect::Maybe(t), Ok(v)) => {
				if !matches(t, v) {
					return fail(w, input, format!("should be {}, got {}", clip(&t.show(), 300), clip(&v.show(), 300)));
				}
				if used != d.len() {
					return fail(w, input, format!("used {used} bytes instead of {}", d.len()));
				}
				w.count("parts decoded, equal to the model");
				w.count(name);
			}
		}
		if k == 0 {
			w.evaluated(Level::Record, d, true, &|| {
				format!("{name}: {}", got.as_ref().map(|v| v.show()).unwrap_or_else(|e| format!("{:?}", e.to_string())))
			});
		}
	}
	if prefixes && !d.is_empty() && !std::matches!(want, Expect::Refused) {
		let cut = if w.r.one_in(2) { d.len() - 1 } else { w.r.below(d.len()) };
		let mut rest = Bytes::new(&d[..cut]);
		match guarded(|| run(&mut rest)) {
			Err(p) => fail(w, &d[..cut], format!("panicked: {p}")),
			Ok(Ok(v)) => fail(w, &d[..cut], format!("is cut short, got {}", clip(&v.show(), 300))),
			Ok(Err(_)) => w.count("parts that are cut short refused"),
		}
	}
}

fn in_bits<'a, O>(input: &mut &'a Bytes, p: impl FnMut(&mut BitsInput<'a>) -> Result<O, MBusError>) -> Result<O, MBusError> {
	bits::bits::<_, O, MBusError, MBusError, _>(p).parse_next(input)
}

fn numbers(w: &mut W) {
	let text = |v: String| T::Node("String", vec![("v", T::S(v))]);
	for _ in 0..w.n(60_000, 20) {
		// BCD
		let len = w.r.range(0, 9);
		let d = match w.r.below(4) {
			0 => w.r.bytes(len),
			1 if len > 0 => gen::broken_bcd(&mut w.r, len),
			_ => gen::bcd_bytes(&mut w.r, len),
		};
		let want = match model::bcd(&d) {
			Some(v) => Expect::Value(T::N(v)),
			None => Expect::Refused,
		};
		part(w, "parse_bcd", &d, &want, true, &|i| parse_bcd(len).parse_next(i).map(n));
		let len = if w.r.one_in(8) { w.r.range(0, 70) } else { w.r.range(0, 9) };
		let d = match w.r.below(3) {
			0 => w.r.texture(len),
			1 => gen::bcd_bytes(&mut w.r, len),
			_ => w.r.bytes(len),
		};
		let want = Expect::Value(text(model::bcd_text(&d)));
		part(w, "parse_invalid_bcd", &d, &want, true, &|i| parse_invalid_bcd(len).parse_next(i).map(text));
		// Binary
		let len = w.r.range(0, 8);
		let d = match w.r.below(3) {
			0 => gen::le(w.r.dict(), len),
			1 => w.r.texture(len),
			_ => w.r.bytes(len),
		};
		let inner = |t: T| t.get("v").cloned().unwrap_or(T::Unit);
		let want = Expect::Value(inner(model::integer(&d, Sign::Signed)));
		part(w, "parse_binary_signed", &d, &want, true, &|i| parse_binary_signed(len).parse_next(i).map(n));
		let want = Expect::Value(inner(model::integer(&d, Sign::Unsigned)));
		part(w, "parse_binary_unsigned", &d, &want, true, &|i| parse_binary_unsigned(len).parse_next(i).map(n));
		let unsigned = w.r.one_in(2);
		let want = Expect::Value(model::integer(&d, if unsigned { Sign::Unsigned } else { Sign::Signed }));
		part(w, "parse_binary", &d, &want, true, &|i| parse_binary(unsigned, len).parse_next(i).map(|v| obs::data(&v)));
		let mut d = w.r.bytes(4);
		if w.r.one_in(3) {
			d[3] |= 0x7F;
			d[2] |= 0x80;
		}
		let want = Expect::Value(T::F(u32::from_le_bytes([d[0], d[1], d[2], d[3]])));
		part(w, "parse_real", &d, &want, true, &|i| parse_real(i).map(|v| T::F(v.to_bits())));
		// Text
		let len = if w.r.one_in(8) { w.r.range(0, 600) } else { w.r.small(40) };
		let d = w.r.texture(len);
		let want = Expect::Value(model::latin1(&d));
		part(w, "parse_latin1", &d, &want, true, &|i| parse_latin1(len).parse_next(i).map(text));
		let mut raw = gen::utf8(&mut w.r, 255);
		if w.r.one_in(4) {
			let len = w.r.small(255);
			raw = w.r.texture(len);
		}
		let want = match std::str::from_utf8(&raw) {
			Ok(t) => Expect::Value(text(t.chars().rev().collect())),
			Err(_) => Expect::Refused,
		};
		let mut d = vec![raw.len() as u8];
		d.extend(raw);
		part(w, "parse_length_prefix_ascii", &d, &want, true, &|i| parse_length_prefix_ascii(i).map(text));
	}
}

/// Wider than any number of the type: refused, in debug builds by an assertion,
/// but never some other number
fn too_wide(w: &mut W) {
	for _ in 0..w.n(4_000, 10) {
		let len = w.r.range(9, 24);
		let mut d = match w.r.below(3) {
			0 => gen::bcd_bytes(&mut w.r, len),
			1 => vec![0; len],
			_ => w.r.texture(len),
		};
		if w.r.one_in(3) {
			// Would fit
			let from = w.r.range(1, 8);
			let with = *w.r.pick(&[0x00, 0x00, 0xFF, 0x99]);
			d[from..].fill(with);
		}
		let more = w.r.bytes(3);
		let input = [&d[..], &more].concat();
		w.begin(Level::Record, &input);
		let mut value = 0_i128;
		let bits = |signed: bool| {
			// What the bytes say, as far as they say something that fits
			let mut wide = [if signed && d[len - 1] & 0x80 != 0 { 0xFF } else { 0 }; 16];
			let most = len.min(16);
			wide[..most].copy_from_slice(&d[..most]);
			let over = d[most..].iter().any(|b| *b != wide[15]);
			(!over).then(|| i128::from_le_bytes(wide))
		};
		let mut digits = true;
		let minus = d[len - 1] >> 4 == 15;
		for (k, b) in d.iter().rev().enumerate() {
			let high = if k == 0 && minus { 0 } else { b >> 4 };
			digits &= high <= 9 && b & 15 <= 9;
			value = value.saturating_mul(100).saturating_add(i128::from(high) * 10 + i128::from(b & 15));
		}
		if minus {
			value = -value;
		}
		type Run<'a> = &'a dyn Fn(&mut &Bytes) -> Result<i128, MBusError>;
		let runs: [(&str, Option<i128>, usize, Run); 3] = [
			("parse_bcd", digits.then_some(value), 10, &|i| parse_bcd(len).parse_next(i).map(i128::from)),
			("parse_binary_signed", bits(true), 9, &|i| parse_binary_signed(len).parse_next(i).map(i128::from)),
			("parse_binary_unsigned", bits(false), 9, &|i| parse_binary_unsigned(len).parse_next(i).map(i128::from)),
		];
		for (name, right, from, run) in runs {
			if len < from {
				continue;
			}
			let mut rest = Bytes::new(&input[..]);
			match guarded(|| run(&mut rest)) {
				Ok(Ok(v)) if Some(v) != right || rest.len() != more.len() => {
					return w.violate(
						None,
						&[&input],
						format!("{name}: {len} bytes are too wide, but give {v} and use {} bytes", input.len() - rest.len()),
					);
				}
				_ => w.count("numbers that are too wide, never another number"),
			}
		}
		w.evaluated(Level::Record, &input, true, &|| format!("{len} bytes as a number"));
	}
}

fn result(r: Result<T, &'static str>) -> Expect {
	match r {
		Ok(t) => Expect::Value(t),
		Err(_) => Expect::Refused,
	}
}

fn dates(w: &mut W) {
	for _ in 0..w.n(80_000, 20) {
		let pick = |w: &mut W, good: fn(&mut gen::Rng) -> Vec<u8>, len: usize| {
			if w.r.one_in(4) {
				w.r.bytes(len)
			} else {
				good(&mut w.r)
			}
		};
		let d = pick(w, gen::date_f, 4);
		part(w, "TypeFDateTime", &d, &result(model::type_f(&d)), true, &|i| {
			TypeFDateTime::parse(i).map(|v| obs::data(&DataType::DateTimeF(v)))
		});
		let d = pick(w, gen::date_g, 2);
		part(w, "TypeGDate", &d, &result(model::type_g(&d)), true, &|i| {
			TypeGDate::parse(i).map(|v| obs::data(&DataType::Date(v)))
		});
		let d = pick(w, gen::date_i, 6);
		part(w, "TypeIDateTime", &d, &result(model::type_i(&d)), true, &|i| {
			TypeIDateTime::parse(i).map(|v| obs::data(&DataType::DateTimeI(v)))
		});
		let d = pick(w, gen::time_j, 3);
		part(w, "TypeJTime", &d, &result(model::type_j(&d)), true, &|i| {
			TypeJTime::parse(i).map(|v| obs::data(&DataType::Time(v)))
		});
		let d = pick(w, gen::dst_k, 4);
		part(w, "TypeKDST", &d, &result(model::type_k(&d)), true, &|i| {
			TypeKDST::parse(i).map(|v| obs::data(&DataType::DST(v)))
		});
	}
}

/// What the model makes of a record, of which only one field is of interest
fn field(d: &[u8], key: &str) -> Expect {
	let get = |t: T| t.get(key).cloned().unwrap_or(T::Any);
	match model::record(d).0 {
		Out::Ok(t) => Expect::Value(get(t)),
		Out::OkOrErr(t) => Expect::Maybe(get(t)),
		Out::Err(_) => Expect::Refused,
	}
}

fn blocks(w: &mut W) {
	for k in 0..w.n(80_000, 20) {
		let mut dib = gen::dib(&mut w.r);
		if k < 256 {
			dib = vec![k as u8];
		}
		if w.r.one_in(12) {
			// Too many
			let count = w.r.range(9, 13);
			let difes = w.r.bytes(count);
			dib = gen::with_difes(gen::dif(&mut w.r), &difes);
		}
		if dib.last().map(|v| v & 0x80 == 0).unwrap_or(false) && dib[..dib.len() - 1].iter().all(|v| v & 0x80 != 0) {
			let whole = [&dib[..], &[0x03], &gen::dull_data(gen::want(&dib, &[0x03]))].concat();
			let want = field(&whole, "dib");
			part(w, "DataInfoBlock", &dib, &want, true, &|i| in_bits(i, DataInfoBlock::parse).map(|v| obs::dib(&v)));
		}
		// The date codes depend on the data type, which is not known here
		let rec = Rec::random(&mut w.r).dull_dib();
		let vib = if w.r.one_in(3) { gen::vib(&mut w.r) } else { rec.vib.clone() };
		let whole = [&[0x00][..], &vib].concat();
		let (out, used, _) = model::record(&whole);
		if used != whole.len() && !std::matches!(out, Out::Err(_)) {
			continue;
		}
		let mut want = field(&whole, "vib");
		if let Expect::Value(t) | Expect::Maybe(t) = &mut want {
			undo_dates(t);
		}
		part(w, "ValueInfoBlock", &vib, &want, true, &|i| in_bits(i, ValueInfoBlock::parse).map(|v| obs::vib(&v)));
		// Signedness and kind by quantity
		if let Expect::Value(t) = &want {
			let name = match t.get("value_type").and_then(|v| v.get("name")) {
				Some(T::S(v)) => v.clone(),
				_ => String::new(),
			};
			if let Ok(Ok(v)) = guarded(|| in_bits(&mut Bytes::new(&vib), ValueInfoBlock::parse)) {
				quantity(w, &vib, &v.value_type, &name);
			}
		}
		// Chains of extensions
		let count = if w.r.one_in(20) { w.r.range(1, 200) } else { w.r.range(1, 12) };
		let mut chain = w.r.bytes(count);
		for (i, v) in chain.iter_mut().enumerate() {
			*v = *v & 0x7F | if i + 1 < count { 0x80 } else { 0 };
		}
		let t = T::B(chain.iter().map(|v| v & 0x7F).collect());
		let want = if count > 10 { Expect::Maybe(t) } else { Expect::Value(t) };
		part(w, "dump_remaining_vifes", &chain, &want, true, &|i| in_bits(i, dump_remaining_vifes).map(T::B));
		let b = w.r.byte();
		let want = Expect::Value(T::List(vec![T::Bool(b & 0x80 != 0), n(b & 0x7F)]));
		part(w, "parse_vif_byte", &[b], &want, true, &|i| {
			in_bits(i, parse_vif_byte).map(|(e, v)| T::List(vec![T::Bool(e), n(v)]))
		});
		// The two blocks and the data, one after the other, are the record
		let d = Rec::random(&mut w.r).bytes();
		if let Out::Ok(t) = model::record(&d).0 {
			part(w, "Record", &d, &Expect::Value(t), true, &|i| Record::parse(i).map(|v| obs::record(&v)));
		}
	}
}

/// Without a record around it, a date code is only that
fn undo_dates(t: &mut T) {
	if let T::Node("Vib", f) = t {
		if let T::Node("Code", f) = &mut f[0].1 {
			if let T::S(v) = &mut f[0].1 {
				match &v[..] {
					"Invalid(108)" => *v = "TypeGDate".into(),
					"Invalid(109)" => *v = "VariableDateTime".into(),
					"Invalid(114)" => *v = "DSTTypeK".into(),
					_ => (),
				}
			}
		}
	}
}

fn quantity(w: &mut W, vib: &[u8], v: &ValueType, name: &str) {
	if name.is_empty() {
		return;
	}
	let says = |w: &mut W, what: &str, got: bool| {
		w.violate(None, &[vib], format!("{name} {} {what}", if got { "is" } else { "is not" }));
	};
	match model::signedness(name) {
		Sign::Unsigned if !v.is_unsigned() => says(w, "unsigned", false),
		Sign::Signed if v.is_unsigned() => says(w, "unsigned", true),
		_ => (),
	}
	let d = [&[0x07][..], vib, &[1, 2, 3, 4, 5, 6, 7, 0x88]].concat();
	if let Ok(Ok(r)) = guarded(|| Record::parse(&mut Bytes::new(&d))) {
		let unsigned = match r.data {
			DataType::Unsigned(_) => Some(true),
			DataType::Signed(_) => Some(false),
			_ => None,
		};
		if unsigned.map(|u| u != v.is_unsigned()).unwrap_or(false) {
			says(w, "unsigned, but its integers decode otherwise", v.is_unsigned());
		}
		w.count("quantities compared with how their integers decode");
	}
	let boolean = std::matches!(name, "ErrorFlags" | "DigitalOutput" | "DigitalInput" | "RemoteControl");
	if boolean != v.is_boolean() {
		says(w, "boolean", !boolean);
	}
	w.count("quantities asked for their kind");
}

fn transport(w: &mut W) {
	for k in 0..w.n(40_000, 20) {
		for (hdr, ci, name) in [(Hdr::Short, 0x7A_u8, "ShortHeader"), (Hdr::Long, 0x72, "LongHeader")] {
			let mut d = gen::header(&mut w.r, hdr);
			if w.r.one_in(4) {
				let at = w.r.below(d.len());
				d[at] = w.r.byte();
			}
			let want = match model::message(&[&[ci][..], &d].concat()).0 {
				Out::Ok(t) => Expect::Value(t.get("header").cloned().unwrap_or(T::Any)),
				Out::OkOrErr(t) => Expect::Maybe(t.get("header").cloned().unwrap_or(T::Any)),
				Out::Err(_) => Expect::Refused,
			};
			part(w, name, &d, &want, true, &|i| match hdr {
				Hdr::Long => LongHeader::parse(i).map(|h| obs::header(&h)),
				_ => ShortHeader::parse(i).map(|h| obs::header(&h)),
			});
		}
		let body = gen::body(&mut w.r, Kind::AppError, 60);
		let ci = (0..=255).find(|ci| model::ci_table(*ci) == (Hdr::None, Kind::AppError)).unwrap_or(0x70);
		let out = model::message(&[&[ci][..], &body].concat()).0;
		let get = |t: T, key: &str| t.get(key).cloned().unwrap_or(T::Any);
		let want = match out {
			Out::Ok(t) => Expect::Value(get(t, "error")),
			Out::OkOrErr(t) => Expect::Maybe(get(t, "error")),
			Out::Err(_) => Expect::Refused,
		};
		if std::matches!(want, Expect::Value(_)) {
			part(w, "ApplicationErrorMessage", &body, &want, false, &|i| {
				ApplicationErrorMessage::parse(i).map(|e| obs::app_error(&e))
			});
		}
		let body = gen::body(&mut w.r, Kind::AppSelect, 10);
		let out = model::message(&[&[0x50][..], &body].concat()).0;
		let want = match out {
			Out::Ok(t) if body.is_empty() => {
				let _ = t;
				Expect::Value(T::Unit)
			}
			Out::Ok(t) => Expect::Value(get(t, "application")),
			Out::OkOrErr(t) => Expect::Maybe(get(t, "application")),
			Out::Err(_) => Expect::Refused,
		};
		if model::ci_table(0x50) == (Hdr::None, Kind::AppSelect) && !std::matches!(want, Expect::Refused) {
			part(w, "ApplicationMessage", &body, &want, false, &|i| {
				ApplicationMessage::parse(i).map(|m| m.map(|m| obs::application(&m)).unwrap_or(T::Unit))
			});
		}
		if k < 26 * 26 * 26 / w.parts + 1 {
			let i = k * w.parts + w.part;
			let code: String = [i / 676 % 26, i / 26 % 26, i % 26].iter().map(|v| (b'A' + *v as u8) as char).collect();
			let raw = model::manufacturer_code(&code);
			match guarded(|| unpack_manufacturer_code(raw)) {
				Ok(Ok(v)) if v == code => w.count("manufacturer codes"),
				other => w.violate(None, &[&raw.to_le_bytes()], format!("manufacturer {raw:#06x} should be {code}, got {other:?}")),
			}
		}
	}
	for raw in 0..=0xFFFF_u16 {
		if w.mine(raw as usize) {
			if let Err(p) = guarded(|| format!("{:?}", unpack_manufacturer_code(raw))) {
				w.violate(None, &[&raw.to_le_bytes()], format!("manufacturer {raw:#06x}: {p}"));
			}
		}
	}
	w.exhaustive("all manufacturer codes");
}

fn c13(sh: &Shared) -> Totals {
	parallel(sh, 13, &|w| {
		numbers(w);
		too_wide(w);
		dates(w);
		blocks(w);
		transport(w);
	})
}

const FLOORS: &[(&str, u64)] = &[
	("parse_bcd", 10_000),
	("parse_invalid_bcd", 10_000),
	("parse_binary_signed", 10_000),
	("parse_binary_unsigned", 10_000),
	("parse_binary", 10_000),
	("parse_real", 10_000),
	("parse_latin1", 10_000),
	("parse_length_prefix_ascii", 10_000),
	("TypeFDateTime", 10_000),
	("TypeGDate", 10_000),
	("TypeIDateTime", 10_000),
	("TypeJTime", 10_000),
	("TypeKDST", 10_000),
	("DataInfoBlock", 10_000),
	("ValueInfoBlock", 10_000),
	("dump_remaining_vifes", 10_000),
	("parse_vif_byte", 10_000),
	("Record", 5_000),
	("ShortHeader", 10_000),
	("LongHeader", 10_000),
	("ApplicationErrorMessage", 5_000),
	("ApplicationMessage", 2_000),
	("manufacturer codes", 17_000),
	("quantities asked for their kind", 5_000),
	("quantities compared with how their integers decode", 5_000),
	("parts that are cut short refused", 100_000),
	("numbers that are too wide, never another number", 10_000),
];

fn main() {
	quiet_panics();
	let args: Vec<String> = std::env::args().collect();
	let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_owned());
	let sh = Shared {
		opts: Opts {
			id: "C13".into(),
			seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
			thorough: env("VERIF_TIER", "quick") == "thorough",
			workers: env("MONITOR_WORKERS", "8").parse().unwrap_or(8),
			replays: PathBuf::from(env("MONITOR_REPLAYS", "/verif/replays")),
			scratch: PathBuf::from(env("MONITOR_SCRATCH", "/tmp")),
			trace: env("MONITOR_TRACE", "") == "1",
		},
		violations: Default::default(),
		stop: Default::default(),
	};
	let totals = c13(&sh);
	let printed = report(&sh);
	let rule = "Every published parser of a part (numbers, texts, dates, blocks, headers, application messages) on good, broken and random contents of every width, alone, with more behind it and cut short; non-trivial: all. Oracle: reference model, exact number of bytes used";
	let json = coverage_json(&totals, rule, sh.violations.lock().unwrap().len());
	match args.get(3) {
		Some(path) => std::fs::write(path, json).expect("coverage file"),
		None => println!("{json}"),
	}
	if printed > 0 {
		std::process::exit(1);
	}
	let mut missing = false;
	for (what, least) in FLOORS {
		let got = totals.counters.get(*what).copied().unwrap_or(0);
		if got < *least {
			eprintln!("INCONCLUSIVE: {what}: {got}, needed {least}");
			missing = true;
		}
	}
	if missing {
		std::process::exit(2);
	}
}
