//! The parts around the decoder: the command line tool, reading files, what
//! another implementation makes of recorded telegrams, and memory.

use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::Command;

use super::robust::{anything, families, fitting};
use crate::gen::{self, Rng};
use crate::model;
use crate::obs::{debug, observe, pretty, read_file, Level, Obs, LEVELS};
use crate::run::{clip, parallel, Shared, Totals, W};
use crate::tree::T;

/// A directory of our own that goes away again
struct Scratch(PathBuf);

impl Scratch {
	fn new(w: &W, what: &str) -> Self {
		let p = w
			.sh
			.opts
			.scratch
			.join(format!("{what}-{}-{}", std::process::id(), w.part));
		std::fs::create_dir_all(&p).expect("scratch directory");
		Self(p)
	}
	fn file(&self, name: &str, data: &[u8]) -> String {
		let p = self.0.join(name);
		if let Some(parent) = p.parent() {
			let _ = std::fs::create_dir_all(parent);
		}
		std::fs::write(&p, data).expect("scratch file");
		p.to_str().expect("utf-8 path").to_owned()
	}
}

impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

fn hex_text(r: &mut Rng, d: &[u8]) -> String {
	let upper = r.below(3);
	let mut t = String::new();
	for (i, b) in d.iter().enumerate() {
		if i > 0 {
			t.push(' ');
		}
		match upper {
			0 => t += &format!("{b:02x}"),
			1 => t += &format!("{b:02X}"),
			_ if r.one_in(2) => t += &format!("{b:02x}"),
			_ => t += &format!("{b:02X}"),
		}
	}
	t
}

// ------------------------------------------------------------------------ C26

const NAMES: [&str; 15] = [
	"a", "meter.bin", "hex", "a.hex.bin", "x.hexx", "dir.hex/frame", "frame.txt", "ünïcode", "a.HEX", "b.Hex", "xhex", "a.hex ", "a.hex~",
	"a_hex", "a.he",
];
const HEX_NAMES: [&str; 6] = ["a.hex", "a.b.hex", "with space.hex", "ünïcode.hex", "dir/a.hex", "x.bin.hex"];

pub fn c26(sh: &Shared) -> Totals {
	parallel(sh, 26, &|w| {
		let scratch = Scratch::new(w, "c26");
		let check = |w: &mut W, name: &str, content: &[u8], want: &Result<Vec<u8>, &str>| {
			let path = scratch.file(name, content);
			w.begin(Level::Packet, &content[..content.len().min(2000)]);
			let got = read_file(&path);
			let _ = std::fs::remove_file(&path);
			let clipped = &content[..content.len().min(4000)];
			w.evaluated(Level::Packet, clipped, true, &|| format!("{name}: {:?}", got.as_ref().map(|r| r.as_ref().map(|d| d.len()))));
			match (&got, want) {
				(Ok(Ok(d)), Ok(v)) if d == v => w.count("files read back"),
				(Ok(Err(_)), Err(_)) => w.count("bad files refused"),
				_ => w.violate(None, &[clipped], format!(
					"the file {name:?} {} should read as {}, is {}",
					match want { Err(why) => why, Ok(_) => "" },
					match want { Ok(v) => clip(&format!("{v:02x?}"), 300), Err(_) => "an error".into() },
					clip(&format!("{got:02x?}"), 300),
				)),
			}
		};
		// All bytes, alone and in every kind of place
		for b in 0..=255_u8 {
			if w.mine(b as usize) {
				for t in [format!("{b:02x}"), format!("{b:02X}"), format!("{b:02x}\n"), format!("{b:02x}\r\n"), format!("  {b:02X} \n\n")] {
					check(w, "a.hex", t.as_bytes(), &Ok(vec![b]));
				}
				check(w, "a.hex", format!("E5 {b:02x} 16\n").as_bytes(), &Ok(vec![0xE5, b, 0x16]));
				check(w, "a.bin", &[b], &Ok(vec![b]));
				check(w, "a.bin", &[b, b'\n'], &Ok(vec![b, b'\n']));
			}
		}
		w.exhaustive("all 256 byte values in both formats");
		for _ in 0..w.n(16_000, 20) {
			if w.stopped() {
				return;
			}
			let n = match w.r.below(30) {
				0 => 60_000,
				1 => 4_096 + w.r.below(3),
				_ => w.r.range(1, 400),
			};
			let d = w.r.texture(n);
			// Text
			let name = *w.r.pick(&HEX_NAMES);
			let text = hex_text(&mut w.r, &d);
			let before = *w.r.pick(&["", "", " ", "\n", "\t"]);
			let after = *w.r.pick(&["", "\n", "\r\n", " ", " \n", "\n\n"]);
			check(w, name, format!("{before}{text}{after}").as_bytes(), &Ok(d.clone()));
			// The same without the ending is raw, whatever is in it
			let name = *w.r.pick(&NAMES);
			match w.r.below(4) {
				0 => check(w, name, text.as_bytes(), &Ok(text.clone().into_bytes())),
				1 => {
					let mut v = b" \r\n".to_vec();
					v.extend(&d);
					v.extend(b"\n ");
					check(w, name, &v, &Ok(v.clone()));
				}
				2 if w.r.one_in(4) => check(w, name, &[], &Ok(vec![])),
				_ => check(w, name, &d, &Ok(d.clone())),
			}
			// What is not hex
			let name = *w.r.pick(&HEX_NAMES);
			let mut parts: Vec<String> = text.split(' ').map(|v| v.to_owned()).collect();
			let at = w.r.below(parts.len());
			let junk = ["xy", "0x12", "G1", "123", "100", "-1", "1,2", "1g", "é", "..", "68h", "q", "fff", "1_0", "68,"];
			parts[at] = (*w.r.pick(&junk)).to_owned();
			let bad = parts.join(" ");
			check(w, name, bad.as_bytes(), &Err("with something that is no byte in it"));
			// Values that are not separated by one space
			if d.len() > 1 {
				let at = w.r.range(1, d.len() - 1);
				let sep = *w.r.pick(&["  ", "\t", "\n", "\r\n", ",", ", ", "\u{a0}", ":", " \n", "   ", "-", ";", "\0", "\u{2003}"]);
				let bad = format!("{}{sep}{}", hex_text(&mut w.r, &d[..at]), hex_text(&mut w.r, &d[at..]));
				check(w, name, bad.as_bytes(), &Err("with something else than one space between values"));
			}
			// Something that is neither a digit nor white space, at the ends above all
			const ODD: [&str; 34] = [
				"\u{feff}", "\u{200b}", "\u{200d}", "\u{2060}", "\u{180e}", "\u{ad}", "\0", "\u{1a}", "\u{4}", "\u{1b}",
				"\u{8}", "\u{7f}", "\u{ff11}", "\u{661}", "\u{ff21}", "\u{430}", "#", ";", ":", "\"", "'", "$", "\\x", "0x",
				"x", "h", "H", "_", "-", ".", ",", "//", "%", "\u{fffd}",
			];
			let odd = *w.r.pick(&ODD);
			let mut at = *w.r.pick(&[0, 0, text.len(), text.len(), w.r.clone().below(text.len() + 1)]);
			while !text.is_char_boundary(at) {
				at -= 1;
			}
			let (front, back) = text.split_at(at);
			let gap = if at == 0 || at == text.len() { *w.r.pick(&["", " ", "\n"]) } else { "" };
			let bad = match at {
				0 => format!("{odd}{gap}{text}"),
				_ => format!("{front}{gap}{odd}{back}"),
			};
			check(w, name, bad.as_bytes(), &Err("with a character in it that belongs to no value"));
			let mut v = text.clone().into_bytes();
			let i = w.r.below(v.len() + 1);
			v.insert(i, 0xFF);
			check(w, name, &v, &Err("with something that is no text in it"));
		}
		// Names, and ways to a file, that are not quite the usual
		let inner = scratch.0.join("plain.dir");
		std::fs::create_dir_all(inner.join("x.hex")).expect("directory");
		let here = scratch.0.to_str().expect("utf-8 path").to_owned();
		for k in 0..w.n(60, 20) {
			let n = if k % 40 == 0 { 3 << 20 } else { w.r.range(1, 3000) };
			let d = w.r.texture(n);
			let text = hex_text(&mut w.r, &d).into_bytes();
			let raw = w.r.one_in(2);
			let name = match (raw, w.r.below(4)) {
				(false, 0) => ".hex",
				(false, 1) => "plain.dir/.hex",
				(false, 2) => "plain.dir/x.hex/..hex",
				(false, _) => "-.hex",
				(true, 0) => "plain.dir/x.hex/frame",
				(true, 1) => "plain.dir/x.hex/.he",
				(true, 2) => ".hexa",
				(true, _) => ".",
			};
			let name = if name == "." { "hex." } else { name };
			// Hexadecimal text everywhere: only the name tells
			let want = if raw { text.clone() } else { d.clone() };
			let path = format!("{here}/{name}");
			w.begin(Level::Packet, &text[..text.len().min(2000)]);
			let how = w.r.below(5);
			let mut feeder = None;
			let given = match how {
				0 | 1 => {
					std::fs::write(&path, &text).expect("scratch file");
					match w.r.below(3) {
						0 => format!("{here}/./{name}"),
						1 => format!("{here}/plain.dir/../{name}"),
						_ => path.clone(),
					}
				}
				2 | 3 => {
					// What it leads to is called otherwise
					let other = scratch.file(if raw { "elsewhere.hex" } else { "elsewhere.bin" }, &text);
					let linked = match how {
						2 => std::os::unix::fs::symlink(&other, &path),
						_ => std::fs::hard_link(&other, &path),
					};
					linked.expect("link");
					path.clone()
				}
				_ => {
					// Without a size of its own, and in pieces
					let ok = Command::new("mkfifo").arg(&path).status().is_ok_and(|s| s.success());
					assert!(ok, "mkfifo");
					let (to, text, cut) = (path.clone(), text.clone(), w.r.below(text.len() + 1));
					feeder = Some(std::thread::spawn(move || {
						let mut f = std::fs::OpenOptions::new().write(true).open(to)?;
						f.write_all(&text[..cut])?;
						f.flush()?;
						std::thread::sleep(std::time::Duration::from_millis(2));
						f.write_all(&text[cut..])
					}));
					path.clone()
				}
			};
			let got = read_file(&given);
			if let Some(f) = feeder {
				// Should nobody have opened it
				use std::os::unix::fs::OpenOptionsExt;
				let drain = std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(&path);
				while !f.is_finished() {
					if let Ok(mut d) = drain.as_ref() {
						let _ = std::io::Read::read(&mut d, &mut [0; 65536]);
					}
					std::thread::sleep(std::time::Duration::from_millis(1));
				}
				drop(drain);
				let _ = f.join();
			}
			let _ = std::fs::remove_file(&path);
			let kind = ["a file", "a file", "a symbolic link", "a hard link", "a pipe"][how];
			let clipped = &text[..text.len().min(4000)];
			w.evaluated(Level::Packet, clipped, true, &|| format!("{given} is {kind}: {:?}", got.as_ref().map(|r| r.as_ref().map(|d| d.len()))));
			match &got {
				Ok(Ok(d)) if *d == want => w.count("files with odd names, links and pipes read back"),
				_ => w.violate(None, &[clipped], format!(
					"{given:?}, {kind}, should read as {}, is {}",
					clip(&format!("{want:02x?}"), 300),
					clip(&format!("{got:02x?}"), 300),
				)),
			}
		}
		// Missing files
		for name in ["nothing", "nothing.hex", "no/such/place.hex", "."] {
			let path = scratch.0.join(name);
			let got = read_file(path.to_str().expect("utf-8 path"));
			match got {
				Ok(Err(_)) => w.count("bad files refused"),
				other => w.violate(None, &[], format!("reading {name:?}, which cannot be read, gives {other:02x?}")),
			}
		}
	})
}

// ------------------------------------------------------------------------ C27

struct Known {
	name: String,
	data: Vec<u8>,
	info: Vec<(String, String)>,
	records: Vec<Vec<(String, String)>>,
}

fn unescape(v: &str) -> String {
	v.replace("&lt;", "<")
		.replace("&gt;", ">")
		.replace("&quot;", "\"")
		.replace("&apos;", "'")
		.replace("&amp;", "&")
}

/// Just enough XML for these files
fn fields(block: &str) -> Vec<(String, String)> {
	let mut v = Vec::new();
	let mut rest = block;
	while let Some(a) = rest.find('<') {
		rest = &rest[a + 1..];
		let Some(b) = rest.find('>') else { break };
		let tag = &rest[..b];
		rest = &rest[b + 1..];
		if tag.starts_with('/') || tag.contains(' ') || tag.ends_with('/') {
			continue;
		}
		if let Some(e) = rest.find(&format!("</{tag}>")) {
			v.push((tag.to_owned(), unescape(&rest[..e])));
			rest = &rest[e..];
		}
	}
	v
}

fn known() -> Vec<Known> {
	let root = std::env::var("MONITOR_REPO").unwrap_or_else(|_| "/repo".into());
	let mut out = Vec::new();
	for (name, data) in gen::corpus(&["test-frames"]) {
		let path = Path::new(&root)
			.join("libmbus_test_data")
			.join(name.replace(".hex", ".norm.xml"));
		let Ok(raw) = std::fs::read(&path) else { continue };
		// Says ISO-8859-1 and is UTF-8
		let text = String::from_utf8(raw.clone()).unwrap_or_else(|_| raw.iter().map(|b| *b as char).collect());
		let Some(a) = text.find("<SlaveInformation>") else { continue };
		let Some(b) = text.find("</SlaveInformation>") else { continue };
		out.push(Known {
			name,
			data,
			info: fields(&text[a + 18..b]),
			records: text[b..]
				.split("<DataRecord ")
				.skip(1)
				.map(|t| fields(t.split("</DataRecord>").next().unwrap_or("")))
				.collect(),
		});
	}
	out
}

fn field<'a>(v: &'a [(String, String)], key: &str) -> Option<&'a str> {
	v.iter().find(|(k, _)| k == key).map(|(_, v)| &v[..])
}

fn text(t: Option<&T>) -> &str {
	match t {
		Some(T::S(v)) => v,
		_ => "",
	}
}

fn num(t: Option<&T>) -> Option<i128> {
	match t {
		Some(T::N(v)) => Some(*v),
		_ => None,
	}
}

/// Unit, quantity and factor as rSCADA libmbus prints them
fn libmbus_unit(vib: &T) -> Option<(String, String, f64)> {
	let vt = vib.get("value_type")?;
	if let T::Node("PlainText", _) = vt {
		return Some(("-".into(), text(vt.get("text")).to_owned(), 1.0));
	}
	let name = text(vt.get("name"));
	let (head, args): (&str, Vec<&str>) = match name.split_once('(') {
		Some((h, a)) => (h, a.trim_end_matches(')').split(',').map(|v| v.trim()).collect()),
		None => (name, vec![]),
	};
	let exp = |i: usize| args.get(i).and_then(|v| v.parse::<i32>().ok()).map(|e| 10_f64.powi(e));
	let time = || {
		Some(match *args.first()? {
			"Seconds" => 1.0,
			"Minutes" => 60.0,
			"Hours" => 3600.0,
			"Days" => 86400.0,
			_ => return None,
		})
	};
	let o = |u: &str, q: &str, f: f64| Some((u.to_owned(), q.to_owned(), f));
	match head {
		"Energy" => match *args.first()? {
			"Wh" => o("Wh", "Energy", exp(1)?),
			"MWh" => o("Wh", "Energy", exp(1)? * 1e6),
			"J" => o("J", "Energy", exp(1)?),
			_ => None,
		},
		"Power" if args.first() == Some(&"W") => o("W", "Power", exp(1)?),
		"Volume" if args.first() == Some(&"M3") => o("m^3", "Volume", exp(1)?),
		"VolumeFlow" if args.first() == Some(&"Hours") => o("m^3/h", "Volume flow", exp(1)?),
		"Volts" => o("V", "Voltage", exp(0)?),
		"Amperes" => o("A", "Current", exp(0)?),
		"FlowTemperature" => o("°C", "Flow temperature", exp(0)?),
		"ReturnTemperature" => o("°C", "Return temperature", exp(0)?),
		"ExternalTemperature" => o("°C", "External temperature", exp(0)?),
		"TemperatureDifference" => o("K", "Temperature difference", exp(0)?),
		"OnTime" => o("s", "On time", time()?),
		"OperatingTime" => o("s", "Operating time", time()?),
		"AveragingDuration" => o("s", "Averaging Duration", time()?),
		"ActualityDuration" => o("s", "Actuality Duration", time()?),
		"FabricationNumber" => o("", "Fabrication No", 1.0),
		"CustomerLocation" => o("", "Customer location", 1.0),
		"DeviceType" => o("", "Medium", 1.0),
		"DigitalInput" => o("", "Digital Input", 1.0),
		"DigitalOutput" => o("", "Digital Output", 1.0),
		"Dimensionless" => o("", "Dimensionless", 1.0),
		"EnhancedIdentification" => o("", "(Enhanced) Identification", 1.0),
		"ErrorFlags" => o("", "Error flags", 1.0),
		"HCA" => o("Units for H.C.A.", "H.C.A.", 1.0),
		"ManufacturerSpecific" => o("", "Manufacturer specific", 1.0),
		"MetrologyFirmwareVersionNumber" => o("", "Firmware version", 1.0),
		"OtherSoftwareVersionNumber" => o("", "Software version", 1.0),
		"ModelVersion" => o("", "Model / Version", 1.0),
		"ParameterSetIdentification" => o("", "Parameter set identification", 1.0),
		"ResetCounter" => o("", "Reset counter", 1.0),
		"SpecialSupplierInformation" => o("", "Special supplier information", 1.0),
		"TypeFDateTime" | "TypeIDateTime" => o("-", "Time point (date & time)", 1.0),
		"TypeGDate" => o("-", "Time point (date)", 1.0),
		_ => None,
	}
}

/// Factor of the VIFEs libmbus looks at
fn libmbus_vifes(vib: &T) -> f64 {
	let mut f = 1.0;
	if let Some(T::B(v)) = vib.get("vifes") {
		for b in v {
			match b & 0x7F {
				e @ 0x70..=0x77 => f *= 10_f64.powi(e as i32 - 0x70 - 6),
				0x7D => f *= 1000.0,
				_ => (),
			}
		}
	}
	f
}

fn libmbus_record(x: &[(String, String)], rec: &T) -> Result<bool, String> {
	let (Some(function), Some(storage)) = (field(x, "Function"), field(x, "StorageNumber")) else {
		return Ok(false);
	};
	let (dib, vib, data) = (
		rec.get("dib").ok_or("no dib")?,
		rec.get("vib").ok_or("no vib")?,
		rec.get("data").ok_or("no data")?,
	);
	let f = match text(dib.get("function")) {
		"InstantaneousValue" => "Instantaneous value",
		"MaximumValue" => "Maximum value",
		"MinimumValue" => "Minimum value",
		"ValueDuringErrorState" => "Value during error state",
		other => other,
	};
	if f != function {
		return Err(format!("function is {f:?}, should be {function:?}"));
	}
	for (key, ours, must) in [("StorageNumber", "storage", Some(storage)), ("Tariff", "tariff", field(x, "Tariff")), ("Device", "device", field(x, "Device"))] {
		let got = num(dib.get(ours));
		let want = must.map(|v| v.parse::<i128>().ok()).unwrap_or(Some(0));
		if got != want {
			return Err(format!("{key} is {got:?}, should be {want:?}"));
		}
	}
	let (unit, quantity) = (field(x, "Unit").unwrap_or(""), field(x, "Quantity").unwrap_or(""));
	if unit == "Reserved" {
		let reserved = text(vib.get("value_type").and_then(|v| v.get("name"))).starts_with("Reserved");
		let value: Option<f64> = field(x, "Value").and_then(|v| v.parse().ok());
		return match num(data.get("v")) {
			Some(v) if reserved && value == Some(v as f64) => Ok(true),
			_ => Err(format!("is {} {}, should be reserved, {value:?}", vib.show(), data.show())),
		};
	}
	let Some((u, q, factor)) = libmbus_unit(vib) else {
		return Err(format!(
			"{} is not {quantity:?} in {unit:?}",
			vib.show()
		));
	};
	if u != unit || q != quantity {
		return Err(format!("is {q:?} in {u:?}, should be {quantity:?} in {unit:?}"));
	}
	let value = field(x, "Value").unwrap_or("");
	let number = |v: f64| -> Result<bool, String> {
		let v = v * factor * libmbus_vifes(vib);
		let want: f64 = value.parse().map_err(|_| format!("is the number {v}, should be {value:?}"))?;
		// As printed with six decimals
		if (v - want).abs() <= 0.6e-6 + want.abs() * 1e-12 {
			Ok(true)
		} else {
			Err(format!("is {v}, should be {want}"))
		}
	};
	let date = |y: i128, m: i128, d: i128| format!("{:04}-{m:02}-{d:02}", 2000 + y);
	let get = |k| num(data.get(k)).unwrap_or(-1);
	match data {
		T::Node("Signed" | "Unsigned", _) => number(num(data.get("v")).unwrap_or(0) as f64),
		T::Node("Real", _) => match data.get("v") {
			Some(T::F(b)) => number(f32::from_bits(*b) as f64),
			_ => Err("no real".into()),
		},
		T::Node("String", _) => {
			if text(data.get("v")) == value {
				Ok(true)
			} else {
				Err(format!("is {:?}, should be {value:?}", text(data.get("v"))))
			}
		}
		T::Node("Date", _) => {
			let t = date(get("year"), get("month"), get("day"));
			if t == value {
				Ok(true)
			} else {
				Err(format!("is {t:?}, should be {value:?}"))
			}
		}
		T::Node(k @ ("DateTimeF" | "DateTimeI"), _) => {
			let t = format!(
				"{}T{:02}:{:02}:{:02}Z",
				date(get("year"), get("month"), get("day")),
				get("hour"),
				get("minute"),
				if *k == "DateTimeI" { get("second") } else { 0 }
			);
			if t == value {
				Ok(true)
			} else {
				Err(format!("is {t:?}, should be {value:?}"))
			}
		}
		// How to show what is no number is not settled
		T::Node("ErrorValue", _) if text(data.get("v")).bytes().any(|b| !b.is_ascii_digit()) => Ok(false),
		_ => Err(format!("is {}, should be {value:?}", data.show())),
	}
}

fn libmbus_medium(t: &str) -> &str {
	match t {
		"Other" => "Other",
		"OilMeter" => "Oil",
		"ElectricityMeter" => "Electricity",
		"GasMeter" => "Gas",
		"ThermalEnergyMeter(OutletHeat)" => "Heat: Outlet",
		"ThermalEnergyMeter(InletHeat)" => "Heat: Inlet",
		"ThermalEnergyMeter(Combined)" => "Heat / Cooling load meter",
		"WaterMeter(Warm)" => "Warm water (30-90°C)",
		"WaterMeter(Potable)" => "Water",
		"WaterMeter(Cold)" => "Cold water",
		"HeatCostAllocator" => "Heat Cost Allocator",
		"BusOrSystemComponent" => "Bus/System",
		"ElectricalBreaker" => "Breaker: Electricity",
		_ => "?",
	}
}

fn libmbus_info(x: &[(String, String)], h: &T, access: Option<u8>) -> Result<(), String> {
	let T::Node("LongHeader", _) = h else {
		return Err("there is no long header".into());
	};
	let same = |key: &str, got: &str| match field(x, key) {
		Some(want) if want != got => Err(format!("{key} is {got:?}, should be {want:?}")),
		_ => Ok(()),
	};
	let show = |k| num(h.get(k)).unwrap_or(-1).to_string();
	same("Id", &show("identifier"))?;
	same("Manufacturer", text(h.get("manufacturer")))?;
	same("Version", &show("version"))?;
	same("ProductName", text(h.get("device_name")))?;
	same("Medium", libmbus_medium(text(h.get("device_type"))))?;
	match access {
		Some(a) if show("access_number") != a.to_string() => {
			return Err(format!("AccessNumber is {}, should be {a}", show("access_number")));
		}
		Some(_) => (),
		None => same("AccessNumber", &show("access_number"))?,
	}
	let status = h.get("status").ok_or("no status")?;
	let mut bits = 0;
	for (k, bit) in [
		("manufacturer_2", 0x80),
		("manufacturer_1", 0x40),
		("manufacturer_0", 0x20),
		("temporary_error", 0x10),
		("permanent_error", 0x08),
		("power_low", 0x04),
	] {
		if status.get(k) == Some(&T::Bool(true)) {
			bits |= bit;
		}
	}
	bits |= match text(status.get("application")) {
		"None" => 0,
		"Busy" => 1,
		"AnyError" => 2,
		_ => 3,
	};
	same("Status", &format!("{bits:02X}"))
}

/// The whole telegram against the XML
fn libmbus_telegram(w: &mut W, k: &Known, d: &[u8], address: Option<u8>, access: Option<u8>) {
	w.begin(Level::Packet, d);
	let o = observe(Level::Packet, d);
	w.evaluated(Level::Packet, d, true, &|| format!("{}: {}", k.name, clip(&o.show(), 300)));
	let Some(message) = o.tree().and_then(|t| t.get("message")) else {
		w.violate(Some(Level::Packet), &[d], format!("{} is not decoded: {}", k.name, clip(&o.show(), 300)));
		return;
	};
	let (Some(header), Some(frame)) = (message.get("header"), message.get("frame")) else {
		w.violate(Some(Level::Packet), &[d], format!("{} is no response: {}", k.name, clip(&o.show(), 300)));
		return;
	};
	if let Some(a) = address {
		if o.tree().and_then(|t| num(t.get("address"))) != Some(a as i128) {
			w.violate(Some(Level::Packet), &[d], format!("{}: wrong address", k.name));
		}
	}
	if let Err(e) = libmbus_info(&k.info, header, access) {
		w.violate(Some(Level::Packet), &[d], format!("{}: {e}", k.name));
	}
	let Some(T::List(records)) = frame.get("records") else { return };
	let mut real = &k.records[..];
	let last = real.last().and_then(|l| field(l, "Function")).unwrap_or("");
	let data = match frame.get("manufacturer_data") {
		Some(T::B(v)) => v.clone(),
		_ => vec![],
	};
	let more = frame.get("more") == Some(&T::Bool(true));
	if last == "Manufacturer specific" || last == "More records follow" {
		let x = real.last().unwrap();
		real = &real[..real.len() - 1];
		let value = field(x, "Value").unwrap_or("").trim();
		let got = data.iter().map(|b| format!("{b:02X}")).collect::<Vec<_>>().join(" ");
		if value != got || more != (last == "More records follow") {
			w.violate(Some(Level::Packet), &[d], format!(
				"{}: ends in {got:?} (more: {more}), should end in {last:?} {value:?}",
				k.name
			));
		}
		w.count("ends compared");
	} else if more || !data.is_empty() {
		w.violate(Some(Level::Packet), &[d], format!("{}: should not end in more: {more}, {data:02x?}", k.name));
	}
	if records.len() != real.len() {
		w.violate(Some(Level::Packet), &[d], format!("{}: {} records, should be {}", k.name, records.len(), real.len()));
		return;
	}
	for (i, (r, x)) in records.iter().zip(real).enumerate() {
		match libmbus_record(x, r) {
			Ok(true) => w.count("records compared"),
			Ok(false) => w.count("records that have no comparable value"),
			Err(e) => w.violate(Some(Level::Packet), &[d], format!("{}, record {i}: {e}", k.name)),
		}
	}
	w.count("telegrams compared");
}

pub fn c27(sh: &Shared) -> Totals {
	parallel(sh, 27, &|w| {
		// Not the ones that break the rules of other properties (an impossible
		// manufacturer or an invalid date)
		let all: Vec<Known> = known()
			.into_iter()
			.filter(|k| matches!(model::packet(&k.data).0, model::Out::Ok(_)))
			.collect();
		w.max("telegrams known", all.len() as u64);
		for (i, k) in all.iter().enumerate() {
			if w.mine(i) {
				libmbus_telegram(w, k, &k.data, Some(k.data[5]), None);
			}
		}
		// The pieces, with what they have to be
		let mut pieces: Vec<(Vec<u8>, &Vec<(String, String)>, &str)> = Vec::new();
		for k in &all {
			let mut at = 19;
			let end = k.data.len() - 2;
			for x in &k.records {
				while at < end && k.data[at] == 0x2F {
					at += 1;
				}
				if at >= end || k.data[at] & 0x0F == 0x0F {
					break;
				}
				let (out, used, _) = model::record(&k.data[at..end]);
				if used == 0 || matches!(out, model::Out::Err(_)) {
					break;
				}
				pieces.push((k.data[at..at + used].to_vec(), x, &k.name));
				at += used;
			}
		}
		w.max("records known", pieces.len() as u64);
		if all.is_empty() || pieces.is_empty() {
			return;
		}
		for _ in 0..w.n(24_000, 20) {
			if w.stopped() {
				return;
			}
			// In another envelope, with another access number and fillers
			let k = &all[w.r.below(all.len())];
			if k.data.len() > 20 && w.r.one_in(3) {
				let mut m = k.data[6..k.data.len() - 2].to_vec();
				let (c, a) = (gen::good_control(&mut w.r), w.r.byte());
				let room = 253 - m.len();
				let fill = if room > 0 { w.r.below(room.min(5)) } else { 0 };
				m.splice(13..13, vec![0x2F; fill]);
				let mut access = None;
				if w.r.one_in(2) {
					m[9] = w.r.byte();
					access = Some(m[9]);
				}
				let d = model::long_frame(c, a, &m);
				libmbus_telegram(w, k, &d, Some(a), access);
			}
			// Records of many meters in one telegram
			let mut whose = None;
			let mut m = match w.r.below(4) {
				0 | 1 => {
					let h = &all[w.r.below(all.len())];
					let mut m = h.data[6..19].to_vec();
					m[9] = w.r.byte();
					whose = Some((h, m[9]));
					m
				}
				2 => {
					let mut m = vec![0x7A];
					m.extend(gen::short_header(&mut w.r));
					m
				}
				_ => vec![0x78],
			};
			let mut used: Vec<usize> = Vec::new();
			for _ in 0..w.r.range(1, 40) {
				if w.r.one_in(8) && m.len() < 253 {
					m.push(0x2F);
				}
				let i = w.r.below(pieces.len());
				if m.len() + pieces[i].0.len() <= 253 {
					m.extend_from_slice(&pieces[i].0);
					used.push(i);
				}
			}
			let c = if w.r.one_in(2) { 0x08 } else { gen::good_control(&mut w.r) };
			let d = model::long_frame(c, w.r.byte(), &m);
			w.begin(Level::Packet, &d);
			let o = observe(Level::Packet, &d);
			w.evaluated(Level::Packet, &d, true, &|| o.show());
			if let (Some((h, access)), Some(header)) = (whose, o.tree().and_then(|t| t.get("message")).and_then(|m| m.get("header"))) {
				if let Err(e) = libmbus_info(&h.info, header, Some(access)) {
					w.violate(Some(Level::Packet), &[&d], format!("with the header of {}: {e}", h.name));
				}
			}
			let records = match o.tree().and_then(|t| t.get("message")).and_then(|m| m.get("frame")).and_then(|f| f.get("records")) {
				Some(T::List(r)) if r.len() == used.len() => r,
				_ => {
					w.violate(Some(Level::Packet), &[&d], format!(
						"{} records put together give {}",
						used.len(),
						clip(&o.show(), 500)
					));
					continue;
				}
			};
			w.count("spliced telegrams");
			for (r, i) in records.iter().zip(&used) {
				match libmbus_record(pieces[*i].1, r) {
					Ok(true) => w.count("records compared"),
					Ok(false) => w.count("records that have no comparable value"),
					Err(e) => w.violate(Some(Level::Packet), &[&d, &pieces[*i].0], format!("a record of {}: {e}", pieces[*i].2)),
				}
			}
		}
	})
}

// ------------------------------------------------------------------------ C25

struct Ran {
	code: Option<i32>,
	out: String,
	err: String,
}

fn cli(path: &str, cwd: &Path, args: &[String]) -> Ran {
	let o = Command::new(path)
		.args(args)
		.current_dir(cwd)
		.env("RUST_BACKTRACE", "0")
		.output()
		.expect("the command line tool runs");
	Ran {
		code: o.status.code(),
		out: String::from_utf8_lossy(&o.stdout).into_owned(),
		err: String::from_utf8_lossy(&o.stderr).into_owned(),
	}
}

pub fn c25(sh: &Shared) -> Totals {
	let Ok(tool) = std::env::var("MONITOR_CLI") else {
		eprintln!("MONITOR_CLI is not set");
		return Totals::default();
	};
	parallel(sh, 25, &|w| {
		let scratch = Scratch::new(w, "c25");
		let corpus = gen::corpus(&["test-frames", "error-frames", "unsupported-frames"]);
		for round in 0..w.n(4_000, 15) {
			if w.stopped() {
				return;
			}
			let mut files: Vec<(String, Vec<u8>)> = Vec::new();
			let mut args = Vec::new();
			let count = if round % 16 == 0 { w.r.range(20, 60) } else { w.r.range(0, 7) };
			// Like the ones before them: of the same name elsewhere, of the same size,
			// nearly the same in what they hold
			let alike = w.r.one_in(3);
			let mut names: Vec<String> = Vec::new();
			for i in 0..count {
				let d = match w.r.below(if alike { 12 } else { 8 }) {
					8.. if !files.is_empty() => {
						let mut d = files[w.r.below(files.len())].1.clone();
						// Mostly towards the end
						let at = if w.r.one_in(3) { w.r.below(d.len()) } else { d.len() - 1 - w.r.below(d.len().min(4)) };
						match w.r.below(4) {
							0 => d[at] = w.r.byte(),
							1 => d[at] ^= 1 << w.r.below(8),
							2 if d.len() > 1 => {
								d.remove(at);
							}
							_ => {
								let other = w.r.below(d.len());
								d.swap(at, other);
							}
						}
						if w.r.one_in(2) {
							d = gen::reseal(&d).unwrap_or(d);
						}
						d
					}
					8.. => gen::good_datagram(&mut w.r),
					0 => w.r.pick(&corpus).1.clone(),
					1 => {
						let n = w.r.range(1, 60);
						w.r.texture(n)
					}
					2 => {
						let mut d = gen::datagram(&mut w.r);
						gen::mutate(&mut w.r, &mut d);
						if w.r.one_in(2) {
							d = gen::reseal(&d).unwrap_or(d);
						}
						d
					}
					3 if !files.is_empty() => {
						// The same file once more
						let (n, d) = files[w.r.below(files.len())].clone();
						args.push(n.clone());
						files.push((n, d));
						continue;
					}
					4 => {
						let l = *w.r.pick(&LEVELS[..3]);
						fitting(&mut w.r, l)
					}
					_ => gen::good_datagram(&mut w.r),
				};
				if d.is_empty() {
					continue;
				}
				let front = *w.r.pick(&["", "", "", "-", "--", "-v", "@", "+", "~", ".", "#", " ", "=", "--help", "%"]);
				let text = w.r.one_in(2);
				let mut n = if text {
					format!("{front}{i}-{}.hex", w.r.pick(&["a", "a b", "ü", "-x", "q\"t"]))
				} else {
					format!("{front}{i}{}", w.r.pick(&[".bin", "", ".hex.raw", ".txt", ".HEX", ".Hex", "hex"]))
				};
				if alike {
					let same: Vec<&String> = names.iter().filter(|n| n.ends_with(".hex") == text).collect();
					if !same.is_empty() && w.r.one_in(2) {
						n = same[w.r.below(same.len())].clone();
					}
					names.push(n.clone());
					// Every file has a directory of its own
					n = format!("{}{i}/{n}", w.r.pick(&["d", "a b", "x.hex", "-"]));
				}
				let (name, path) = if text {
					let t = hex_text(&mut w.r, &d) + w.r.pick(&["", "\n"]);
					let p = scratch.file(&n, t.as_bytes());
					(n, p)
				} else {
					let p = scratch.file(&n, &d);
					(n, p)
				};
				// By relative and absolute name
				let name = if w.r.one_in(2) { name } else { path };
				args.push(name.clone());
				files.push((name, d));
			}
			let all: Vec<u8> = files.iter().flat_map(|f| f.1.clone()).collect();
			w.begin(Level::Packet, &all);
			let ran = cli(&tool, &scratch.0, &args);
			let (mut out, mut err) = (String::new(), String::new());
			let mut panics = false;
			for (name, d) in &files {
				out += &format!("File {name:?}:\n");
				match crate::obs::guarded(|| pretty(d)) {
					Ok(Ok(t)) => {
						out += &t;
						out.push('\n');
						w.count("files decoded");
					}
					Ok(Err(t)) => {
						err += &t;
						err.push('\n');
						w.count("files refused");
					}
					Err(_) => panics = true,
				}
			}
			w.count("runs");
			w.evaluated(Level::Packet, &all, !files.is_empty(), &|| clip(&ran.out, 200));
			let refs: Vec<&[u8]> = files.iter().map(|f| &f.1[..]).collect();
			if panics {
				// For others to say
				continue;
			}
			if ran.code != Some(0) {
				w.violate(None, &refs, format!("{args:?} ends with {:?}: {}", ran.code, clip(&ran.err, 400)));
			} else if ran.out != out {
				let at = ran.out.bytes().zip(out.bytes()).take_while(|(a, b)| a == b).count();
				let from = |t: &str| {
					let mut a = at.saturating_sub(60).min(t.len());
					while !t.is_char_boundary(a) {
						a -= 1;
					}
					clip(&t[a..], 200)
				};
				w.violate(None, &refs, format!(
					"{args:?}: standard output differs from what the files decode to at {at}: {:?} should be {:?}",
					from(&ran.out),
					from(&out)
				));
			} else if ran.err != err {
				w.violate(None, &refs, format!(
					"{args:?}: standard error is {:?}, should be {:?}",
					clip(&ran.err, 300),
					clip(&err, 300)
				));
			}
			// One at a time gives the same
			if round % 4 == 0 && files.len() < 10 {
				let (mut out, mut err) = (String::new(), String::new());
				for a in &args {
					let r = cli(&tool, &scratch.0, &[a.clone()]);
					out += &r.out;
					err += &r.err;
				}
				w.count("runs one file at a time");
				if out != ran.out || err != ran.err {
					w.violate(None, &refs, format!("{args:?}: together is not the same as one at a time"));
				}
			}
			for (name, _) in &files {
				let path = scratch.0.join(name);
				let _ = std::fs::remove_file(&path);
				if alike {
					// Only if it is empty, only within
					if let Some(dir) = path.parent().filter(|p| p.starts_with(&scratch.0) && *p != scratch.0) {
						let _ = std::fs::remove_dir(dir);
					}
				}
			}
		}
	})
}

// ------------------------------------------------------------------------ C22

fn strings_ok(t: &T) -> bool {
	match t {
		// Not optimised away: the bytes come from elsewhere
		T::S(v) => std::str::from_utf8(std::hint::black_box(v.as_bytes())).is_ok(),
		T::Node(_, f) => f.iter().all(|(_, v)| strings_ok(v)),
		T::List(l) => l.iter().all(strings_ok),
		_ => true,
	}
}

/// Decode this from a buffer of exactly its size, look at all of the result
fn look(level: Level, d: &[u8], print: bool) -> (bool, Option<String>) {
	let exact: Box<[u8]> = d.into();
	let o = observe(level, &exact);
	let mut bad = None;
	match &o {
		Obs::Ok { tree, consumed } => {
			if !strings_ok(tree) {
				bad = Some("a string in the result is not UTF-8".to_owned());
			}
			if *consumed > d.len() {
				bad = Some(format!("{consumed} bytes were used of {}", d.len()));
			}
		}
		Obs::Err { contexts, display, .. } => {
			if !contexts.iter().chain([display]).all(|t| std::str::from_utf8(std::hint::black_box(t.as_bytes())).is_ok()) {
				bad = Some("the error text is not UTF-8".to_owned());
			}
		}
		Obs::Panic(_) => (),
	}
	if print {
		let _ = debug(level, &exact, false);
		let _ = debug(level, &exact, true);
	}
	drop(exact);
	// After the input is gone
	(std::hint::black_box(o.show().len()) > 0 && o.is_ok(), bad)
}

fn fail(level: Level, d: &[u8], what: &str) {
	let mut h = String::new();
	for b in d.iter().take(4000) {
		h += &format!("{b:02x}");
	}
	println!("BAD {} {h} {what}", level.name());
}

/// memory SEED COUNT SIZE: run under a sanitizer or interpreter
fn memory(seed: u64, count: usize, huge: usize, threads: usize) -> i32 {
	let trace = std::env::var("MONITOR_TRACE").is_ok();
	let run = |part: usize| {
		let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(part as u64 + 22_000));
		let (mut good, mut refused, mut printed) = (0_u64, 0_u64, 0_u64);
		let mut bad = 0;
		let mut seen = std::collections::BTreeSet::new();
		let mut one = |level: Level, d: &[u8], print: bool| {
			if trace {
				let mut h = String::new();
				for b in d.iter().take(4000) {
					h += &format!("{b:02x}");
				}
				println!("TRACE {} {h}", level.name());
				let _ = std::io::stdout().flush();
			}
			let (ok, b) = look(level, d, print);
			if let Some(b) = b {
				fail(level, d, &b);
				bad += 1;
			}
			good += ok as u64;
			refused += !ok as u64;
			printed += print as u64;
			seen.insert(crate::tree::fnv(d));
		};
		for i in 0..count {
			let (level, d) = anything(&mut r);
			one(level, &d, i % 3 == 0);
			let l = *r.pick(&LEVELS);
			let d = fitting(&mut r, l);
			one(l, &d, i % 5 == 0);
			if i % 4 == 0 {
				for cut in 0..d.len().min(if count > 2000 { 300 } else { 12 }) {
					one(l, &d[..cut], false);
				}
			}
		}
		if huge > 0 {
			for (_, level, f) in families() {
				one(level, &f(huge), false);
			}
		}
		(good, refused, printed, bad, seen.len())
	};
	let results: Vec<_> = if threads <= 1 {
		vec![run(0)]
	} else {
		std::thread::scope(|s| {
			let run = &run;
			let hs: Vec<_> = (0..threads).map(|p| s.spawn(move || run(p))).collect();
			hs.into_iter().map(|h| h.join().expect("worker")).collect()
		})
	};
	let sum = results.iter().fold((0, 0, 0, 0, 0), |a, b| (a.0 + b.0, a.1 + b.1, a.2 + b.2, a.3 + b.3, a.4 + b.4));
	println!("DONE good={} refused={} printed={} bad={} distinct={}", sum.0, sum.1, sum.2, sum.3, sum.4);
	(sum.3 > 0) as i32
}

/// What an input shows of the decoder: the shape of the result, or the error
fn shape(t: &T, at: &mut Vec<&'static str>, level: u64, out: &mut Vec<u64>) {
	let tail = at.iter().rev().take(2).copied().collect::<Vec<_>>().join("<");
	let mut put = |v: String| out.push(crate::tree::fnv(format!("{tail}={v}").as_bytes()));
	match t {
		T::N(v) => put(format!("N{}{}", *v < 0, (128 - v.unsigned_abs().leading_zeros()).div_ceil(8))),
		T::F(v) => put(format!("F{}", v >> 30)),
		// Names of things; the contents of texts only by their size
		T::S(v) if v.len() < 40 && v.is_ascii() && !tail.starts_with("v<") && !tail.starts_with("text") && !tail.starts_with("manufacturer") && !tail.starts_with("device_name") => {
			put(format!("S{v}"))
		}
		T::S(v) => put(format!("S{} {} {}", v.len().min(24), v.is_ascii(), v.starts_with('-'))),
		T::B(v) => put(format!("B{}", v.len().min(18))),
		T::Bool(v) => put(format!("{v}")),
		T::Unit | T::Any | T::OneOf(_) => put("()".into()),
		T::Node(name, f) => {
			put((*name).to_owned());
			for (k, v) in f {
				at.push(k);
				shape(v, at, level, out);
				at.pop();
			}
		}
		T::List(l) => {
			put(format!("L{}", l.len().min(12)));
			l.iter().for_each(|v| shape(v, at, level, out));
		}
	}
}

fn features(level: Level, d: &[u8]) -> Vec<u64> {
	let mut out = Vec::new();
	match observe(level, d) {
		Obs::Ok { tree, .. } => {
			shape(&tree, &mut vec![], level as u64, &mut out);
			out.push(crate::tree::fnv(format!("{level:?} ok").as_bytes()));
			if level == Level::Record {
				// How it is put together
				let (_, _, parts) = model::record(d);
				let code = d.get(parts.header_len).filter(|_| d[0] & 0x0F == 0x0D);
				let vif = d.get(1 + parts.difes).copied().unwrap_or(0) & 0x7F;
				out.push(crate::tree::fnv(format!("dif {} {code:?}", d[0] & 0x0F).as_bytes()));
				out.push(crate::tree::fnv(format!("vif {vif} {}", parts.class).as_bytes()));
				out.push(crate::tree::fnv(format!("difes {} vifes {}", parts.difes.min(4), parts.vifes.min(4)).as_bytes()));
			}
		}
		Obs::Err { contexts, incomplete, .. } => {
			let c = contexts.join("|");
			out.push(crate::tree::fnv(format!("{level:?} {c} {incomplete:?}").as_bytes()));
			out.push(crate::tree::fnv(format!("{c} {}", d.len().min(24)).as_bytes()));
		}
		Obs::Panic(m) => out.push(crate::tree::fnv(m.as_bytes())),
	}
	out
}

/// The inputs of `memory-file`: made outside of the interpreter, which is slow,
/// and picked by what the decoder shows when it runs them
fn memory_inputs(seed: u64, count: usize, part: usize, parts: usize) -> Vec<(Level, Vec<u8>)> {
	let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(22_500));
	let mut v = Vec::new();
	let mut seen = std::collections::HashSet::new();
	for _ in 0..if count > 500 { 500_000 } else { 100_000 } {
		let (l, mut d) = match r.below(4) {
			0 => anything(&mut r),
			1 | 2 => (Level::Record, fitting(&mut r, Level::Record)),
			_ => {
				let l = *r.pick(&LEVELS);
				(l, fitting(&mut r, l))
			}
		};
		if d.len() > 80 {
			continue;
		}
		if r.one_in(4) && !d.is_empty() {
			let n = r.below(d.len());
			d.truncate(n);
		}
		let mut new = 0;
		for f in features(l, &d) {
			new += seen.insert(f) as usize;
		}
		if new > 0 {
			v.push((new, l, d));
		}
	}
	// Those that show most first, and some of the others
	v.sort_by_key(|x| (std::cmp::Reverse(x.0.min(4)), x.2.len()));
	let keep = count * parts;
	let tail = v.split_off(v.len().min(keep * 3 / 4));
	let step = (tail.len() * 4 / keep.max(1)).max(1);
	v.extend(tail.into_iter().step_by(step));
	v.truncate(keep);
	v.into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|(_, (_, l, d))| (l, d)).collect()
}

/// `threads` of them do all this at once: each some of it, and some of it all
fn memory_file(path: &str, threads: usize) -> i32 {
	let trace = std::env::var("MONITOR_TRACE").is_ok();
	let all = std::fs::read(path).expect("inputs");
	let mut inputs: Vec<(Level, &[u8])> = Vec::new();
	let mut at = 0;
	while at + 3 <= all.len() {
		let n = all[at + 1] as usize | (all[at + 2] as usize) << 8;
		inputs.push((LEVELS[all[at] as usize], &all[at + 3..at + 3 + n]));
		at += 3 + n;
	}
	let run = |thread: usize| {
		let (mut good, mut refused, mut printed, mut bad, mut seen) = (0_u64, 0_u64, 0_u64, 0_u64, 0_u64);
		for (i, &(level, d)) in inputs.iter().enumerate() {
			if i % threads != thread && (i / threads) % 4 != 0 {
				continue;
			}
			if trace {
				let mut h = String::new();
				for b in d {
					h += &format!("{b:02x}");
				}
				println!("TRACE {} {h}", level.name());
				let _ = std::io::stdout().flush();
			}
			seen += 1;
			let print = seen % 8 == 0;
			if seen % 4 != 0 {
				// From a buffer of exactly this size
				let exact: Box<[u8]> = d.into();
				match crate::obs::guarded(|| crate::obs::run_only(level, &exact)).unwrap_or(false) {
					true => good += 1,
					false => refused += 1,
				}
				continue;
			}
			let (ok, b) = look(level, d, print);
			if let Some(b) = b {
				fail(level, d, &b);
				bad += 1;
			}
			good += ok as u64;
			refused += !ok as u64;
			printed += print as u64;
		}
		(good, refused, printed, bad)
	};
	let results: Vec<_> = if threads <= 1 {
		vec![run(0)]
	} else {
		std::thread::scope(|s| {
			let run = &run;
			let hs: Vec<_> = (0..threads).map(|p| s.spawn(move || run(p))).collect();
			hs.into_iter().map(|h| h.join().expect("thread")).collect()
		})
	};
	let t = results.iter().fold((0, 0, 0, 0), |a, b| (a.0 + b.0, a.1 + b.1, a.2 + b.2, a.3 + b.3));
	println!("DONE good={} refused={} printed={} bad={} distinct={}", t.0, t.1, t.2, t.3, inputs.len());
	(t.3 > 0) as i32
}

pub fn special_system(cmd: &str, args: &[String]) -> Option<i32> {
	match cmd {
		"memory" => {
			let v: Vec<u64> = args.iter().map(|a| a.parse().unwrap_or(0)).collect();
			Some(memory(v[0], v[1] as usize, v[2] as usize, v[3] as usize))
		}
		// memory-inputs SEED COUNT PART PARTS FILE
		"memory-inputs" => {
			let n = |i: usize| args[i].parse::<usize>().ok();
			let mut v = memory_inputs(args[0].parse().ok()?, n(1)?, n(2)?, n(3)?);
			let mut seen = std::collections::HashSet::new();
			v.retain(|x| seen.insert(x.clone()));
			let mut out = Vec::new();
			for (l, d) in v {
				out.push(LEVELS.iter().position(|x| *x == l)? as u8);
				out.extend((d.len() as u16).to_le_bytes());
				out.extend(d);
			}
			std::fs::write(&args[4], out).expect("inputs");
			Some(0)
		}
		"memory-file" => Some(memory_file(&args[0], args.get(1).and_then(|n| n.parse().ok()).unwrap_or(1))),
		_ => None,
	}
}
