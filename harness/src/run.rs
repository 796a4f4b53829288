//! Running workloads: workers, counters, verdicts, evidence.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use crate::gen::Rng;
use crate::judge::{judge, Accept, Finding, Judged};
use crate::model::Out;
use crate::obs::{Level, Obs};
use crate::tree::fnv;

#[derive(Clone, Debug)]
pub struct Opts {
	pub id: String,
	pub seed: u64,
	pub thorough: bool,
	pub workers: usize,
	pub replays: PathBuf,
	pub scratch: PathBuf,
	/// Note every case in a file before running it, to find what kills us
	pub trace: bool,
}

#[derive(Clone, Debug)]
pub struct Violation {
	pub kind: &'static str,
	pub level: Option<Level>,
	pub inputs: Vec<Vec<u8>>,
	pub what: String,
}

pub struct Shared {
	pub opts: Opts,
	pub violations: Mutex<Vec<Violation>>,
	pub stop: AtomicBool,
}

/// How a mismatch in whether something is accepted is put down to a property
pub enum Focus<'a> {
	/// Nothing in this case is special but what the property is about
	Pure,
	/// Only if this variant (with the part in question made plain) is fine
	Unless(&'a dyn Fn() -> Vec<u8>),
	/// Only by the place where values differ, or by the reason to refuse
	Place,
}

#[derive(Default)]
pub struct Totals {
	pub evals: u64,
	pub counters: BTreeMap<String, u64>,
	pub maxima: BTreeMap<String, u64>,
	pub distinct: HashSet<u64>,
	pub distinct_overflow: u64,
	pub samples: Vec<String>,
	pub exhaustive: Vec<String>,
}

const DISTINCT_CAP: usize = 1_500_000;

pub struct W<'a> {
	pub sh: &'a Shared,
	pub part: usize,
	pub parts: usize,
	pub r: Rng,
	pub t: Totals,
	beat: Arc<Beat>,
	trace: Option<std::fs::File>,
	sample_at: u64,
}

struct Beat {
	count: AtomicU64,
	task: Mutex<Option<String>>,
	now: Mutex<(Option<Level>, Vec<u8>)>,
	done: AtomicBool,
}

fn hex(v: &[u8]) -> String {
	let mut o = String::new();
	for b in v {
		write!(o, "{b:02x}").unwrap();
	}
	o
}

pub fn unhex(v: &str) -> Option<Vec<u8>> {
	let v = v.trim();
	(0..v.len() / 2)
		.map(|i| u8::from_str_radix(&v[2 * i..2 * i + 2], 16).ok())
		.collect()
}

impl<'a> W<'a> {
	/// Quick count, and how many times that in a thorough run
	pub fn n(&self, quick: usize, times: usize) -> usize {
		// Of what takes a second or two there can be more
		let quickly = 3 * match &self.sh.opts.id[..] {
			"C05" | "C15" | "C18" | "C19" => 6,
			"C02" | "C04" | "C06" | "C07" | "C10" | "C11" | "C21" | "C27" => 4,
			"C08" | "C09" | "C14" | "C16" | "C17" | "C28" => 2,
			_ => 1,
		};
		let total = quick * if self.sh.opts.thorough { times.max(quickly) } else { quickly };
		(total / self.parts).max(1)
	}
	pub fn thorough(&self) -> bool {
		self.sh.opts.thorough
	}
	pub fn mine(&self, index: usize) -> bool {
		index % self.parts == self.part
	}
	pub fn stopped(&self) -> bool {
		self.sh.stop.load(Ordering::Relaxed)
	}
	pub fn id(&self) -> &'a str {
		&self.sh.opts.id
	}
	pub fn count(&mut self, what: &str) {
		self.count_n(what, 1)
	}
	pub fn count_n(&mut self, what: &str, n: u64) {
		match self.t.counters.get_mut(what) {
			Some(v) => *v += n,
			None => {
				self.t.counters.insert(what.to_owned(), n);
			}
		}
	}
	pub fn max(&mut self, what: &str, n: u64) {
		match self.t.maxima.get_mut(what) {
			Some(v) => *v = n.max(*v),
			None => {
				self.t.maxima.insert(what.to_owned(), n);
			}
		}
	}
	pub fn exhaustive(&mut self, what: &str) {
		if self.part == 0 {
			self.t.exhaustive.push(what.to_owned());
		}
	}
	pub fn tracing(&self) -> bool {
		self.trace.is_some()
	}
	/// About to run this: for the watchdog and the tracer
	pub fn begin(&mut self, level: Level, data: &[u8]) {
		self.beat.count.fetch_add(1, Ordering::Relaxed);
		{
			let mut now = self.beat.now.lock().unwrap();
			now.0 = Some(level);
			now.1.clear();
			now.1.extend_from_slice(data);
		}
		if let Some(f) = &mut self.trace {
			use std::os::unix::fs::FileExt;
			let line = format!("{} {}\n", level.name(), hex(data));
			let _ = f.write_all_at(line.as_bytes(), 0);
			let _ = f.set_len(line.len() as u64);
		}
	}
	pub fn evaluated(&mut self, level: Level, data: &[u8], nontrivial: bool, note: &dyn Fn() -> String) {
		self.t.evals += 1;
		if nontrivial {
			let h = fnv(data) ^ (level as u64).wrapping_mul(0x9E37_79B9);
			if self.t.distinct.len() < DISTINCT_CAP {
				self.t.distinct.insert(h);
			} else {
				self.t.distinct_overflow += 1;
			}
			if self.t.evals >= self.sample_at && self.t.samples.len() < 4 {
				self.t.samples.push(format!(
					"{} {} -> {}",
					level.name(),
					clip(&hex(data), 300),
					clip(&note(), 500)
				));
				self.sample_at = self.t.evals * 6 + 10;
			}
		}
	}

	/// Run the real decoder against the model on this input
	pub fn case(&mut self, level: Level, data: &[u8], focus: Focus) -> Judged {
		self.begin(level, data);
		let j = judge(level, data);
		let mine = |f: &Finding, id: &str| f.props.contains(&id);
		let id = self.id();
		let nontrivial = match &j.out {
			Out::Err(reason) => crate::judge::reason_props(reason).contains(&id) || matches!(focus, Focus::Pure),
			_ => true,
		};
		let class = match (&j.out, j.obs.is_ok()) {
			(Out::Ok(_), true) => "accepted, equal to the model",
			(Out::Err(_), false) => "refused, as the model demands",
			(Out::OkOrErr(_), true) => "accepted where either is right",
			(Out::OkOrErr(_), false) => "refused where either is right",
			(Out::Ok(_), false) => "MISMATCH refused",
			(Out::Err(_), true) => "MISMATCH accepted",
		};
		if j.findings.is_empty() {
			self.count(class);
		} else {
			self.count("with findings (of any property)");
		}
		{
			let note = || j.obs.show();
			self.evaluated(level, data, nontrivial, &note);
		}
		for f in &j.findings {
			let report = match (&focus, f.accept) {
				(Focus::Pure, Accept::Yes) => true,
				(Focus::Pure, Accept::No) => mine(f, id),
				(Focus::Unless(dull), Accept::Yes) => {
					let plain = dull();
					plain != data && judge(level, &plain).findings.is_empty()
				}
				(Focus::Place, Accept::Yes) => mine(f, id),
				(_, Accept::No) => mine(f, id),
			};
			if report {
				self.violate_case(level, data, &f.what);
				break;
			}
		}
		if j.findings.is_empty() && self.r.one_in(6) {
			let plain = match &focus {
				Focus::Unless(dull) => Some(dull()),
				Focus::Pure => None,
				Focus::Place => return j,
			};
			self.deeper(level, data, plain);
		}
		j
	}

	/// The same bytes must mean the same deeper inside something larger: in a
	/// frame among others, behind any header, in any datagram. Only what goes
	/// wrong there with these bytes, and not with plain ones in their place,
	/// counts.
	fn deeper(&mut self, level: Level, data: &[u8], plain: Option<Vec<u8>>) {
		let plain = plain.unwrap_or_else(|| match level {
			Level::Record => vec![0x01, 0x13, 0x07],
			Level::Frame => vec![],
			_ => vec![0x79],
		});
		let Some((at, before, after)) = self.surroundings(level, data.len()) else {
			return;
		};
		let put = |v: &[u8]| -> Option<Vec<u8>> {
			let mut m = before.clone();
			m.extend_from_slice(v);
			m.extend_from_slice(&after);
			match at {
				Level::Packet if m.len() > 255 => None,
				Level::Packet => Some(crate::model::long_frame(m[0], m[1], &m[2..])),
				_ => Some(m),
			}
		};
		let Some(whole) = put(data) else { return };
		self.begin(at, &whole);
		let j = judge(at, &whole);
		self.t.evals += 1;
		self.count("judged again inside something larger");
		if j.findings.is_empty() {
			return;
		}
		let id = self.id();
		let fine = || match put(&plain) {
			Some(p) => judge(at, &p).findings.is_empty(),
			None => false,
		};
		for f in &j.findings {
			let report = match f.accept {
				Accept::No => f.props.contains(&id),
				Accept::Yes => true,
			};
			if report && fine() {
				self.violate_case(at, &whole, &f.what);
				break;
			}
		}
	}

	/// What to put before and after something of this level and size
	fn surroundings(&mut self, level: Level, size: usize) -> Option<(Level, Vec<u8>, Vec<u8>)> {
		use crate::gen;
		let r = &mut self.r;
		let (mut before, mut after) = (vec![], vec![]);
		let mut at = level;
		if at == Level::Record {
			at = Level::Frame;
			if r.one_in(6) {
				// The record an application error carries
				let ci = *r.pick(&[0x6E, 0x6F, 0x70]);
				before.push(ci);
				before.extend(gen::header(r, crate::model::ci_table(ci).0));
				before.push(0xF0);
				at = Level::Message;
			} else {
				before = gen::frame_of(r, 2);
				before.extend(vec![0x2F; gen::fillers(r) % 32]);
				match r.below(3) {
					0 => (),
					1 => after = gen::frame(r, 2).0,
					_ => after = vec![0x2F; r.range(1, 20)],
				}
			}
			if r.one_in(2) {
				return Some((at, before, after));
			}
		}
		if at == Level::Frame {
			at = Level::Message;
			let ci = *r.pick(&[0x72, 0x78, 0x7A]);
			let mut m = vec![ci];
			m.extend(gen::header(r, crate::model::ci_table(ci).0));
			m.extend(before);
			before = m;
			if r.one_in(2) {
				return Some((at, before, after));
			}
		}
		if at == Level::Message {
			if before.len() + size + after.len() > 253 {
				return (level != at).then_some((at, before, after));
			}
			let mut m = vec![gen::good_control(r), r.edgy()];
			m.extend(before);
			return Some((Level::Packet, m, after));
		}
		None
	}

	fn violate_case(&mut self, level: Level, data: &[u8], what: &str) {
		self.push(Violation {
			kind: "model",
			level: Some(level),
			inputs: vec![data.to_vec()],
			what: what.to_owned(),
		});
	}

	pub fn violate(&mut self, level: Option<Level>, inputs: &[&[u8]], what: String) {
		self.push(Violation {
			kind: "note",
			level,
			inputs: inputs.iter().map(|v| v.to_vec()).collect(),
			what,
		});
	}

	fn push(&mut self, v: Violation) {
		self.count("VIOLATIONS");
		let mut list = self.sh.violations.lock().unwrap();
		// The shortest few will do
		list.push(v);
		if list.len() > 40 {
			list.sort_by_key(|v| v.inputs.iter().map(|i| i.len()).sum::<usize>());
			list.truncate(8);
		}
		if self.t.counters["VIOLATIONS"] > 50 {
			self.sh.stop.store(true, Ordering::Relaxed);
		}
	}
}

pub fn clip(v: &str, max: usize) -> String {
	if v.len() <= max {
		v.to_owned()
	} else {
		let mut end = max;
		while !v.is_char_boundary(end) {
			end -= 1;
		}
		format!("{}… ({} chars)", &v[..end], v.len())
	}
}

/// A single decode that burns this much CPU time is not going to answer
const STUCK_CPU_SECONDS: f64 = 30.0;

fn task_cpu_seconds(task: &str) -> Option<f64> {
	let text = std::fs::read_to_string(format!("/proc/{task}/stat")).ok()?;
	let rest = text.rsplit_once(')')?.1;
	let f: Vec<&str> = rest.split_whitespace().collect();
	let ticks: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
	Some(ticks / 100.0)
}

/// Run `f` in every worker and add up what they saw
pub fn parallel(sh: &Shared, salt: u64, f: &(dyn Fn(&mut W) + Sync)) -> Totals {
	let parts = sh.opts.workers;
	let beats: Vec<Arc<Beat>> = (0..parts)
		.map(|_| {
			Arc::new(Beat {
				count: AtomicU64::new(0),
				task: Mutex::new(None),
				now: Mutex::new((None, vec![])),
				done: AtomicBool::new(false),
			})
		})
		.collect();
	let total = Mutex::new(Totals::default());
	std::thread::scope(|s| {
		for part in 0..parts {
			let beat = beats[part].clone();
			let total = &total;
			std::thread::Builder::new()
				.stack_size(16 << 20)
				.spawn_scoped(s, move || {
					*beat.task.lock().unwrap() = std::fs::read_link("/proc/thread-self")
						.ok()
						.map(|p| p.to_string_lossy().into_owned());
					let trace = sh.opts.trace.then(|| {
						std::fs::File::create(
							sh.opts.scratch.join(format!("trace-{part}")),
						)
						.expect("trace file")
					});
					let mut w = W {
						sh,
						part,
						parts,
						r: Rng::new(
							sh.opts
								.seed
								.wrapping_mul(0x1_0001)
								.wrapping_add(salt << 32)
								.wrapping_add(part as u64),
						),
						t: Totals::default(),
						beat: beat.clone(),
						trace,
						sample_at: 1 + 97 * part as u64,
					};
					f(&mut w);
					beat.done.store(true, Ordering::SeqCst);
					let mut t = total.lock().unwrap();
					merge(&mut t, w.t);
				})
				.expect("spawn");
		}
		// Watchdog: on CPU time, not on the clock
		let beats = &beats;
		std::thread::Builder::new()
			.spawn_scoped(s, move || {
				let mut last: Vec<(u64, f64)> = vec![(u64::MAX, 0.0); beats.len()];
				while !beats.iter().all(|b| b.done.load(Ordering::SeqCst)) {
					std::thread::sleep(std::time::Duration::from_millis(20));
					for (i, b) in beats.iter().enumerate() {
						let count = b.count.load(Ordering::Relaxed);
						if b.done.load(Ordering::SeqCst) {
							continue;
						}
						if count != last[i].0 {
							last[i] = (count, -1.0);
							continue;
						}
						let task = b.task.lock().unwrap().clone();
						let Some(cpu) = task.and_then(|t| task_cpu_seconds(&t)) else {
							continue;
						};
						if last[i].1 < 0.0 {
							last[i].1 = cpu;
						}
						if cpu - last[i].1 > STUCK_CPU_SECONDS {
							let now = b.now.lock().unwrap();
							if let (Some(level), data) = (&now.0, &now.1) {
								let v = Violation {
									kind: "note",
									level: Some(*level),
									inputs: vec![data.clone()],
									what: format!(
										"no answer after {STUCK_CPU_SECONDS} s of CPU time for {} bytes",
										data.len()
									),
								};
								sh.violations.lock().unwrap().push(v);
								report(sh);
								std::process::exit(1);
							}
						}
					}
				}
			})
			.expect("spawn");
	});
	total.into_inner().unwrap()
}

pub fn merge(a: &mut Totals, b: Totals) {
	a.evals += b.evals;
	for (k, v) in b.counters {
		*a.counters.entry(k).or_default() += v;
	}
	for (k, v) in b.maxima {
		let e = a.maxima.entry(k).or_default();
		*e = v.max(*e);
	}
	if a.distinct.is_empty() {
		a.distinct = b.distinct;
	} else {
		a.distinct.extend(b.distinct);
	}
	a.distinct_overflow += b.distinct_overflow;
	for s in b.samples {
		if a.samples.len() < 10 {
			a.samples.push(s);
		}
	}
	a.exhaustive.extend(b.exhaustive);
}

/// Make a failing input smaller, keeping that it fails in a way that counts
fn minimise(id: &str, v: &mut Violation) {
	let Some(level) = v.level else { return };
	if v.kind != "model" {
		return;
	}
	let fails = |d: &[u8]| judge(level, d).findings.iter().find(|f| f.props.contains(&id)).map(|f| f.what.clone());
	let Some(_) = fails(&v.inputs[0]) else { return };
	let mut budget = 20_000;
	let seal = |d: Vec<u8>| match level {
		Level::Record | Level::Frame | Level::Message => Some(d),
		_ if v.inputs[0].first() == Some(&0x68) && judge(level, &v.inputs[0]).out_is_ok() => crate::gen::reseal(&d),
		_ => Some(d),
	};
	let mut best = v.inputs[0].clone();
	let mut chunk = (best.len() / 2).max(1);
	loop {
		let mut progress = false;
		let mut i = 0;
		while i < best.len() && budget > 0 {
			budget -= 1;
			let mut t = best.clone();
			t.drain(i..(i + chunk).min(t.len()));
			match seal(t) {
				Some(t) if t.len() < best.len() && fails(&t).is_some() => {
					best = t;
					progress = true;
				}
				_ => i += chunk,
			}
		}
		if budget == 0 || (!progress && chunk == 1) {
			break;
		}
		if !progress {
			chunk /= 2;
		}
	}
	if let Some(w) = fails(&best) {
		v.what = w;
		v.inputs[0] = best;
	}
}

/// Print the violations (if any) with a replay file each
pub fn report(sh: &Shared) -> usize {
	let mut list = sh.violations.lock().unwrap().clone();
	let id = &sh.opts.id;
	list.sort_by_key(|v| v.inputs.iter().map(|i| i.len()).sum::<usize>());
	let mut seen = HashSet::new();
	let mut printed = 0;
	for v in &mut list {
		if printed >= 3 {
			break;
		}
		if v.what.starts_with("no answer") {
			// Not again
		} else {
			minimise(id, v);
		}
		let mut text = String::new();
		writeln!(text, "property: {id}").unwrap();
		writeln!(text, "kind: {}", v.kind).unwrap();
		if let Some(l) = v.level {
			writeln!(text, "level: {}", l.name()).unwrap();
		}
		for i in &v.inputs {
			writeln!(text, "data: {}", hex(i)).unwrap();
		}
		writeln!(text, "seed: {}", sh.opts.seed).unwrap();
		writeln!(text, "what: {}", v.what).unwrap();
		writeln!(
			text,
			"replay with: python3 /verif/check.py {id} --replay <this file>"
		)
		.unwrap();
		if !seen.insert(fnv(text.as_bytes())) {
			continue;
		}
		let _ = std::fs::create_dir_all(&sh.opts.replays);
		let path = sh
			.opts
			.replays
			.join(format!("{id}-{:016x}.txt", fnv(text.as_bytes())));
		let _ = std::fs::File::create(&path).and_then(|mut f| f.write_all(text.as_bytes()));
		println!("# {id}: {}", clip(&v.what.replace('\n', " | "), 700));
		for i in v.inputs.iter().take(3) {
			println!("#   input {}", clip(&hex(i), 400));
		}
		println!("VIOLATION property={id} replay={}", path.display());
		printed += 1;
	}
	printed
}

fn json_str(v: &str) -> String {
	let mut o = String::from("\"");
	for c in v.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 0x20 || c as u32 == 0x7F => write!(o, "\\u{:04x}", c as u32).unwrap(),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

/// What check.py needs to write the evidence file
pub fn coverage_json(t: &Totals, rule: &str, violations: usize) -> String {
	let mut o = String::from("{");
	write!(o, "\"evaluations\": {}, ", t.evals).unwrap();
	write!(o, "\"distinct_nontrivial\": {}, ", t.distinct.len()).unwrap();
	if t.distinct_overflow > 0 {
		write!(o, "\"nontrivial_not_deduplicated\": {}, ", t.distinct_overflow).unwrap();
	}
	write!(o, "\"rule\": {}, ", json_str(rule)).unwrap();
	write!(o, "\"violations\": {violations}, ").unwrap();
	o.push_str("\"exhaustive_parts\": [");
	o.push_str(
		&t.exhaustive
			.iter()
			.map(|s| json_str(s))
			.collect::<Vec<_>>()
			.join(", "),
	);
	o.push_str("], \"samples\": [");
	o.push_str(
		&t.samples
			.iter()
			.map(|s| json_str(s))
			.collect::<Vec<_>>()
			.join(", "),
	);
	o.push_str("], \"observed\": {");
	o.push_str(
		&t.counters
			.iter()
			.map(|(k, v)| format!("{}: {v}", json_str(k)))
			.collect::<Vec<_>>()
			.join(", "),
	);
	o.push_str("}, \"maxima\": {");
	o.push_str(
		&t.maxima
			.iter()
			.map(|(k, v)| format!("{}: {v}", json_str(k)))
			.collect::<Vec<_>>()
			.join(", "),
	);
	o.push_str("}}");
	o
}

pub fn replay(text: &str) -> i32 {
	let field = |k: &str| {
		text.lines()
			.find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix(": ")))
	};
	let level = field("level").and_then(Level::from_name);
	let id = field("property").unwrap_or("").to_owned();
	let inputs: Vec<Vec<u8>> = text
		.lines()
		.filter_map(|l| l.strip_prefix("data:"))
		.filter_map(unhex)
		.collect();
	println!("recorded: {}", field("what").unwrap_or("?"));
	let Some(level) = level else {
		println!("(nothing to decode in this one)");
		return 2;
	};
	let mut bad = 0;
	for d in &inputs {
		// As `c01` does with what is big: on a stack with little room
		if d.len() >= 1000 {
			let small = std::thread::Builder::new().stack_size(256 << 10);
			std::thread::scope(|s| {
				let _ = small.spawn_scoped(s, || crate::obs::guarded(|| crate::obs::run_only(level, d))).expect("spawn").join();
			});
		}
		let j = judge(level, d);
		println!("input    {}", hex(d));
		println!("observed {}", j.obs.show());
		match &j.out {
			Out::Ok(t) => println!("model    Ok {}", t.show()),
			Out::OkOrErr(t) => println!("model    Ok or refused {}", t.show()),
			Out::Err(e) => println!("model    refused ({e})"),
		}
		for f in &j.findings {
			println!("finding  {:?} {}", f.props, f.what);
			if f.props.iter().any(|p| *p == id) {
				bad += 1;
			}
		}
		if let Obs::Panic(_) = j.obs {
			bad += 1;
		}
	}
	(bad > 0) as i32
}
