//! Compares what the decoder did with what the model allows, and says which
//! property each difference is about.

use crate::model::{self, Notes, Out};
use crate::obs::{observe, Level, Obs};
use crate::run::clip;
use crate::tree::{diff, Diff, T};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Accept {
	/// It is about whether the input is accepted at all
	Yes,
	/// It is about a value
	No,
}

#[derive(Clone, Debug)]
pub struct Finding {
	pub props: Vec<&'static str>,
	pub accept: Accept,
	pub what: String,
}

pub struct Judged {
	pub obs: Obs,
	pub out: Out,
	pub notes: Notes,
	pub used: usize,
	pub findings: Vec<Finding>,
}

impl Judged {
	pub fn out_is_ok(&self) -> bool {
		matches!(self.out, Out::Ok(_))
	}
}

pub fn reason_props(reason: &str) -> &'static [&'static str] {
	match reason {
		"envelope" => &["C02"],
		"checksum" => &["C02", "C03"],
		"control" => &["C04"],
		"ci" => &["C05"],
		"header" | "configuration" | "manufacturer" | "identifier" => &["C06"],
		"application" => &["C18"],
		"error code" => &["C19"],
		"dif" | "dife" => &["C09"],
		"vif" => &["C10", "C11"],
		"vife" | "plain text" => &["C11"],
		"lvar" | "lvar bcd" => &["C15"],
		"date" => &["C16"],
		"dst" => &["C17"],
		"data" => &["C08"],
		_ => &[],
	}
}

pub fn class_props(class: &str) -> &'static [&'static str] {
	match class {
		"data:int" | "data:real" | "data:none" => &["C12"],
		"data:bcd" => &["C14"],
		"data:lvar-int" => &["C12", "C15"],
		"data:lvar-text" | "data:lvar-bcd" | "data:lvar-giant" => &["C15"],
		"data:datetime-f" | "data:date-g" | "data:datetime-i" | "data:time-j" => &["C16"],
		"data:dst-k" => &["C17"],
		_ => &[],
	}
}

pub fn place_props(d: &Diff) -> Vec<&'static str> {
	let p = &d.path;
	let has = |k: &str| p.iter().any(|x| *x == k);
	let mut v: Vec<&'static str> = Vec::new();
	if has("error") {
		v.push("C19");
	}
	if let Some(class) = p.iter().find(|x| x.starts_with("data:")) {
		v.extend(class_props(class));
	} else if has("dib") {
		v.push("C09");
	} else if has("vifes") {
		v.push("C11");
	} else if has("vib") {
		if has("text") || d.expected.starts_with("PlainText") {
			v.push("C11");
		} else {
			v.push("C10");
			let e = &d.expected;
			let g = &d.got;
			let any = |w: &[&str]| w.iter().any(|w| e.contains(w) || g.contains(w));
			if any(&["DateTime", "TypeGDate", "TypeJTime", "TypeMDatetime", "Invalid(108)", "Invalid(109)"]) {
				v.push("C16");
			}
			if any(&["DSTTypeK", "Invalid(114)"]) {
				v.push("C17");
			}
		}
	} else if has("frame") || has("records") || has("more") || has("manufacturer_data") {
		v.push("C08");
	} else if has("device_name") {
		v.push("C07");
	} else if has("header") {
		v.push("C06");
		if p.last() == Some(&"header") {
			v.push("C05");
		}
	} else if has("application") {
		v.push("C18");
	} else if has("error") {
	} else if has("control") || has("address") {
		v.push("C04");
	} else if has("payload") || has("ci") || has("rate") || has("message") {
		v.push("C05");
	} else if p.is_empty() {
		if d.expected.starts_with("Ack") || d.expected.starts_with("Short") || d.expected.starts_with("Long") {
			v.push("C02");
		} else {
			v.push("C05");
		}
	}
	v
}

fn tree_classes(t: &T, out: &mut Vec<&'static str>) {
	match t {
		T::Node(_, f) => {
			for (k, v) in f {
				if k.starts_with("data:") {
					out.extend(class_props(k));
				}
				tree_classes(v, out);
			}
		}
		T::List(l) => l.iter().for_each(|t| tree_classes(t, out)),
		_ => (),
	}
}

pub fn judge(level: Level, data: &[u8]) -> Judged {
	let (out, notes, used) = match level {
		Level::Packet | Level::PacketSlice => {
			let (o, n) = model::packet(data);
			(o, n, data.len())
		}
		// What streams do with incomplete or surplus data is for the checks
		// that use these
		Level::PacketNext | Level::PacketPartial => {
			let (o, n) = model::packet(data);
			(o, n, data.len())
		}
		Level::Message => {
			let (o, n) = model::message(data);
			(o, n, data.len())
		}
		Level::Frame => {
			let (o, n) = model::frame(data);
			(o, n, data.len())
		}
		Level::Record => {
			let (o, used, _) = model::record(data);
			(o, Notes::default(), used)
		}
	};
	let obs = observe(level, data);
	let findings = compare(level, &out, used, &obs);
	Judged {
		obs,
		out,
		notes,
		used,
		findings,
	}
}

fn compare(level: Level, out: &Out, used: usize, obs: &Obs) -> Vec<Finding> {
	let mut f = Vec::new();
	match (out, obs) {
		(Out::Err(reason), Obs::Err { .. }) => {
			let _ = reason;
		}
		(Out::OkOrErr(_), Obs::Err { .. }) => (),
		(Out::Err(reason), Obs::Ok { tree, .. }) => f.push(Finding {
			props: reason_props(reason).to_vec(),
			accept: Accept::Yes,
			what: format!("should be refused ({reason}), got {}", clip(&tree.show(), 500)),
		}),
		(Out::Err(reason), Obs::Panic(m)) => f.push(Finding {
			props: [&["C01"], reason_props(reason)].concat(),
			accept: Accept::Yes,
			what: format!("should be refused ({reason}), but panicked: {m}"),
		}),
		(Out::Ok(t) | Out::OkOrErr(t), Obs::Panic(m)) => {
			let mut props = vec!["C01"];
			tree_classes(t, &mut props);
			f.push(Finding {
				props,
				accept: Accept::Yes,
				what: format!("panicked: {m}; should be {}", clip(&t.show(), 500)),
			})
		}
		(Out::Ok(t), Obs::Err { contexts, .. }) => {
			let mut props = Vec::new();
			if level == Level::Record {
				tree_classes(t, &mut props);
			}
			f.push(Finding {
				props,
				accept: Accept::Yes,
				what: format!("was refused with {contexts:?}, should be {}", clip(&t.show(), 500)),
			})
		}
		(Out::Ok(t) | Out::OkOrErr(t), Obs::Ok { tree, consumed }) => {
			let mut d = Vec::new();
			diff(t, tree, &mut Vec::new(), &mut d);
			for d in &d {
				f.push(Finding {
					props: place_props(d),
					accept: Accept::No,
					what: format!(
						"at {}: expected {}, got {}",
						d.path.join("."),
						clip(&d.expected, 400),
						clip(&d.got, 400)
					),
				});
			}
			if matches!(level, Level::Record | Level::Frame) && d.is_empty() && *consumed != used {
				let mut props = vec!["C08"];
				if level == Level::Record {
					tree_classes(t, &mut props);
				}
				f.push(Finding {
					props,
					accept: Accept::Yes,
					what: format!("used {consumed} bytes instead of {used}"),
				});
			}
		}
	}
	f
}
