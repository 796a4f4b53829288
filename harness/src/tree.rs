//! The neutral value tree that both the reference model and the observer of
//! the real decoder produce, and the comparison of the two.

use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
	/// An integer of any width or sign
	N(i128),
	/// The bits of an f32
	F(u32),
	S(String),
	B(Vec<u8>),
	Bool(bool),
	Unit,
	Node(&'static str, Vec<(&'static str, T)>),
	List(Vec<T>),
	/// Model only: any of these is right
	OneOf(Vec<T>),
	/// Model only: nothing is claimed about this part
	Any,
}

pub fn s(v: impl Into<String>) -> T {
	T::S(v.into())
}

pub fn n(v: impl TryInto<i128>) -> T {
	T::N(v.try_into().ok().expect("number fits"))
}

impl T {
	pub fn show(&self) -> String {
		let mut o = String::new();
		self.write(&mut o);
		o
	}

	fn write(&self, o: &mut String) {
		match self {
			T::N(v) => write!(o, "{v}").unwrap(),
			T::F(b) => write!(o, "f32:{b:08x}").unwrap(),
			T::S(v) => write!(o, "{v:?}").unwrap(),
			T::B(v) => {
				o.push_str("hex:");
				for b in v {
					write!(o, "{b:02x}").unwrap();
				}
			}
			T::Bool(v) => write!(o, "{v}").unwrap(),
			T::Unit => o.push_str("()"),
			T::Any => o.push('*'),
			T::Node(name, fields) => {
				o.push_str(name);
				o.push('{');
				for (i, (k, v)) in fields.iter().enumerate() {
					if i > 0 {
						o.push_str(", ");
					}
					write!(o, "{k}: ").unwrap();
					v.write(o);
				}
				o.push('}');
			}
			T::List(v) => {
				o.push('[');
				for (i, v) in v.iter().enumerate() {
					if i > 0 {
						o.push_str(", ");
					}
					v.write(o);
				}
				o.push(']');
			}
			T::OneOf(v) => {
				o.push_str("oneof(");
				for (i, v) in v.iter().enumerate() {
					if i > 0 {
						o.push_str(" | ");
					}
					v.write(o);
				}
				o.push(')');
			}
		}
	}

	pub fn get(&self, key: &str) -> Option<&T> {
		match self {
			T::Node(_, f) => f.iter().find(|(k, _)| *k == key).map(|(_, v)| v),
			_ => None,
		}
	}

	pub fn hash64(&self) -> u64 {
		fnv(self.show().as_bytes())
	}
}

pub fn fnv(data: &[u8]) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325_u64;
	for b in data {
		h ^= *b as u64;
		h = h.wrapping_mul(0x0000_0100_0000_01b3);
	}
	h ^ (h >> 29)
}

#[derive(Clone, Debug)]
pub struct Diff {
	/// Field names from the root down. Names come from the model.
	pub path: Vec<&'static str>,
	pub expected: String,
	pub got: String,
}

/// Whether `got` is what the model allows
pub fn matches(exp: &T, got: &T) -> bool {
	let mut v = Vec::new();
	diff(exp, got, &mut Vec::new(), &mut v);
	v.is_empty()
}

pub fn diff(exp: &T, got: &T, path: &mut Vec<&'static str>, out: &mut Vec<Diff>) {
	let report = |path: &[&'static str], out: &mut Vec<Diff>| {
		out.push(Diff {
			path: path.to_vec(),
			expected: exp.show(),
			got: got.show(),
		})
	};
	match (exp, got) {
		(T::Any, _) => (),
		(T::OneOf(alts), _) => {
			if !alts.iter().any(|a| matches(a, got)) {
				// Dive into a same-shaped alternative so the path is precise
				match (alts.first(), got) {
					(Some(a @ T::Node(an, af)), T::Node(gn, gf)) if an == gn && af.len() == gf.len() => {
						let before = out.len();
						diff(a, got, path, out);
						if out.len() == before {
							report(path, out);
						}
					}
					_ => report(path, out),
				}
			}
		}
		(T::Node(en, ef), T::Node(gn, gf)) => {
			if en != gn || ef.len() != gf.len() {
				return report(path, out);
			}
			for ((k, e), (_, g)) in ef.iter().zip(gf) {
				path.push(k);
				diff(e, g, path, out);
				path.pop();
			}
		}
		(T::List(e), T::List(g)) => {
			if e.len() != g.len() {
				path.push("#len");
				out.push(Diff {
					path: path.clone(),
					expected: format!("{} items: {}", e.len(), exp.show()),
					got: format!("{} items: {}", g.len(), got.show()),
				});
				path.pop();
				return;
			}
			for (e, g) in e.iter().zip(g) {
				diff(e, g, path, out);
			}
		}
		(e, g) => {
			if e != g {
				report(path, out)
			}
		}
	}
}
