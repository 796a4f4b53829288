//! Builds errors with the library's error type, by hand and through parsers,
//! and compares what they keep and tell with what was put into them.

use libmbus::parse::error::{MBusContext, MBusError};
use libmbus::parse::types::BitsInput;
use monitor::gen::Rng;
use monitor::obs::{guarded, Level};
use monitor::run::{clip, W};
use winnow::binary::bits;
use winnow::combinator::{alt, fail, opt, peek, preceded, repeat};
use winnow::error::{
	AddContext, ContextError, ErrMode, ErrorConvert, FromExternalError, ParserError, StrContext, StrContextValue,
};
use winnow::stream::Stream;
use winnow::token::take;
use winnow::{Bytes, Parser};

/// What an error has to keep
#[derive(Clone, PartialEq, Debug, Default)]
struct Kept {
	cause: Option<String>,
	contexts: Vec<MBusContext>,
}

#[derive(Clone, Debug)]
enum Ctx {
	/// In winnow's own words
	Str(StrContext),
	Ours(MBusContext),
}

impl Ctx {
	fn kept(&self) -> MBusContext {
		match self {
			Ctx::Ours(c) => c.clone(),
			Ctx::Str(StrContext::Label(v)) => MBusContext::Label(v),
			Ctx::Str(StrContext::Expected(v)) => MBusContext::Expected(v.clone()),
			Ctx::Str(other) => unreachable!("{other:?}"),
		}
	}
}

#[derive(Debug, Clone, PartialEq)]
struct Why(String);
impl std::fmt::Display for Why {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(&self.0)
	}
}
impl std::error::Error for Why {}

/// With a cause of its own, which is not told
#[derive(Debug)]
struct Because(String, Why);
impl std::fmt::Display for Because {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(&self.0)
	}
}
impl std::error::Error for Because {
	fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
		Some(&self.1)
	}
}

const WORDS: &[&str] = &[
	"", " ", "a", "b", "DIF", "DIFE", "dife", "record", "a record", "record ", " record", "invalid", "expected", "0",
	"long long long long long long long long long long long long long long long long long long long long text",
	"zwei\nZeilen", "tab\there", "naïve ☃", "{padding}", "%s", "\u{0}", "assertion failed: x",
];

fn word(r: &mut Rng) -> &'static str {
	r.pick(WORDS)
}

fn value(r: &mut Rng) -> StrContextValue {
	match r.below(4) {
		0 => StrContextValue::CharLiteral(*r.pick(&['\n', '`', '\0', '\u{1b}', 'x', '☃', ' '])),
		1 => StrContextValue::StringLiteral(word(r)),
		_ => StrContextValue::Description(word(r)),
	}
}

fn ctx(r: &mut Rng) -> Ctx {
	match r.below(7) {
		0 => Ctx::Str(StrContext::Label(word(r))),
		1 => Ctx::Str(StrContext::Expected(value(r))),
		2 | 3 => Ctx::Ours(MBusContext::Label(word(r))),
		4 => Ctx::Ours(MBusContext::ComputedLabel(format!("{} {}", word(r), r.below(4)))),
		5 => Ctx::Ours(MBusContext::Expected(value(r))),
		_ => Ctx::Ours(MBusContext::Assertion(word(r))),
	}
}

fn line(c: &MBusContext) -> (bool, String) {
	match c {
		MBusContext::Label(v) => (true, format!("invalid {v}")),
		MBusContext::ComputedLabel(v) => (true, format!("invalid {v}")),
		MBusContext::Assertion(v) => (true, format!("assertion failed: {v}")),
		MBusContext::Expected(v) => (false, format!("expected {v}")),
		_ => (false, String::new()),
	}
}

/// What an error has to say
fn text(k: &Kept) -> String {
	let mut out = String::new();
	if let Some(c) = &k.cause {
		out += c;
		out.push('\n');
	}
	let mut steps = 0_usize;
	for c in &k.contexts {
		let (step, words) = line(c);
		steps += usize::from(step);
		out += &" ".repeat(steps.saturating_sub(1));
		out += &words;
		out.push('\n');
	}
	out
}

/// Has no more room than this
struct Room(String, usize);
impl std::fmt::Write for Room {
	fn write_str(&mut self, s: &str) -> std::fmt::Result {
		if self.0.len() + s.len() > self.1 {
			return Err(std::fmt::Error);
		}
		self.0 += s;
		Ok(())
	}
}

/// Where the text does not fit, that has to be told
fn no_room(r: &mut Rng, e: &MBusError, want: &Kept) -> Result<(), String> {
	use std::fmt::Write;
	let say = text(want);
	let mut room = Room(String::new(), r.below(say.len() + 2));
	let wrote = write!(room, "{e}");
	if wrote.is_ok() != (room.1 >= say.len()) {
		return Err(format!("writes to {} bytes: {wrote:?}, its text being {say:?}", room.1));
	}
	if !say.starts_with(&room.0) {
		return Err(format!("writes {:?} to {} bytes, its text being {say:?}", room.0, room.1));
	}
	Ok(())
}

/// What an error keeps, and whether it tells it
fn check(e: &MBusError, want: &Kept) -> Result<(), String> {
	let got: Vec<&MBusContext> = e.context().collect();
	if got != want.contexts.iter().collect::<Vec<_>>() {
		return Err(format!("has the contexts {got:?} instead of {:?}", want.contexts));
	}
	let cause = e.cause().map(|c| c.to_string());
	if cause != want.cause {
		return Err(format!("has the cause {cause:?} instead of {:?}", want.cause));
	}
	let (said, say) = (e.to_string(), text(want));
	if said != say {
		return Err(format!("says {said:?} instead of {say:?}"));
	}
	for c in &want.contexts {
		if c.to_string() != line(c).1 {
			return Err(format!("the context {c:?} says {:?} instead of {:?}", c.to_string(), line(c).1));
		}
	}
	let debug = format!("{e:?}");
	for c in &want.contexts {
		if !debug.contains(&format!("{c:?}")) {
			return Err(format!("printed as {debug}, without {c:?}"));
		}
	}
	Ok(())
}

/// A way an error may take that leaves it as it is
fn way(r: &mut Rng, e: MBusError) -> MBusError {
	match r.below(9) {
		0 => ErrorConvert::<MBusError>::convert(e),
		1 => match ErrorConvert::<ErrMode<MBusError>>::convert(e) {
			ErrMode::Backtrack(e) => e,
			other => panic!("became {other:?}"),
		},
		2 => {
			let inner: ContextError<MBusContext> = ParserError::<&[u8]>::into_inner(e).expect("has an inner error");
			ErrorConvert::<MBusError>::convert(inner)
		}
		3 => e.clone(),
		4 => ParserError::<&[u8]>::into_inner(ErrMode::Cut(e)).expect("has an inner error").convert_back(),
		5 => ParserError::<&[u8]>::or(MBusError::new(), e),
		6 => {
			let input: &[u8] = &[1, 2];
			let start = input.checkpoint();
			e.append(&input, &start)
		}
		7 => std::mem::take(&mut { e }),
		_ => e,
	}
}

trait Back {
	fn convert_back(self) -> MBusError;
}
impl Back for ContextError<MBusContext> {
	fn convert_back(self) -> MBusError {
		self.convert()
	}
}
impl Back for MBusError {
	fn convert_back(self) -> MBusError {
		self
	}
}

fn add<I: Stream>(e: MBusError, input: I, c: &Ctx) -> MBusError {
	let start = input.checkpoint();
	match c {
		Ctx::Str(c) => e.add_context(&input, &start, c.clone()),
		Ctx::Ours(c) => e.add_context(&input, &start, c.clone()),
	}
}

fn made(r: &mut Rng) -> (MBusError, Kept) {
	let mut kept = Kept::default();
	let input: &[u8] = &[1, 2, 3];
	let mut e = match r.below(9) {
		// An assertion that fails, which is a panic in debug builds
		8 if !cfg!(debug_assertions) => {
			let what = word(r);
			kept.contexts.push(MBusContext::Assertion(what));
			MBusError::assert(&input, what)
		}
		0 => MBusError::new(),
		1 => MBusError::default(),
		2 => MBusError::from_input(&input),
		3 | 4 => {
			let why = Why(format!("{} {}", word(r), r.below(3)));
			kept.cause = Some(why.0.clone());
			if r.one_in(2) {
				MBusError::from_external_error(&input, why)
			} else {
				MBusError::from_external_error(&"text", Because(why.0, Why("deeper".into())))
			}
		}
		5 => {
			let mut e: ContextError<StrContext> = ContextError::new();
			for _ in 0..r.small(6) {
				let c = if r.one_in(2) { StrContext::Label(word(r)) } else { StrContext::Expected(value(r)) };
				kept.contexts.push(Ctx::Str(c.clone()).kept());
				e.push(c);
			}
			e.convert()
		}
		6 => {
			let mut e: ContextError<MBusContext> = if r.one_in(2) {
				let why = Why(word(r).to_owned());
				kept.cause = Some(why.0.clone());
				ContextError::from_external_error(&input, why)
			} else {
				ContextError::new()
			};
			for _ in 0..r.small(6) {
				let c = ctx(r).kept();
				kept.contexts.push(c.clone());
				e.push(c);
			}
			e.convert()
		}
		_ => ParserError::<&[u8]>::incomplete(&input, winnow::error::Needed::new(3)),
	};
	let n = if r.one_in(20) { r.range(40, 400) } else { r.small(12) };
	for _ in 0..n {
		let c = ctx(r);
		kept.contexts.push(c.kept());
		e = match r.below(4) {
			0 => add(e, "some text", &c),
			1 => add(e, Bytes::new(&[9, 8, 7]), &c),
			2 => add::<BitsInput>(e, (Bytes::new(&[9, 8, 7]), 3), &c),
			_ => add(e, input, &c),
		};
		if r.one_in(6) {
			e = way(r, e);
		}
	}
	(e, kept)
}

/// A parser that fails, made of winnow's combinators and this error type
#[derive(Clone, Debug)]
enum Spec {
	Fail,
	/// `try_map` that refuses with this
	Because(&'static str),
	Context(Box<Spec>, Ctx),
	Alt(Box<Spec>, Box<Spec>),
	After(usize, Box<Spec>),
	Peek(Box<Spec>),
	/// One that fails and does not matter, in front
	Opt(Box<Spec>, Box<Spec>),
	/// So often, then it fails
	Repeat(usize, Box<Spec>),
	Bits(Box<Spec>),
	/// In bits, whose errors are winnow's
	StrBits(Vec<StrContext>),
	OursBits(Vec<MBusContext>),
}

fn spec(r: &mut Rng, depth: usize, bits: bool) -> Spec {
	if depth == 0 {
		return match r.below(if bits { 2 } else { 4 }) {
			0 => Spec::Fail,
			1 => Spec::Because(word(r)),
			2 => Spec::StrBits(
				(0..r.small(5))
					.map(|_| if r.one_in(2) { StrContext::Label(word(r)) } else { StrContext::Expected(value(r)) })
					.collect(),
			),
			_ => Spec::OursBits((0..r.small(5)).map(|_| ctx(r).kept()).collect()),
		};
	}
	let next = |r: &mut Rng, bits| {
		let d = if r.one_in(5) { r.below(depth) } else { depth - 1 };
		Box::new(spec(r, d, bits))
	};
	match r.below(12) {
		0..=5 => Spec::Context(next(r, bits), ctx(r)),
		6 => Spec::Alt(next(r, bits), next(r, bits)),
		7 => Spec::After(r.below(3), next(r, bits)),
		8 => Spec::Peek(next(r, bits)),
		9 => Spec::Opt(next(r, bits), next(r, bits)),
		10 => Spec::Repeat(r.range(1, 3), next(r, bits)),
		_ if bits => Spec::Context(next(r, bits), ctx(r)),
		_ => Spec::Bits(next(r, true)),
	}
}

/// What is kept by the error of such a parser. There is always enough input.
fn fails(s: &Spec) -> Kept {
	match s {
		Spec::Fail => Kept::default(),
		Spec::Because(v) => Kept { cause: Some((*v).to_owned()), contexts: vec![] },
		Spec::Context(s, c) => {
			let mut k = fails(s);
			k.contexts.push(c.kept());
			k
		}
		Spec::Alt(_, s) | Spec::After(_, s) | Spec::Peek(s) | Spec::Opt(_, s) | Spec::Repeat(_, s) | Spec::Bits(s) => {
			fails(s)
		}
		Spec::StrBits(v) => {
			Kept { cause: None, contexts: v.iter().map(|c| Ctx::Str(c.clone()).kept()).collect() }
		}
		Spec::OursBits(v) => Kept { cause: None, contexts: v.clone() },
	}
}

type R<E = MBusError> = Result<(), E>;

macro_rules! shared {
	($run:ident, $input:ty, $take:expr) => {
		fn $run<'a>(s: &Spec, i: &mut $input) -> R {
			match s {
				Spec::Fail => fail.parse_next(i),
				Spec::Because(v) => $take(1).try_map(|_| Err(Why((*v).to_owned()))).parse_next(i),
				Spec::Context(s, Ctx::Str(c)) => (|i: &mut $input| $run(s, i)).context(c.clone()).parse_next(i),
				Spec::Context(s, Ctx::Ours(c)) => (|i: &mut $input| $run(s, i)).context(c.clone()).parse_next(i),
				Spec::Alt(a, b) => alt((|i: &mut $input| $run(a, i), |i: &mut $input| $run(b, i))).parse_next(i),
				Spec::After(n, s) => preceded($take(*n), |i: &mut $input| $run(s, i)).parse_next(i),
				Spec::Peek(s) => peek(|i: &mut $input| $run(s, i)).parse_next(i),
				Spec::Opt(a, b) => {
					(opt(|i: &mut $input| $run(a, i)), |i: &mut $input| $run(b, i)).void().parse_next(i)
				}
				Spec::Repeat(n, s) => {
					let mut left = *n;
					repeat::<_, (), (), MBusError, _>(n + 1, |i: &mut $input| {
						if left > 0 {
							left -= 1;
							$take(1).void().parse_next(i)
						} else {
							$run(s, i)
						}
					})
					.parse_next(i)
				}
				other => special(other, i),
			}
		}
	};
}

trait Special {
	fn special(&mut self, s: &Spec) -> R;
}
impl<'a> Special for &'a Bytes {
	fn special(&mut self, s: &Spec) -> R {
		match s {
			Spec::Bits(s) => bits::bits::<_, (), MBusError, MBusError, _>(|i: &mut BitsInput<'a>| in_bits(s, i)).parse_next(self),
			Spec::StrBits(v) => bits::bits::<_, (), ContextError<StrContext>, MBusError, _>(|i: &mut BitsInput<'a>| {
				let start = i.checkpoint();
				let e = v.iter().fold(ContextError::new(), |e, c| e.add_context(i, &start, c.clone()));
				R::Err(e)
			})
			.parse_next(self),
			Spec::OursBits(v) => bits::bits::<_, (), ContextError<MBusContext>, MBusError, _>(|i: &mut BitsInput<'a>| {
				let start = i.checkpoint();
				let e = v.iter().fold(ContextError::new(), |e, c| e.add_context(i, &start, c.clone()));
				R::Err(e)
			})
			.parse_next(self),
			other => unreachable!("{other:?}"),
		}
	}
}
impl Special for BitsInput<'_> {
	fn special(&mut self, s: &Spec) -> R {
		unreachable!("{s:?}")
	}
}
fn special(s: &Spec, i: &mut impl Special) -> R {
	i.special(s)
}

fn some_bits<'a>(n: usize) -> impl Parser<BitsInput<'a>, u8, MBusError> {
	bits::take(n)
}
fn some_bytes<'a>(n: usize) -> impl Parser<&'a Bytes, &'a [u8], MBusError> {
	take(n)
}

shared!(in_bytes, &'a Bytes, some_bytes);
shared!(in_bits, BitsInput<'a>, some_bits);

/// Two that differ in one place
fn other(r: &mut Rng, k: &Kept) -> Kept {
	let mut k = k.clone();
	match r.below(4) {
		0 => k.cause = if k.cause.is_some() && r.one_in(2) { None } else { Some(format!("another {}", word(r))) },
		1 if k.contexts.len() > 1 => {
			let at = r.below(k.contexts.len() - 1);
			k.contexts.swap(at, at + 1);
		}
		2 if !k.contexts.is_empty() => {
			let at = r.below(k.contexts.len());
			k.contexts.remove(at);
		}
		_ if !k.contexts.is_empty() => {
			let at = r.below(k.contexts.len());
			k.contexts[at] = ctx(r).kept();
		}
		_ => k.contexts.push(ctx(r).kept()),
	}
	k
}

fn anew(k: &Kept) -> MBusError {
	let input: &[u8] = &[];
	let e = match &k.cause {
		Some(c) => MBusError::from_external_error(&input, Why(c.clone())),
		None => MBusError::new(),
	};
	k.contexts.iter().fold(e, |e, c| add(e, input, &Ctx::Ours(c.clone())))
}

pub fn errors(w: &mut W) {
	for _ in 0..w.n(60_000, 20) {
		if w.stopped() {
			return;
		}
		// By hand
		let got = guarded(|| {
			let (e, kept) = made(&mut w.r);
			(check(&e, &kept).and_then(|()| no_room(&mut w.r, &e, &kept)), e, kept)
		});
		let (verdict, e, kept) = match got {
			Err(p) => return w.violate(None, &[], format!("building an error panicked: {p}")),
			Ok(v) => v,
		};
		let key = format!("{kept:?}");
		if let Err(what) = verdict {
			return w.violate(None, &[key.as_bytes()], format!("an error made of {} {}", clip(&key, 500), clip(&what, 1500)));
		}
		w.count("errors built by hand, with all that was put in");
		w.count_n("contexts kept", kept.contexts.len() as u64);
		w.max("contexts in one error", kept.contexts.len() as u64);
		if kept.cause.is_some() {
			w.count("causes kept");
		}
		w.evaluated(Level::Message, key.as_bytes(), !kept.contexts.is_empty() || kept.cause.is_some(), &|| {
			format!("{} says {:?}", clip(&key, 150), clip(&e.to_string(), 150))
		});
		// And compared
		let same = anew(&kept);
		let differs = other(&mut w.r, &kept);
		let twin = anew(&differs);
		let equal = |a: &MBusError, b: &MBusError| a == b && b == a && a.clone() == *b;
		if !equal(&e, &same) || !equal(&e, &e.clone()) {
			return w.violate(None, &[key.as_bytes()], format!("two errors made of {} differ", clip(&key, 500)));
		}
		if (kept != differs) == equal(&e, &twin) || (kept != differs) == (e == twin) {
			return w.violate(
				None,
				&[key.as_bytes()],
				format!("errors made of {} and of {} compare wrong", clip(&key, 500), clip(&format!("{differs:?}"), 500)),
			);
		}
		w.count("errors compared");
		// By parsers
		let depth = w.r.below(8);
		let s = spec(&mut w.r, depth, false);
		let key = format!("{s:?}");
		let input = [0xA5_u8; 64];
		let want = fails(&s);
		let got = guarded(|| {
			let mut i = Bytes::new(&input);
			in_bytes(&s, &mut i)
		});
		let bad = match &got {
			Err(p) => Some(format!("panicked: {p}")),
			Ok(Ok(())) => Some("did not fail".to_owned()),
			Ok(Err(e)) => check(e, &want).err(),
		};
		if let Some(what) = bad {
			return w.violate(None, &[key.as_bytes()], format!("the parser {} {}", clip(&key, 800), clip(&what, 1500)));
		}
		// From the outside, as a user gets it
		let outer = guarded(|| (|i: &mut &Bytes| in_bytes(&s, i)).parse(Bytes::new(&input)));
		match outer {
			Err(p) => return w.violate(None, &[key.as_bytes()], format!("the parser {} panicked: {p}", clip(&key, 800))),
			Ok(Ok(())) => return w.violate(None, &[key.as_bytes()], format!("the parser {} did not fail", clip(&key, 800))),
			Ok(Err(e)) => {
				let e: MBusError = e.into_inner().convert_back();
				if let Err(what) = check(&e, &want) {
					return w.violate(None, &[key.as_bytes()], format!("the parser {} run to the end {}", clip(&key, 800), clip(&what, 1500)));
				}
			}
		}
		w.count("errors of parsers, with all that they put in");
		w.evaluated(Level::Message, key.as_bytes(), !want.contexts.is_empty() || want.cause.is_some(), &|| {
			format!("{} says {:?}", clip(&key, 150), clip(&text(&want), 150))
		});
	}
}

pub const FLOORS: &[(&str, u64)] = &[
	("errors built by hand, with all that was put in", 50_000),
	("errors compared", 50_000),
	("errors of parsers, with all that they put in", 50_000),
	("contexts kept", 200_000),
	("causes kept", 10_000),
];

pub const RULE: &str = "errors built by hand (new, default, from input, from an external error, from winnow's errors, then any contexts, by way of conversions, copies and modes) and by parsers of winnow's combinators over bytes and bits; non-trivial: with a context or cause. Oracle: what was put in";
