//! The observation boundary: runs the real decoder and turns what it returns
//! into the neutral tree. Everything the monitors see passes through here.

use std::panic::{catch_unwind, AssertUnwindSafe};

use libmbus::parse::application_layer::application::ApplicationErrorMessage;
use libmbus::parse::application_layer::dib::{DataInfoBlock, RawDataType};
use libmbus::parse::application_layer::frame::Frame;
use libmbus::parse::application_layer::record::Record;
use libmbus::parse::application_layer::vib::{ValueInfoBlock, ValueType};
use libmbus::parse::error::MBusError;
use libmbus::parse::link_layer::{Control, Packet};
use libmbus::parse::transport_layer::header::{MeterStatus, SecurityMode, TPLHeader};
use libmbus::parse::transport_layer::MBusMessage;
use libmbus::parse::types::DataType;
use winnow::error::ErrMode;
use winnow::stream::{Offset, Stream, StreamIsPartial};
use winnow::{Bytes, LocatingSlice, Parser, Partial, Stateful};

use crate::tree::{n, s, T};

#[derive(Clone, Debug)]
pub enum Obs {
	Ok {
		tree: T,
		consumed: usize,
	},
	Err {
		/// Every context of the error, innermost first, as displayed
		contexts: Vec<String>,
		display: String,
		/// The error underneath, if there is one
		cause: Option<String>,
		/// Only from partial streams: more data wanted (and how much, if known)
		incomplete: Option<Option<usize>>,
	},
	Panic(String),
}

impl Obs {
	pub fn is_ok(&self) -> bool {
		matches!(self, Obs::Ok { .. })
	}
	pub fn tree(&self) -> Option<&T> {
		match self {
			Obs::Ok { tree, .. } => Some(tree),
			_ => None,
		}
	}
	/// Everything there is to see, including the exact error text
	pub fn all(&self) -> String {
		match self {
			Obs::Err {
				display,
				cause,
				incomplete: None,
				..
			} => format!("{} {display:?} {cause:?}", self.show()),
			_ => self.show(),
		}
	}
	pub fn show(&self) -> String {
		match self {
			Obs::Ok { tree, consumed } => format!("Ok(consumed {consumed}) {}", tree.show()),
			Obs::Err { incomplete: Some(i), .. } => format!("Incomplete({i:?})"),
			Obs::Err { contexts, .. } => format!("Err{contexts:?}"),
			Obs::Panic(m) => format!("PANIC {m}"),
		}
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Level {
	/// The whole datagram, all of it required to be used
	Packet,
	/// As above but from a plain byte slice
	PacketSlice,
	/// The first packet of a buffer
	PacketNext,
	/// The first packet of a partial (streaming) buffer
	PacketPartial,
	/// What is inside a long frame after the address
	Message,
	/// Records of a response
	Frame,
	Record,
}

impl Level {
	pub fn name(self) -> &'static str {
		match self {
			Level::Packet => "packet",
			Level::PacketSlice => "packet-slice",
			Level::PacketNext => "packet-next",
			Level::PacketPartial => "packet-partial",
			Level::Message => "message",
			Level::Frame => "frame",
			Level::Record => "record",
		}
	}
	pub fn from_name(v: &str) -> Option<Level> {
		use Level::*;
		[Packet, PacketSlice, PacketNext, PacketPartial, Message, Frame, Record]
			.into_iter()
			.find(|l| l.name() == v)
	}
}

fn err_obs(e: &MBusError) -> Obs {
	Obs::Err {
		contexts: e.context().map(|c| c.to_string()).collect(),
		display: e.to_string(),
		cause: e.cause().map(|c| c.to_string()),
		incomplete: None,
	}
}

thread_local! {
	static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Remember panics instead of printing them
pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|info| {
		let text = info.to_string();
		LAST_PANIC.with(|l| *l.borrow_mut() = text.replace('\n', " "));
	}));
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

fn guard(f: impl FnOnce() -> Obs) -> Obs {
	guarded(f).unwrap_or_else(Obs::Panic)
}

pub fn observe(level: Level, data: &[u8]) -> Obs {
	match level {
		Level::Packet => guard(|| match Packet::parse.parse(Bytes::new(data)) {
			Ok(p) => Obs::Ok {
				tree: packet(&p),
				consumed: data.len(),
			},
			Err(e) => err_obs(&e.into_inner()),
		}),
		Level::PacketSlice => guard(|| match Packet::parse.parse(data) {
			Ok(p) => Obs::Ok {
				tree: packet(&p),
				consumed: data.len(),
			},
			Err(e) => err_obs(&e.into_inner()),
		}),
		Level::PacketNext => guard(|| {
			let mut input = data;
			match Packet::parse.parse_next(&mut input) {
				Ok(p) => Obs::Ok {
					tree: packet(&p),
					consumed: data.len() - input.len(),
				},
				Err(ErrMode::Backtrack(e) | ErrMode::Cut(e)) => err_obs(&e),
				Err(ErrMode::Incomplete(_)) => Obs::Err {
					contexts: vec![],
					display: String::new(),
					cause: None,
					incomplete: Some(None),
				},
			}
		}),
		Level::PacketPartial => guard(|| {
			let mut input = Partial::new(data);
			let start = input;
			match Packet::parse.parse_next(&mut input) {
				Ok(p) => Obs::Ok {
					tree: packet(&p),
					consumed: input.offset_from(&start),
				},
				Err(ErrMode::Backtrack(e) | ErrMode::Cut(e)) => err_obs(&e),
				Err(ErrMode::Incomplete(needed)) => Obs::Err {
					contexts: vec![],
					display: String::new(),
					cause: None,
					incomplete: Some(match needed {
						winnow::error::Needed::Unknown => None,
						winnow::error::Needed::Size(v) => Some(v.get()),
					}),
				},
			}
		}),
		Level::Message => guard(|| {
			let mut input = Bytes::new(data);
			match MBusMessage::parse(&mut input) {
				Ok(v) => Obs::Ok {
					tree: message(&v),
					consumed: data.len() - input.len(),
				},
				Err(e) => err_obs(&e),
			}
		}),
		Level::Frame => guard(|| {
			let mut input = Bytes::new(data);
			match Frame::parse(&mut input) {
				Ok(v) => Obs::Ok {
					tree: frame(&v),
					consumed: data.len() - input.len(),
				},
				Err(e) => err_obs(&e),
			}
		}),
		Level::Record => guard(|| {
			let mut input = Bytes::new(data);
			match Record::parse(&mut input) {
				Ok(v) => Obs::Ok {
					tree: record(&v),
					consumed: data.len() - input.len(),
				},
				Err(e) => err_obs(&e),
			}
		}),
	}
}

/// The first packet of every other kind of input stream, each to be the same as
/// of the plain buffer named
pub fn observe_streams(data: &[u8]) -> Vec<(&'static str, Level, Obs)> {
	fn one<'i, I>(mut input: I, len: usize) -> Obs
	where
		I: StreamIsPartial + Stream<Token = u8, Slice = &'i [u8]> + winnow::stream::Compare<u8> + Clone,
	{
		guard(|| match Packet::parse.parse_next(&mut input) {
			Ok(p) => Obs::Ok {
				tree: packet(&p),
				consumed: len - input.eof_offset(),
			},
			Err(ErrMode::Backtrack(e) | ErrMode::Cut(e)) => err_obs(&e),
			Err(ErrMode::Incomplete(needed)) => Obs::Err {
				contexts: vec![],
				display: String::new(),
				cause: None,
				incomplete: Some(match needed {
					winnow::error::Needed::Unknown => None,
					winnow::error::Needed::Size(v) => Some(v.get()),
				}),
			},
		})
	}
	let n = data.len();
	let bytes = Bytes::new(data);
	let state = |input| Stateful { input, state: 5_u8 };
	let mut finished = Partial::new(data);
	let _ = finished.complete();
	vec![
		("Bytes", Level::PacketNext, one(bytes, n)),
		("LocatingSlice", Level::PacketNext, one(LocatingSlice::new(data), n)),
		("LocatingSlice of Bytes", Level::PacketNext, one(LocatingSlice::new(bytes), n)),
		("Stateful", Level::PacketNext, one(state(data), n)),
		("a finished Partial", Level::PacketNext, one(finished, n)),
		("Partial of Bytes", Level::PacketPartial, one(Partial::new(bytes), n)),
		("Partial of LocatingSlice", Level::PacketPartial, one(Partial::new(LocatingSlice::new(data)), n)),
		("Stateful of Partial", Level::PacketPartial, one(Stateful { input: Partial::new(data), state: "x" }, n)),
	]
}

/// What debug formatting makes of the result
pub fn debug(level: Level, data: &[u8], pretty: bool) -> Result<String, String> {
	fn text(v: impl std::fmt::Debug, pretty: bool) -> String {
		if pretty {
			format!("{v:#?}")
		} else {
			format!("{v:?}")
		}
	}
	guarded(|| match level {
		Level::Packet => text(Packet::parse.parse(Bytes::new(data)).map_err(|e| e.into_inner()), pretty),
		Level::PacketSlice => text(Packet::parse.parse(data).map_err(|e| e.into_inner()), pretty),
		Level::PacketNext => text(Packet::parse.parse_next(&mut { data }), pretty),
		Level::PacketPartial => text(Packet::parse.parse_next(&mut Partial::new(data)), pretty),
		Level::Message => text(MBusMessage::parse(&mut Bytes::new(data)), pretty),
		Level::Frame => text(Frame::parse(&mut Bytes::new(data)), pretty),
		Level::Record => text(Record::parse(&mut Bytes::new(data)), pretty),
	})
}

pub const LEVELS: [Level; 7] = [
	Level::Packet,
	Level::PacketSlice,
	Level::PacketNext,
	Level::PacketPartial,
	Level::Message,
	Level::Frame,
	Level::Record,
];

/// Things that should be the same and are not: copies of headers and errors,
/// data values compared with themselves, by what they print. The number of
/// comparisons made comes first.
pub fn copies(level: Level, data: &[u8]) -> Result<(u64, Vec<String>), String> {
	fn same(bad: &mut Vec<String>, done: &mut u64, what: &str, a: &impl std::fmt::Debug, b: &impl std::fmt::Debug) {
		*done += 1;
		let (a, b) = (format!("{a:?}"), format!("{b:?}"));
		if a != b {
			bad.push(format!("the copy of {what} prints {b} instead of {a}"));
		}
	}
	fn err(bad: &mut Vec<String>, done: &mut u64, e: &MBusError, again: Option<MBusError>) {
		let copy = e.clone();
		// (a copy keeps the cause as text only, so debug text may differ)
		*done += 1;
		if e.to_string() != copy.to_string() {
			bad.push(format!("the copy of an error says {copy} instead of {e}"));
		}
		if *e != copy {
			bad.push(format!("an error is not equal to its copy: {e:?}"));
		}
		if let Some(again) = again {
			*done += 1;
			if again != *e {
				bad.push(format!("the same bytes give different errors: {e:?} and {again:?}"));
			}
		}
	}
	fn value(bad: &mut Vec<String>, done: &mut u64, a: &DataType, b: &DataType) {
		*done += 1;
		let real = |v: &DataType| matches!(v, DataType::Real(v) if v.is_nan());
		let equal = tree_eq(a, b);
		#[allow(clippy::nonminimal_bool)]
		if !real(a) && !real(b) && ((a == b) != equal || (b == a) != equal) {
			bad.push(format!("{a:?} and {b:?} compare as {}", a == b));
		}
	}
	fn tree_eq(a: &DataType, b: &DataType) -> bool {
		// Signed zeros are equal
		match (a, b) {
			(DataType::Real(a), DataType::Real(b)) => a == b,
			_ => self::data(a) == self::data(b),
		}
	}
	fn records(bad: &mut Vec<String>, done: &mut u64, a: &Frame, b: &Frame) {
		for (i, r) in a.records.iter().enumerate() {
			if let Some(same) = b.records.get(i) {
				value(bad, done, &r.data, &same.data);
			}
			if let Some(other) = b.records.get(i + 1) {
				value(bad, done, &r.data, &other.data);
			}
		}
	}
	fn messages(bad: &mut Vec<String>, done: &mut u64, a: &MBusMessage, b: &MBusMessage) {
		use MBusMessage as M;
		match a {
			M::ResponseFromDevice(h, _)
			| M::ApplicationReset(h)
			| M::ApplicationSelect(h, _)
			| M::CommandToDevice(h, _)
			| M::Dlms(_, h, _)
			| M::ApplicationErrorFromDevice(h, _)
			| M::AlarmFromDevice(h, _) => same(bad, done, "a header", h, &h.clone()),
			_ => (),
		}
		if let (M::ResponseFromDevice(_, a), M::ResponseFromDevice(_, b)) = (a, b) {
			records(bad, done, a, b);
		}
	}
	guarded(|| {
		let mut bad = Vec::new();
		let mut done = 0;
		let (b, d) = (&mut bad, &mut done);
		match level {
			Level::Message => {
				let get = || MBusMessage::parse(&mut Bytes::new(data));
				match (get(), get()) {
					(Ok(x), Ok(y)) => messages(b, d, &x, &y),
					(Err(x), y) => err(b, d, &x, y.err()),
					_ => (),
				}
			}
			Level::Frame => {
				let get = || Frame::parse(&mut Bytes::new(data));
				match (get(), get()) {
					(Ok(x), Ok(y)) => records(b, d, &x, &y),
					(Err(x), y) => err(b, d, &x, y.err()),
					_ => (),
				}
			}
			Level::Record => {
				let get = || Record::parse(&mut Bytes::new(data));
				match (get(), get()) {
					(Ok(x), Ok(y)) => value(b, d, &x.data, &y.data),
					(Err(x), y) => err(b, d, &x, y.err()),
					_ => (),
				}
			}
			_ => {
				let get = || Packet::parse.parse(Bytes::new(data)).map_err(|e| e.into_inner());
				match (get(), get()) {
					(Ok(Packet::Long { message: x, .. }), Ok(Packet::Long { message: y, .. })) => messages(b, d, &x, &y),
					(Err(x), y) => err(b, d, &x, y.err()),
					_ => (),
				}
			}
		}
		(done, bad)
	})
}

/// Whether the data of two records compares as equal, and what is wrong with
/// that; nothing if one of them does not decode or is no number
#[allow(clippy::type_complexity)]
pub fn compared(a: &[u8], b: &[u8]) -> Result<Option<(bool, Option<String>)>, String> {
	guarded(|| {
		let get = |d: &[u8]| Record::parse(&mut Bytes::new(d)).ok();
		let (Some(a), Some(b)) = (get(a), get(b)) else { return None };
		let (a, b) = (a.data, b.data);
		let nan = |v: &DataType| matches!(v, DataType::Real(v) if v.is_nan());
		if nan(&a) || nan(&b) {
			return None;
		}
		let want = match (&a, &b) {
			// Signed zeros are equal
			(DataType::Real(a), DataType::Real(b)) => a == b,
			_ => data(&a) == data(&b),
		};
		#[allow(clippy::nonminimal_bool)]
		let inner = |x: bool, y: bool| x == want && y == want;
		let fine = inner(a == b, b == a)
			&& inner(!(a != b), !(b != a))
			&& match (&a, &b) {
				(DataType::DateTimeF(a), DataType::DateTimeF(b)) => inner(a == b, b == a),
				(DataType::DateTimeI(a), DataType::DateTimeI(b)) => inner(a == b, b == a),
				(DataType::Date(a), DataType::Date(b)) => inner(a == b, b == a),
				(DataType::Time(a), DataType::Time(b)) => inner(a == b, b == a),
				(DataType::DST(a), DataType::DST(b)) => inner(a == b, b == a),
				_ => true,
			};
		Some((want, (!fine).then(|| format!("{a:?} and {b:?} should compare as {want}"))))
	})
}

/// The error of the decoder itself, if it refuses
fn refusal(level: Level, data: &[u8]) -> Option<MBusError> {
	match level {
		Level::Message => MBusMessage::parse(&mut Bytes::new(data)).err(),
		Level::Frame => Frame::parse(&mut Bytes::new(data)).err(),
		Level::Record => Record::parse(&mut Bytes::new(data)).err(),
		Level::PacketPartial => match Packet::parse.parse_next(&mut Partial::new(data)) {
			Err(ErrMode::Backtrack(e) | ErrMode::Cut(e)) => Some(e),
			_ => None,
		},
		_ => match Packet::parse.parse_next(&mut { data }) {
			Err(ErrMode::Backtrack(e) | ErrMode::Cut(e)) => Some(e),
			_ => None,
		},
	}
}

/// Whether the errors of two inputs compare as equal, and what is wrong with
/// that; nothing if one of them is no error
#[allow(clippy::type_complexity)]
pub fn refusals_compared(a: (Level, &[u8]), b: (Level, &[u8])) -> Result<Option<(bool, Option<String>)>, String> {
	guarded(|| {
		let (Some(a), Some(b)) = (refusal(a.0, a.1), refusal(b.0, b.1)) else { return None };
		let made_of = |e: &MBusError| {
			(
				e.cause().map(|c| c.to_string()),
				e.context().map(|c| format!("{c:?}")).collect::<Vec<_>>(),
			)
		};
		let want = made_of(&a) == made_of(&b);
		let got = a == b;
		let back = b == a;
		#[allow(clippy::nonminimal_bool)]
		let odd = got != want || back != want || (a != b) == got;
		Some((got, odd.then(|| format!("the errors {a} and {b} compare as {got}, the other way round as {back}"))))
	})
}

/// Run the decoder and drop the result without building a tree
pub fn run_only(level: Level, data: &[u8]) -> bool {
	match level {
		Level::Packet => Packet::parse.parse(Bytes::new(data)).is_ok(),
		Level::PacketSlice => Packet::parse.parse(data).is_ok(),
		Level::PacketNext => {
			let mut i = data;
			Packet::parse.parse_next(&mut i).is_ok()
		}
		Level::PacketPartial => {
			let mut i = Partial::new(data);
			Packet::parse.parse_next(&mut i).is_ok()
		}
		Level::Message => MBusMessage::parse(&mut Bytes::new(data)).is_ok(),
		Level::Frame => Frame::parse(&mut Bytes::new(data)).is_ok(),
		Level::Record => Record::parse(&mut Bytes::new(data)).is_ok(),
	}
}

/// As `run_only`, keeping the result (or error) alive inside the closure
pub fn run_holding<R>(level: Level, data: &[u8], f: impl FnOnce() -> R) -> R {
	match level {
		Level::Message => {
			let _v = MBusMessage::parse(&mut Bytes::new(data));
			f()
		}
		Level::Frame => {
			let _v = Frame::parse(&mut Bytes::new(data));
			f()
		}
		Level::Record => {
			let _v = Record::parse(&mut Bytes::new(data));
			f()
		}
		_ => {
			let mut i = data;
			let _v = Packet::parse.parse_next(&mut i);
			f()
		}
	}
}

/// The pretty text the command line tool prints for a datagram
pub fn pretty(data: &[u8]) -> Result<String, String> {
	match Packet::parse.parse(Bytes::new(data)) {
		Ok(p) => Ok(format!("{p:#?}")),
		Err(e) => Err(format!("{}", e.into_inner())),
	}
}

pub fn read_file(name: &str) -> Result<Result<Vec<u8>, String>, String> {
	guarded(|| libmbus::utils::read_test_file(name).map_err(|e| e.to_string()))
}

fn packet(p: &Packet) -> T {
	match p {
		Packet::Ack => T::Node("Ack", vec![]),
		Packet::Short { control: c, address } => T::Node(
			"Short",
			vec![("control", control(c)), ("address", n(*address))],
		),
		Packet::Long {
			control: c,
			address,
			message: m,
		} => T::Node(
			"Long",
			vec![
				("control", control(c)),
				("address", n(*address)),
				("message", message(m)),
			],
		),
	}
}

fn control(c: &Control) -> T {
	match c {
		Control::Primary {
			frame_count_bit,
			message,
		} => T::Node(
			"Primary",
			vec![
				("fcb", T::Bool(*frame_count_bit)),
				("function", s(format!("{message:?}"))),
			],
		),
		Control::Secondary {
			access_demand,
			data_flow_control,
			message,
		} => T::Node(
			"Secondary",
			vec![
				("acd", T::Bool(*access_demand)),
				("dfc", s(format!("{data_flow_control:?}"))),
				("function", s(format!("{message:?}"))),
			],
		),
	}
}

/// What is bytes or text is taken as that however it is kept, anything else as
/// what it prints
struct Seen<'a, X: ?Sized>(&'a X);

trait AsText {
	fn seen(&self) -> T;
}
trait AsBytes {
	fn seen(&self) -> T;
}
#[allow(dead_code)]
trait AsPrinted {
	fn seen(&self) -> T;
}
impl<X: AsRef<str> + ?Sized> AsText for &&Seen<'_, X> {
	fn seen(&self) -> T {
		s(self.0.as_ref())
	}
}
impl<X: AsRef<[u8]> + ?Sized> AsBytes for &Seen<'_, X> {
	fn seen(&self) -> T {
		T::B(self.0.as_ref().to_vec())
	}
}
impl<X: std::fmt::Debug + ?Sized> AsPrinted for Seen<'_, X> {
	fn seen(&self) -> T {
		T::Node("Printed", vec![("debug", s(format!("{:?}", self.0)))])
	}
}

macro_rules! payload {
	($v:expr) => {
		(&&&Seen($v)).seen()
	};
}

pub fn message(m: &MBusMessage) -> T {
	use MBusMessage as M;
	match m {
		M::ApplicationReset(h) => T::Node("ApplicationReset", vec![("header", header(h))]),
		M::ApplicationSelect(h, a) => T::Node(
			"ApplicationSelect",
			vec![("header", header(h)), ("application", application(a))],
		),
		M::SelectedApplicationRequest(h) => {
			T::Node("SelectedApplicationRequest", vec![("header", header(h))])
		}
		M::SelectedApplicationResponse(h, a) => T::Node(
			"SelectedApplicationResponse",
			vec![("header", header(h)), ("application", application(a))],
		),
		M::SelectionOfDevice(p) => T::Node("SelectionOfDevice", vec![("payload", payload!(p))]),
		M::SetBaudRate(r) => T::Node("SetBaudRate", vec![("rate", s(format!("{r:?}")))]),
		M::SynchroniseAction => T::Node("SynchroniseAction", vec![]),
		M::TimeAdjustmentToDevice(h, p) => with_payload("TimeAdjustmentToDevice", h, p),
		M::TimeSyncToDevice(h, p) => with_payload("TimeSyncToDevice", h, p),
		M::AlarmFromDevice(h, p) => with_payload("AlarmFromDevice", h, p),
		M::ApplicationErrorFromDevice(h, e) => T::Node(
			"ApplicationErrorFromDevice",
			vec![("header", header(h)), ("error", app_error(e))],
		),
		M::CommandToDevice(h, p) => with_payload("CommandToDevice", h, p),
		M::ResponseFromDevice(h, f) => T::Node(
			"ResponseFromDevice",
			vec![("header", header(h)), ("frame", frame(f))],
		),
		M::AuthenticationAndFrgamentation(p) => {
			T::Node("AuthenticationAndFragmentation", vec![("payload", payload!(p))])
		}
		M::Dlms(ci, h, p) => with_ci("Dlms", *ci, h, p),
		M::ImageTransfer(ci, h, p) => with_ci("ImageTransfer", *ci, h, p),
		M::ManufacturerSpecific(ci, p) => T::Node(
			"ManufacturerSpecific",
			vec![("ci", n(*ci)), ("payload", payload!(p))],
		),
		M::SecurityTransfer(ci, h, p) => with_ci("SecurityTransfer", *ci, h, p),
		M::SpecificUsage(ci, h, p) => with_ci("SpecificUsage", *ci, h, p),
		M::Wireless(ci, h) => T::Node("Wireless", vec![("ci", n(*ci)), ("header", header(h))]),
	}
}

fn with_payload(name: &'static str, h: &TPLHeader, p: &[u8]) -> T {
	T::Node(name, vec![("header", header(h)), ("payload", payload!(p))])
}

fn with_ci(name: &'static str, ci: u8, h: &TPLHeader, p: &[u8]) -> T {
	T::Node(
		name,
		vec![("ci", n(ci)), ("header", header(h)), ("payload", payload!(p))],
	)
}

/// The fields of an ApplicationMessage are private, what it prints is not
pub fn application(a: &(impl std::fmt::Debug + ?Sized)) -> T {
	let text = format!("{a:?}");
	let inner = text
		.split_once('{')
		.map(|(_, r)| r.trim_end().trim_end_matches('}'))
		.unwrap_or(&text);
	// Whichever of the two is the number
	let (mut app, mut block) = (String::new(), String::new());
	for v in inner.split(", ").filter_map(|f| f.split_once(": ").map(|(_, v)| v.trim())) {
		if block.is_empty() && v.parse::<i128>().is_ok() {
			block = v.to_owned();
		} else if app.is_empty() {
			app = v.to_owned();
		}
	}
	T::Node(
		"Application",
		vec![
			("application", s(app)),
			(
				"block",
				block.parse::<i128>().map(T::N).unwrap_or_else(|_| s(text)),
			),
		],
	)
}

pub fn app_error(e: &ApplicationErrorMessage) -> T {
	match e {
		ApplicationErrorMessage::DynamicError(r) => {
			T::Node("DynamicError", vec![("record", record(r))])
		}
		ApplicationErrorMessage::ManufacturerSpecific(code, data) => T::Node(
			"ManufacturerSpecific",
			vec![("code", n(*code)), ("payload", payload!(data))],
		),
		other => T::Node("Code", vec![("name", s(format!("{other:?}")))]),
	}
}

fn status(v: &MeterStatus) -> T {
	T::Node(
		"Status",
		vec![
			("manufacturer_2", T::Bool(v.manufacturer_2)),
			("manufacturer_1", T::Bool(v.manufacturer_1)),
			("manufacturer_0", T::Bool(v.manufacturer_0)),
			("temporary_error", T::Bool(v.temporary_error)),
			("permanent_error", T::Bool(v.permanent_error)),
			("power_low", T::Bool(v.power_low)),
			("application", s(format!("{:?}", v.application))),
		],
	)
}

fn security(v: &SecurityMode) -> T {
	match v {
		SecurityMode::None => T::Node("None", vec![]),
		SecurityMode::Reserved(raw) => T::Node("Reserved", vec![("raw", n(*raw))]),
		#[allow(unreachable_patterns)]
		other => T::Node("Other", vec![("debug", s(format!("{other:?}")))]),
	}
}

pub fn header(h: &TPLHeader) -> T {
	match h {
		TPLHeader::None => T::Node("NoHeader", vec![]),
		TPLHeader::Short(h) => T::Node(
			"ShortHeader",
			vec![
				("access_number", n(h.access_number)),
				("status", status(&h.status)),
				("configuration", security(&h.configuration_field)),
				("extra", T::Bool(h.extra_header.is_some())),
			],
		),
		TPLHeader::Long(h) => T::Node(
			"LongHeader",
			vec![
				("identifier", n(h.identifier)),
				("manufacturer", s(&*h.manufacturer)),
				(
					"device_name",
					h.device_name.map(s).unwrap_or(T::Unit),
				),
				("version", n(h.version)),
				("device_type", s(format!("{:?}", h.device_type))),
				("access_number", n(h.access_number)),
				("status", status(&h.status)),
				("configuration", security(&h.configuration_field)),
				("extra", T::Bool(h.extra_header.is_some())),
			],
		),
	}
}

pub fn frame(f: &Frame) -> T {
	T::Node(
		"Frame",
		vec![
			("records", T::List(f.records.iter().map(record).collect())),
			("more", T::Bool(f.more_data_follows)),
			("manufacturer_data", payload!(&f.manufacturer_specific)),
		],
	)
}

pub fn record(r: &Record) -> T {
	T::Node(
		"Record",
		vec![
			("dib", dib(&r.dib)),
			("vib", vib(&r.vib)),
			("data", data(&r.data)),
		],
	)
}

pub fn dib(d: &DataInfoBlock) -> T {
	let raw = match d.raw_type {
		RawDataType::None => "None".to_owned(),
		RawDataType::Binary(v) => format!("Binary({v})"),
		RawDataType::Real => "Real".to_owned(),
		RawDataType::BCD(v) => format!("BCD({v})"),
		RawDataType::LVAR => "LVAR".to_owned(),
		#[allow(unreachable_patterns)]
		ref other => format!("{other:?}"),
	};
	T::Node(
		"Dib",
		vec![
			("raw_type", s(raw)),
			("function", s(format!("{:?}", d.function))),
			("storage", n(d.storage)),
			("tariff", n(d.tariff)),
			("device", n(d.device)),
			("obis", T::Bool(d.is_obis)),
		],
	)
}

pub fn vib(v: &ValueInfoBlock) -> T {
	let vt = match &v.value_type {
		ValueType::PlainText(t) => T::Node("PlainText", vec![("text", payload!(t))]),
		other => T::Node("Code", vec![("name", s(format!("{other:?}")))]),
	};
	T::Node(
		"Vib",
		vec![
			("value_type", vt),
			(
				"vifes",
				match &v.extra_vifes {
					None => T::Unit,
					Some(v) => payload!(v),
				},
			),
		],
	)
}

pub fn data(d: &DataType) -> T {
	match d {
		DataType::Unsigned(v) => T::Node("Unsigned", vec![("v", n(*v))]),
		DataType::Signed(v) => T::Node("Signed", vec![("v", n(*v))]),
		DataType::Bool(v) => T::Node("Bool", vec![("v", T::Bool(*v))]),
		DataType::Real(v) => T::Node("Real", vec![("v", T::F(v.to_bits()))]),
		DataType::DateTimeF(v) => T::Node(
			"DateTimeF",
			vec![
				("minute", n(v.minute)),
				("hour", n(v.hour)),
				("day", n(v.day)),
				("month", n(v.month)),
				("year", n(v.year)),
				("hundred_year", n(v.hundred_year)),
				("in_dst", T::Bool(v.in_dst)),
			],
		),
		DataType::DateTimeI(v) => T::Node(
			"DateTimeI",
			vec![
				("second", n(v.second)),
				("minute", n(v.minute)),
				("hour", n(v.hour)),
				("day", n(v.day)),
				("month", n(v.month)),
				("year", n(v.year)),
				("day_of_week", n(v.day_of_week)),
				("week", n(v.week)),
				("in_dst", T::Bool(v.in_dst)),
				("leap_year", T::Bool(v.leap_year)),
				("dst_offset", n(v.dst_offset)),
			],
		),
		DataType::Date(v) => T::Node(
			"Date",
			vec![
				("day", n(v.day)),
				("month", n(v.month)),
				("year", n(v.year)),
			],
		),
		DataType::Time(v) => T::Node(
			"Time",
			vec![
				("second", n(v.second)),
				("minute", n(v.minute)),
				("hour", n(v.hour)),
			],
		),
		DataType::DST(v) => T::Node(
			"Dst",
			vec![
				("starts_hour", n(v.starts_hour)),
				("starts_day", n(v.starts_day)),
				("starts_month", n(v.starts_month)),
				("ends_day", n(v.ends_day)),
				("ends_month", n(v.ends_month)),
				("enable", T::Bool(v.enable)),
				("dst_deviation", n(v.dst_deviation)),
				("local_deviation", n(v.local_deviation)),
			],
		),
		DataType::String(v) => T::Node("String", vec![("v", payload!(v))]),
		DataType::ErrorValue(v) => T::Node("ErrorValue", vec![("v", payload!(v))]),
		DataType::Invalid(v) => T::Node("Invalid", vec![("v", payload!(v))]),
		DataType::VariableLengthNumber(v) => {
			T::Node("VariableLengthNumber", vec![("v", payload!(v))])
		}
		DataType::ManufacturerSpecific(v) => {
			T::Node("ManufacturerSpecific", vec![("v", payload!(v))])
		}
		DataType::None => T::Node("NoData", vec![]),
	}
}
