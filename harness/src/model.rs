//! Reference decoder, written from the wire format (EN 13757-2/-3/-7, and the
//! published behaviour of rSCADA libmbus for device names), using nothing of
//! libmbus. It says for every byte string what a decoder may answer.

use crate::tree::{n, s, T};

#[derive(Clone, Debug)]
pub enum Out {
	/// Must be accepted, as this
	Ok(T),
	/// Must be rejected; the text says what is wrong, for attribution only
	Err(&'static str),
	/// May be accepted as this, or rejected
	OkOrErr(T),
}

pub type R<X> = Result<X, &'static str>;

/// Set when some part of what was decoded need not be accepted
#[derive(Default, Clone, Debug)]
pub struct Notes {
	pub may_reject: bool,
	/// Byte ranges of the records, relative to the start of the frame data
	pub records: Vec<(usize, usize)>,
	pub fillers: usize,
}

pub struct Cur<'a> {
	pub data: &'a [u8],
	pub pos: usize,
}

impl<'a> Cur<'a> {
	pub fn new(data: &'a [u8]) -> Self {
		Self { data, pos: 0 }
	}
	pub fn left(&self) -> usize {
		self.data.len() - self.pos
	}
	pub fn peek(&self) -> Option<u8> {
		self.data.get(self.pos).copied()
	}
	pub fn u8(&mut self, what: &'static str) -> R<u8> {
		let v = self.peek().ok_or(what)?;
		self.pos += 1;
		Ok(v)
	}
	pub fn take(&mut self, count: usize, what: &'static str) -> R<&'a [u8]> {
		if self.left() < count {
			return Err(what);
		}
		let v = &self.data[self.pos..self.pos + count];
		self.pos += count;
		Ok(v)
	}
	pub fn rest(&mut self) -> Vec<u8> {
		let v = self.data[self.pos..].to_vec();
		self.pos = self.data.len();
		v
	}
}

fn finish(r: R<T>, notes: &Notes) -> Out {
	match r {
		Ok(t) if notes.may_reject => Out::OkOrErr(t),
		Ok(t) => Out::Ok(t),
		Err(e) => Out::Err(e),
	}
}

// ---------------------------------------------------------------- link layer

pub fn checksum(data: &[u8]) -> u8 {
	(data.iter().map(|b| *b as u32).sum::<u32>() & 0xFF) as u8
}

/// Wrap a message into a long frame
pub fn long_frame(control: u8, address: u8, message: &[u8]) -> Vec<u8> {
	let len = message.len() + 2;
	assert!(len <= 255);
	let mut v = vec![0x68, len as u8, len as u8, 0x68, control, address];
	v.extend_from_slice(message);
	v.push(checksum(&v[4..]));
	v.push(0x16);
	v
}

pub fn short_frame(control: u8, address: u8) -> Vec<u8> {
	vec![0x10, control, address, checksum(&[control, address]), 0x16]
}

pub fn control(c: u8) -> R<T> {
	if c & 0x80 != 0 {
		return Err("control");
	}
	let b5 = c & 0x20 != 0;
	let b4 = c & 0x10 != 0;
	let f = c & 0x0F;
	if c & 0x40 != 0 {
		let name = match (f, b4) {
			(0, false) => "ResetRemoteLink",
			(1, false) => "ResetUserProcess",
			(3, true) => "SendUserDataConfirmed",
			(4, false) => "SendUserDataUnconfirmed",
			(8, false) => "RequestAccessDemand",
			(9, false) => "RequestLinkStatus",
			(10, true) => "RequestUserData1",
			(11, true) => "RequestUserData2",
			_ => return Err("control"),
		};
		Ok(T::Node(
			"Primary",
			vec![("fcb", T::Bool(b5)), ("function", s(name))],
		))
	} else {
		let name = match f {
			0 => "ACK",
			1 => "NACK",
			8 => "UserData",
			9 => "UserDataUnavailable",
			11 => "Status",
			14 => "LinkNotFunctioning",
			15 => "LinkNotImplemented",
			_ => return Err("control"),
		};
		Ok(T::Node(
			"Secondary",
			vec![
				("acd", T::Bool(b5)),
				("dfc", s(if b4 { "Pause" } else { "Continue" })),
				("function", s(name)),
			],
		))
	}
}

/// A whole datagram
pub fn packet(data: &[u8]) -> (Out, Notes) {
	let mut notes = Notes::default();
	let r = packet_inner(data, &mut notes);
	(finish(r, &notes), notes)
}

fn packet_inner(d: &[u8], notes: &mut Notes) -> R<T> {
	match d.first() {
		Some(0xE5) if d.len() == 1 => Ok(T::Node("Ack", vec![])),
		Some(0x10) => {
			if d.len() != 5 || d[4] != 0x16 {
				return Err("envelope");
			}
			let c = control(d[1])?;
			if d[3] != checksum(&d[1..3]) {
				return Err("checksum");
			}
			Ok(T::Node("Short", vec![("control", c), ("address", n(d[2]))]))
		}
		Some(0x68) => {
			if d.len() < 8 || d[1] != d[2] || d[3] != 0x68 || d[d.len() - 1] != 0x16 {
				return Err("envelope");
			}
			let len = d[1] as usize;
			if len < 2 || d.len() != len + 6 {
				return Err("envelope");
			}
			if checksum(&d[4..4 + len]) != d[4 + len] {
				return Err("checksum");
			}
			let c = control(d[4])?;
			let m = message_inner(&d[6..4 + len], notes)?;
			Ok(T::Node(
				"Long",
				vec![("control", c), ("address", n(d[5])), ("message", m)],
			))
		}
		_ => Err("envelope"),
	}
}

// ----------------------------------------------------------- transport layer

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hdr {
	None,
	Short,
	Long,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
	Dlms,
	Specific,
	Wireless,
	Afl,
	Manufacturer,
	Image,
	Security,
	AppSelect,
	SelectedRequest,
	SelectedResponse,
	SelectDevice,
	Sync,
	Baud,
	ClockSync,
	ClockAdjust,
	Command,
	AppError,
	Alarm,
	Response,
	/// Allocated, but not implemented (compact and format frames and so on)
	Unsupported,
	Reserved,
}

/// EN 13757-7:2018 table 2, CI-fields
pub fn ci_table(ci: u8) -> (Hdr, Kind) {
	use Hdr::{Long as L, None as N, Short as S};
	use Kind::*;
	match ci {
		0x00..=0x1F => (N, Dlms),
		0x50 => (N, AppSelect),
		0x51 => (N, Command),
		0x52 => (N, SelectDevice),
		0x53 => (L, AppSelect),
		0x54 => (N, SelectedRequest),
		0x55 => (L, SelectedRequest),
		0x5A => (S, Command),
		0x5B => (L, Command),
		0x5C => (N, Sync),
		0x5F => (L, Specific),
		0x60 => (L, Dlms),
		0x61 => (S, Dlms),
		0x64 => (L, Unsupported),
		0x65 => (S, Unsupported),
		0x66 => (N, SelectedResponse),
		0x67 => (S, SelectedResponse),
		0x68 => (L, SelectedResponse),
		0x69 => (N, Unsupported),
		0x6A => (S, Unsupported),
		0x6B => (L, Unsupported),
		0x6C => (L, ClockSync),
		0x6D => (L, ClockAdjust),
		0x6E => (S, AppError),
		0x6F => (L, AppError),
		0x70 => (N, AppError),
		0x71 => (N, Alarm),
		0x72 => (L, Response),
		0x73 => (L, Unsupported),
		0x74 => (S, Alarm),
		0x75 => (L, Alarm),
		0x78 => (N, Response),
		0x79 => (N, Unsupported),
		0x7A => (S, Response),
		0x7B => (S, Unsupported),
		0x7C => (L, Dlms),
		0x7D => (S, Dlms),
		0x80 => (L, Wireless),
		0x81 => (N, Wireless),
		0x82 => (L, Wireless),
		0x83 => (N, Wireless),
		0x84 | 0x85 => (L, Unsupported),
		0x86 => (N, Wireless),
		0x87 => (L, Wireless),
		0x88 => (S, Wireless),
		0x89 => (N, Wireless),
		0x8A => (S, Wireless),
		0x8B => (L, Wireless),
		0x8C..=0x8F => (N, Wireless),
		0x90 => (N, Afl),
		0x9E => (S, Specific),
		0x9F => (L, Specific),
		0xA0..=0xB7 => (N, Manufacturer),
		0xB8..=0xBF => (N, Baud),
		0xC0 => (L, Image),
		0xC1 => (S, Image),
		0xC2 => (L, Image),
		0xC3 => (L, Security),
		0xC4 => (S, Security),
		0xC5 => (L, Security),
		_ => (N, Reserved),
	}
}

pub fn message(data: &[u8]) -> (Out, Notes) {
	let mut notes = Notes::default();
	let r = message_inner(data, &mut notes);
	(finish(r, &notes), notes)
}

fn message_inner(data: &[u8], notes: &mut Notes) -> R<T> {
	let mut c = Cur::new(data);
	let ci = c.u8("ci")?;
	let (hdr, kind) = ci_table(ci);
	if matches!(kind, Kind::Reserved | Kind::Unsupported) {
		return Err("ci");
	}
	let h = match hdr {
		Hdr::None => T::Node("NoHeader", vec![]),
		Hdr::Short => short_header(&mut c, notes)?,
		Hdr::Long => long_header(&mut c, notes)?,
	};
	let with_payload = |name, h, c: &mut Cur| {
		T::Node(name, vec![("header", h), ("payload", T::B(c.rest()))])
	};
	let with_ci = |name, h, c: &mut Cur| {
		T::Node(
			name,
			vec![("ci", n(ci)), ("header", h), ("payload", T::B(c.rest()))],
		)
	};
	let t = match kind {
		Kind::Dlms => with_ci("Dlms", h, &mut c),
		Kind::Specific => with_ci("SpecificUsage", h, &mut c),
		Kind::Image => with_ci("ImageTransfer", h, &mut c),
		Kind::Security => with_ci("SecurityTransfer", h, &mut c),
		Kind::Wireless => {
			// What follows belongs to layers that are not decoded
			c.rest();
			T::Node("Wireless", vec![("ci", n(ci)), ("header", h)])
		}
		Kind::Afl => T::Node(
			"AuthenticationAndFragmentation",
			vec![("payload", T::B(c.rest()))],
		),
		Kind::Manufacturer => T::Node(
			"ManufacturerSpecific",
			vec![("ci", n(ci)), ("payload", T::B(c.rest()))],
		),
		Kind::SelectDevice => {
			T::Node("SelectionOfDevice", vec![("payload", T::B(c.rest()))])
		}
		Kind::ClockSync => with_payload("TimeSyncToDevice", h, &mut c),
		Kind::ClockAdjust => with_payload("TimeAdjustmentToDevice", h, &mut c),
		Kind::Command => with_payload("CommandToDevice", h, &mut c),
		Kind::Alarm => with_payload("AlarmFromDevice", h, &mut c),
		Kind::Sync => T::Node("SynchroniseAction", vec![]),
		Kind::Baud => {
			let rates = [300, 600, 1200, 2400, 4800, 9600, 19200, 38400];
			let rate = rates[(ci - 0xB8) as usize];
			T::Node("SetBaudRate", vec![("rate", s(format!("Rate{rate}")))])
		}
		Kind::SelectedRequest => T::Node("SelectedApplicationRequest", vec![("header", h)]),
		Kind::AppSelect => {
			if c.left() == 0 {
				T::Node("ApplicationReset", vec![("header", h)])
			} else {
				let a = application(&mut c, notes)?;
				T::Node("ApplicationSelect", vec![("header", h), ("application", a)])
			}
		}
		Kind::SelectedResponse => {
			if c.left() == 0 {
				return Err("application");
			}
			let a = application(&mut c, notes)?;
			T::Node(
				"SelectedApplicationResponse",
				vec![("header", h), ("application", a)],
			)
		}
		Kind::AppError => {
			let e = app_error(&mut c, notes)?;
			T::Node(
				"ApplicationErrorFromDevice",
				vec![("header", h), ("error", e)],
			)
		}
		Kind::Response => {
			let f = frame_inner(&mut c, notes)?;
			T::Node("ResponseFromDevice", vec![("header", h), ("frame", f)])
		}
		Kind::Unsupported | Kind::Reserved => unreachable!(),
	};
	if c.left() > 0 {
		// Nothing says what a decoder does with bytes after a complete message
		notes.may_reject = true;
	}
	Ok(t)
}

pub fn status(v: u8) -> T {
	let bit = |i: u8| T::Bool(v >> i & 1 == 1);
	T::Node(
		"Status",
		vec![
			("manufacturer_2", bit(7)),
			("manufacturer_1", bit(6)),
			("manufacturer_0", bit(5)),
			("temporary_error", bit(4)),
			("permanent_error", bit(3)),
			("power_low", bit(2)),
			(
				"application",
				s(["None", "Busy", "Error", "Alarm"][(v & 3) as usize]),
			),
		],
	)
}

pub fn configuration(raw: u16) -> R<T> {
	let mode = raw >> 8 & 0x1F;
	match mode {
		0 if raw == 0 => Ok(T::Node("None", vec![])),
		6 | 11 | 12 | 14 | 16..=31 => Ok(T::Node("Reserved", vec![("raw", n(raw))])),
		// Encrypted, or mode 0 with extra information
		_ => Err("configuration"),
	}
}

fn access_status_config(c: &mut Cur) -> R<[(&'static str, T); 4]> {
	let access = c.u8("header")?;
	let st = c.u8("header")?;
	let cf = c.take(2, "header")?;
	Ok([
		("access_number", n(access)),
		("status", status(st)),
		("configuration", configuration(u16::from_le_bytes([cf[0], cf[1]]))?),
		("extra", T::Bool(false)),
	])
}

fn short_header(c: &mut Cur, _notes: &mut Notes) -> R<T> {
	Ok(T::Node("ShortHeader", access_status_config(c)?.to_vec()))
}

pub fn manufacturer(raw: u16) -> R<String> {
	let mut out = String::new();
	for shift in [10, 5, 0] {
		let letter = raw >> shift & 31;
		if !(1..=26).contains(&letter) {
			return Err("manufacturer");
		}
		out.push((b'A' + letter as u8 - 1) as char);
	}
	Ok(out)
}

pub fn manufacturer_code(name: &str) -> u16 {
	name.bytes().fold(0, |a, b| a * 32 + (b - 64) as u16)
}

fn long_header(c: &mut Cur, notes: &mut Notes) -> R<T> {
	let id = c.take(4, "header")?;
	let mut identifier = 0_i128;
	for (i, b) in id.iter().rev().enumerate() {
		let (hi, lo) = (b >> 4, b & 15);
		if lo > 9 {
			return Err("identifier");
		}
		if hi > 9 {
			// The sign of a BCD number. An identifier has none, but -0 is 0.
			if i == 0 && hi == 15 {
				notes.may_reject = true;
				identifier = lo as i128;
				if id[0] | id[1] | id[2] | lo != 0 {
					return Err("identifier");
				}
				continue;
			}
			return Err("identifier");
		}
		identifier = identifier * 100 + (hi * 10 + lo) as i128;
	}
	let m = c.take(2, "header")?;
	let raw = u16::from_le_bytes([m[0], m[1]]);
	let name = manufacturer(raw)?;
	let version = c.u8("header")?;
	let dt = c.u8("header")?;
	let product = device_name(&name, version, dt, id[3]);
	let product = match product {
		Some(p) if raw & 0x8000 != 0 => T::OneOf(vec![T::Unit, s(p)]),
		Some(p) => s(p),
		None => T::Unit,
	};
	let mut fields = vec![
		("identifier", T::N(identifier)),
		("manufacturer", s(name)),
		("device_name", product),
		("version", n(version)),
		("device_type", s(device_type(dt))),
	];
	fields.extend(access_status_config(c)?);
	Ok(T::Node("LongHeader", fields))
}

/// EN 13757-7:2018 table 13, device types
pub fn device_type(v: u8) -> &'static str {
	match v {
		0x00 => "Other",
		0x01 => "OilMeter",
		0x02 => "ElectricityMeter",
		0x03 => "GasMeter",
		0x04 => "ThermalEnergyMeter(OutletHeat)",
		0x05 => "SteamMeter",
		0x06 => "WaterMeter(Warm)",
		0x07 => "WaterMeter(Potable)",
		0x08 => "HeatCostAllocator",
		0x09 => "CompressedAir",
		0x0A => "ThermalEnergyMeter(OutletCooling)",
		0x0B => "ThermalEnergyMeter(InletCooling)",
		0x0C => "ThermalEnergyMeter(InletHeat)",
		0x0D => "ThermalEnergyMeter(Combined)",
		0x0E => "BusOrSystemComponent",
		0x0F => "Unknown",
		0x10 => "WaterMeter(Irrigation)",
		0x11 => "WaterDataLogger",
		0x12 => "GasDataLogger",
		0x13 => "GasConverter",
		0x14 => "CalorificValue",
		0x15 => "WaterMeter(Hot)",
		0x16 => "WaterMeter(Cold)",
		0x17 => "WaterMeter(DualRegister)",
		0x18 => "PressureMeter",
		0x19 => "ADConverter",
		0x1A => "SmokeDetector",
		0x1B => "RoomSensor",
		0x1C => "GasDetector",
		0x1D..=0x1F => "ReservedSensor",
		0x20 => "ElectricalBreaker",
		0x21 => "Valve",
		0x22..=0x24 => "ReservedSwitchingDevice",
		0x25 => "CustomerUnit",
		0x26 | 0x27 => "ReservedCustomerUnit",
		0x28 => "WaterMeter(Waste)",
		0x29 => "Garbage",
		0x2A => "ReservedCO2",
		0x2B..=0x2F => "ReservedEnvironmental",
		0x30 => "ServiceTool",
		0x31 => "CommunicationController",
		0x32 => "UnidirectionalRepeater",
		0x33 => "BidirectionalRepeater",
		0x34 | 0x35 => "ReservedSystemDevice",
		0x36 => "RadioConverterSystemSide",
		0x37 => "RadioConverterMeterSide",
		0x38 => "BusConverterMeterSide",
		0x39..=0x3F => "ReservedSystemDevice",
		0x40..=0xFE => "Reserved",
		0xFF => "Wildcard",
	}
}

/// What device types a row of the name table applies to
type Dev = Option<u8>;

/// manufacturer, first version, last version, device type, name. First match
/// counts. As in rSCADA libmbus' mbus_data_product_name().
pub const DEVICE_NAMES: &[(&str, u8, u8, Dev, &str)] = &[
	("ABB", 0x02, 0x02, None, "ABB Delta-Meter"),
	("ABB", 0x20, 0x20, None, "ABB B21 113-100"),
	("ACW", 0x09, 0x09, None, "Itron CF Echo 2"),
	("ACW", 0x0A, 0x0A, None, "Itron CF 51"),
	("ACW", 0x0B, 0x0B, None, "Itron CF 55"),
	("ACW", 0x0E, 0x0E, None, "Itron BM +m"),
	("ACW", 0x0F, 0x0F, None, "Itron CF 800"),
	("ACW", 0x14, 0x14, None, "Itron CYBLE M-Bus 1.4"),
	("AMT", 0x00, 0x3F, None, "Aquametro AMTRON"),
	("AMT", 0x40, 0x7F, None, "Aquametro SAPHIR"),
	("AMT", 0x80, 0xBF, None, "Aquametro CALEC MB"),
	("AMT", 0xC0, 0xFF, None, "Aquametro CALEC ST"),
	("BEC", 0x00, 0x00, Some(0x02), "Berg DCMi"),
	("BEC", 0x07, 0x07, Some(0x02), "Berg BLMi"),
	("BEC", 0x71, 0x71, Some(0x0F), "Berg BMB-10S0"),
	("EFE", 0x00, 0x00, Some(0x06), "Engelmann WaterStar"),
	("EFE", 0x00, 0x00, None, "Engelmann / Elster SensoStar 2"),
	("EFE", 0x01, 0x01, None, "Engelmann SensoStar 2C"),
	("ELS", 0x02, 0x02, None, "Elster TMP-A"),
	("ELS", 0x0A, 0x0A, None, "Elster Falcon"),
	("ELS", 0x2F, 0x2F, None, "Elster F96 Plus"),
	("ELV", 0x14, 0x1D, None, "Elvaco CMa10"),
	("ELV", 0x32, 0x3B, None, "Elvaco CMa11"),
	("EMH", 0x00, 0x00, None, "EMH DIZ"),
	("EMU", 0x10, 0x10, Some(0x02), "EMU Professional 3/75 M-Bus"),
	("GAV", 0x2D, 0x30, Some(0x02), "Carlo Gavazzi EM24"),
	("GAV", 0x39, 0x3A, Some(0x02), "Carlo Gavazzi EM21"),
	("GAV", 0x40, 0x40, Some(0x02), "Carlo Gavazzi EM33"),
	("GMC", 0xE6, 0xE6, None, "GMC-I A230 EMMOD 206"),
	("HYD", 0x28, 0x28, None, "ABB F95 Typ US770"),
	("HYD", 0x2F, 0x2F, None, "Hydrometer Sharky 775"),
	("JAN", 0x09, 0x09, Some(0x02), "Janitza UMG 96S"),
	("KAM", 0x01, 0x01, None, "Kamstrup 382 (6850-005)"),
	("KAM", 0x08, 0x08, None, "Kamstrup Multical 601"),
	("LSE", 0x99, 0x99, None, "Siemens WFH21"),
	("LUG", 0x02, 0x02, None, "Landis & Gyr Ultraheat 2WR5"),
	("LUG", 0x03, 0x03, None, "Landis & Gyr Ultraheat 2WR6"),
	("LUG", 0x04, 0x04, None, "Landis & Gyr Ultraheat UH50"),
	("LUG", 0x07, 0x07, None, "Landis & Gyr Ultraheat T230"),
	("NZR", 0x01, 0x01, None, "NZR DHZ 5/63"),
	("NZR", 0x50, 0x50, None, "NZR IC-M2"),
	("RAM", 0x03, 0x03, None, "Rossweiner ETK/ETW Modularis"),
	("REL", 0x08, 0x08, None, "Relay PadPuls M1"),
	("REL", 0x12, 0x12, None, "Relay PadPuls M4"),
	("REL", 0x20, 0x20, None, "Relay Padin 4"),
	("REL", 0x30, 0x30, None, "Relay AnDi 4"),
	("REL", 0x40, 0x40, None, "Relay PadPuls M2"),
	("RKE", 0x69, 0x69, None, "Ista sensonic II mbus"),
	("SBC", 0x10, 0x10, None, "Saia-Burgess ALE3"),
	("SBC", 0x19, 0x19, None, "Saia-Burgess ALE3"),
	("SBC", 0x11, 0x11, None, "Saia-Burgess AWD3"),
	("SEN", 0x08, 0x08, None, "Sensus PolluCom E"),
	("SEN", 0x19, 0x19, None, "Sensus PolluCom E"),
	("SEN", 0x0B, 0x0B, None, "Sensus PolluTherm"),
	("SEN", 0x0E, 0x0E, None, "Sensus PolluStat E"),
	("SEO", 0x30, 0x30, None, "Sensoco PT100"),
	("SEO", 0x41, 0x41, None, "Sensoco 2-NTC"),
	("SEO", 0x45, 0x45, None, "Sensoco Laser Light"),
	("SEO", 0x48, 0x48, None, "Sensoco ADIO"),
	("SEO", 0x51, 0x51, None, "Sensoco THU"),
	("SEO", 0x61, 0x61, None, "Sensoco THU"),
	("SEO", 0x80, 0x80, None, "Sensoco PulseCounter for E-Meter"),
	("GTE", 0x30, 0x30, None, "Sensoco PT100"),
	("GTE", 0x41, 0x41, None, "Sensoco 2-NTC"),
	("GTE", 0x45, 0x45, None, "Sensoco Laser Light"),
	("GTE", 0x48, 0x48, None, "Sensoco ADIO"),
	("GTE", 0x51, 0x51, None, "Sensoco THU"),
	("GTE", 0x61, 0x61, None, "Sensoco THU"),
	("GTE", 0x80, 0x80, None, "Sensoco PulseCounter for E-Meter"),
	("SLB", 0x02, 0x02, None, "Allmess Megacontrol CF-50"),
	("SLB", 0x06, 0x06, None, "CF Compact / Integral MK MaXX"),
	("SON", 0x0D, 0x0D, None, "Sontex Supercal 531"),
	("SPX", 0x31, 0x31, None, "Sensus PolluTherm"),
	("SPX", 0x34, 0x34, None, "Sensus PolluTherm"),
	("SVM", 0x08, 0x08, None, "Elster F2 / Deltamess F2"),
	("SVM", 0x09, 0x09, None, "Elster F4 / Kamstrup SVM F22"),
	("TCH", 0x26, 0x26, None, "Techem m-bus S"),
	("TCH", 0x40, 0x40, None, "Techem ultra S3"),
	("WZG", 0x03, 0x03, None, "Modularis ETW-EAX"),
	("ZRM", 0x81, 0x81, None, "Minol Minocal C2"),
	("ZRM", 0x82, 0x82, None, "Minol Minocal WR3"),
];

/// These keep the version in the highest byte of the identification number
pub const VERSION_IN_ID: [&str; 3] = ["SBC", "SEO", "GTE"];

pub fn device_name(manufacturer: &str, version: u8, dt: u8, id3: u8) -> Option<&'static str> {
	let version = if VERSION_IN_ID.contains(&manufacturer) {
		id3
	} else {
		version
	};
	DEVICE_NAMES
		.iter()
		.find(|(m, lo, hi, dev, _)| {
			*m == manufacturer
				&& (*lo..=*hi).contains(&version)
				&& dev.map(|d| d == dt).unwrap_or(true)
		})
		.map(|(.., name)| *name)
}

// --------------------------------------------------------- application layer

fn application_name(v: u64) -> R<String> {
	Ok(match v {
		0 => "All",
		1 => "UserData",
		2 => "SimpleBilling",
		3 => "EnhancedBilling",
		4 => "MultiTariffBilling",
		5 => "InstantaneousValues",
		6 => "LoadProfileValuesForManagement",
		7 => "StaticContent",
		8 => "InstallationAndStartup",
		9 => "Testing",
		10 => "Calibration",
		11 => "Manufacturing",
		12 => "Development",
		13 => "SelfTest",
		14 => "ConfigurationData",
		15 => "UserDefinedData",
		26..=45 => return Ok(format!("ManufacturerSpecific({v})")),
		_ => return Err("application"),
	}
	.to_owned())
}

fn application(c: &mut Cur, notes: &mut Notes) -> R<T> {
	let count = c.left().min(10);
	let codes = c.take(count, "application")?;
	let mut block = 0_i128;
	for b in codes {
		block = block * 16 + (b & 15) as i128;
	}
	// The application number of more than one byte is a sum of the upper
	// nibbles, ending with the first 15 (the code) or with the first that is
	// not 15 (how such chains work elsewhere). Not ours to decide: either will
	// do where they differ.
	let sum_until = |stop: &dyn Fn(u8) -> bool| {
		let mut sum = 0_u64;
		for b in codes {
			sum += (b >> 4) as u64;
			if stop(b >> 4) {
				break;
			}
		}
		sum
	};
	let a = application_name(sum_until(&|v| v == 15));
	let b = application_name(sum_until(&|v| v != 15));
	let app = match (a, b) {
		(Ok(a), Ok(b)) if a == b => s(a),
		(Ok(a), Ok(b)) => T::OneOf(vec![s(a), s(b)]),
		(Ok(a), Err(_)) | (Err(_), Ok(a)) => {
			notes.may_reject = true;
			s(a)
		}
		(Err(e), Err(_)) => return Err(e),
	};
	Ok(T::Node(
		"Application",
		vec![("application", app), ("block", T::N(block))],
	))
}

fn app_error(c: &mut Cur, notes: &mut Notes) -> R<T> {
	let Some(code) = c.peek() else {
		return Ok(T::Node("Code", vec![("name", s("Unspecified"))]));
	};
	c.pos += 1;
	let name = match code {
		0x00 => "Unspecified",
		0x01 => "CIFieldError",
		0x02 => "BufferOverflow",
		0x03 => "RecordOverflow",
		0x04 => "RecordError",
		0x05 => "DIFEOverflow",
		0x06 => "VIFEOverflow",
		0x08 => "ApplicationBusy",
		0x09 => "CreditOverflow",
		0x11 => "NoFunction",
		0x12 => "DataError",
		0x13 => "RoutingOrRelayingError",
		0x14 => "AccessViolation",
		0x15 => "ParameterError",
		0x16 => "SizeError",
		0x20 => "SecurityError",
		0x21 => "SecurityMechanismNotSupported",
		0x22 => "InadequateSecurityMethod",
		0xF0 => {
			let (r, _) = record_inner(c, notes)?;
			return Ok(T::Node("DynamicError", vec![("record", r)]));
		}
		0xF1..=0xFF => {
			return Ok(T::Node(
				"ManufacturerSpecific",
				vec![("code", n(code)), ("payload", T::B(c.rest()))],
			))
		}
		_ => return Err("error code"),
	};
	Ok(T::Node("Code", vec![("name", s(name))]))
}

pub fn frame(data: &[u8]) -> (Out, Notes) {
	let mut notes = Notes::default();
	let mut c = Cur::new(data);
	let r = frame_inner(&mut c, &mut notes);
	(finish(r, &notes), notes)
}

fn frame_inner(c: &mut Cur, notes: &mut Notes) -> R<T> {
	let start = c.pos;
	let mut records = Vec::new();
	let more = loop {
		match c.peek() {
			None => break false,
			Some(0x0F) => {
				c.pos += 1;
				if c.left() == 0 {
					// Announces manufacturer data, of which there is none
					notes.may_reject = true;
				}
				break false;
			}
			Some(0x1F) => {
				c.pos += 1;
				break true;
			}
			Some(0x2F) => {
				c.pos += 1;
				notes.fillers += 1;
			}
			Some(_) => {
				let from = c.pos;
				let (r, _) = record_inner(c, notes)?;
				records.push(r);
				notes.records.push((from - start, c.pos - start));
			}
		}
	};
	let rest = c.rest();
	Ok(T::Node(
		"Frame",
		vec![
			("records", T::List(records)),
			("more", T::Bool(more)),
			("manufacturer_data", T::B(rest)),
		],
	))
}

/// What a single record turns out to consist of
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Parts {
	pub difes: usize,
	pub vifes: usize,
	pub vib_len: usize,
	pub header_len: usize,
	/// The data class, also the name of the data field in the tree
	pub class: &'static str,
}

/// The outcome and the number of bytes used
pub fn record(data: &[u8]) -> (Out, usize, Parts) {
	let mut notes = Notes::default();
	let mut c = Cur::new(data);
	let r = record_inner(&mut c, &mut notes);
	let pos = c.pos;
	match r {
		Ok((t, p)) => (finish(Ok(t), &notes), pos, p),
		Err(e) => (Out::Err(e), pos, Parts::default()),
	}
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Raw {
	None,
	Binary(usize),
	Real,
	Bcd(usize),
	Lvar,
}

impl Raw {
	pub fn name(self) -> String {
		match self {
			Raw::None => "None".to_owned(),
			Raw::Binary(v) => format!("Binary({v})"),
			Raw::Real => "Real".to_owned(),
			Raw::Bcd(v) => format!("BCD({v})"),
			Raw::Lvar => "LVAR".to_owned(),
		}
	}
}

pub fn raw_type(dif: u8) -> R<Raw> {
	Ok(match dif & 15 {
		0 => Raw::None,
		v @ 1..=4 => Raw::Binary(v as usize),
		5 => Raw::Real,
		6 => Raw::Binary(6),
		7 => Raw::Binary(8),
		v @ 9..=12 => Raw::Bcd(v as usize - 8),
		13 => Raw::Lvar,
		14 => Raw::Bcd(6),
		_ => return Err("dif"),
	})
}

fn record_inner(c: &mut Cur, notes: &mut Notes) -> R<(T, Parts)> {
	let start = c.pos;
	let mut parts = Parts::default();
	// DIF
	let dif = c.u8("dif")?;
	let raw = raw_type(dif)?;
	let function = [
		"InstantaneousValue",
		"MaximumValue",
		"MinimumValue",
		"ValueDuringErrorState",
	][(dif >> 4 & 3) as usize];
	let mut storage = (dif >> 6 & 1) as i128;
	let mut tariff = 0_i128;
	let mut device = 0_i128;
	let mut obis = false;
	let mut more = dif & 0x80 != 0;
	while more {
		if parts.difes == 10 {
			return Err("dife");
		}
		let b = c.u8("dife")?;
		let k = parts.difes as u32;
		storage += ((b & 15) as i128) << (1 + 4 * k);
		tariff += ((b >> 4 & 3) as i128) << (2 * k);
		device += ((b >> 6 & 1) as i128) << k;
		more = b & 0x80 != 0;
		obis = b == 0;
		parts.difes += 1;
	}
	let dib = T::Node(
		"Dib",
		vec![
			("raw_type", s(raw.name())),
			("function", s(function)),
			("storage", T::N(storage)),
			("tariff", T::N(tariff)),
			("device", T::N(device)),
			("obis", T::Bool(obis)),
		],
	);

	// VIF
	let vib_start = c.pos;
	let vif = c.u8("vif")?;
	let mut ext = vif & 0x80 != 0;
	let code = vif & 0x7F;
	let mut text = None;
	let mut name = match code {
		0x7B if ext => {
			let v = c.u8("vif")?;
			ext = v & 0x80 != 0;
			table_fb(v & 0x7F)
		}
		0x7D if ext => {
			let v = c.u8("vif")?;
			ext = v & 0x80 != 0;
			if v & 0x7F == 0x7D {
				if !ext {
					return Err("vif");
				}
				let v = c.u8("vif")?;
				ext = v & 0x80 != 0;
				table_fdfd(v & 0x7F)
			} else {
				table_fd(v & 0x7F)
			}
		}
		0x7B | 0x7D => T::S(format!("Invalid({code})")),
		0x7C => {
			let len = c.u8("plain text")? as usize;
			let raw = c.take(len, "plain text")?;
			// Transmitted last character first
			match std::str::from_utf8(raw) {
				Ok(t) => text = Some(t.chars().rev().collect::<String>()),
				Err(_) => return Err("plain text"),
			}
			T::Unit
		}
		0x7E => s("Any"),
		0x7F => s("ManufacturerSpecific"),
		_ => s(table_primary(code)),
	};
	let mut vifes = None;
	if ext {
		let mut list = Vec::new();
		loop {
			let v = c.u8("vife")?;
			list.push(v & 0x7F);
			if v & 0x80 == 0 {
				break;
			}
		}
		parts.vifes = list.len();
		if list.len() > 10 {
			// More than the standard allows, but harmless
			notes.may_reject = true;
		}
		vifes = Some(list);
	}
	parts.vib_len = c.pos - vib_start;
	parts.header_len = c.pos - start;

	// Some quantities have a data type of their own
	enum Special {
		F,
		G,
		I,
		J,
		K,
	}
	let mut special = None;
	if text.is_none() {
		if let T::S(v) = &name {
			let replacement = match (v.as_str(), raw) {
				("TypeGDate", Raw::Binary(2)) => {
					special = Some(Special::G);
					None
				}
				("TypeGDate", _) => Some("Invalid(108)"),
				("VariableDateTime", Raw::Lvar) => Some("TypeMDatetime"),
				("VariableDateTime", Raw::Binary(3)) => {
					special = Some(Special::J);
					Some("TypeJTime")
				}
				("VariableDateTime", Raw::Binary(4)) => {
					special = Some(Special::F);
					Some("TypeFDateTime")
				}
				("VariableDateTime", Raw::Binary(6)) => {
					special = Some(Special::I);
					Some("TypeIDateTime")
				}
				("VariableDateTime", _) => Some("Invalid(109)"),
				("DSTTypeK", Raw::Binary(4)) => {
					special = Some(Special::K);
					None
				}
				("DSTTypeK", _) => Some("Invalid(114)"),
				_ => None,
			};
			if let Some(r) = replacement {
				name = s(r);
			}
		}
	}

	let value_type = match (text, &name) {
		(Some(t), _) => T::Node("PlainText", vec![("text", T::S(t))]),
		(None, _) => T::Node("Code", vec![("name", name.clone())]),
	};
	let sign = match &name {
		T::S(v) => signedness(v),
		T::OneOf(v) => match &v[0] {
			T::S(v) => signedness(v),
			_ => Sign::Signed,
		},
		_ => Sign::Signed,
	};
	let vib = T::Node(
		"Vib",
		vec![
			("value_type", value_type),
			("vifes", vifes.map(T::B).unwrap_or(T::Unit)),
		],
	);

	let (class, data): (&'static str, T) = match special {
		Some(Special::F) => ("data:datetime-f", type_f(c.take(4, "data")?)?),
		Some(Special::G) => ("data:date-g", type_g(c.take(2, "data")?)?),
		Some(Special::I) => ("data:datetime-i", type_i(c.take(6, "data")?)?),
		Some(Special::J) => ("data:time-j", type_j(c.take(3, "data")?)?),
		Some(Special::K) => ("data:dst-k", type_k(c.take(4, "data")?)?),
		None => match raw {
			Raw::None => ("data:none", T::Node("NoData", vec![])),
			Raw::Binary(w) => ("data:int", integer(c.take(w, "data")?, sign)),
			Raw::Real => {
				let b = c.take(4, "data")?;
				(
					"data:real",
					T::Node(
						"Real",
						vec![("v", T::F(u32::from_le_bytes([b[0], b[1], b[2], b[3]])))],
					),
				)
			}
			Raw::Bcd(w) => ("data:bcd", bcd_or_text(c.take(w, "data")?)),
			Raw::Lvar => lvar(c, sign, notes)?,
		},
	};
	parts.class = class;
	Ok((
		T::Node("Record", vec![("dib", dib), ("vib", vib), (class, data)]),
		parts,
	))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sign {
	Signed,
	Unsigned,
	Either,
}

pub fn signedness(name: &str) -> Sign {
	let base = name.split('(').next().unwrap();
	match base {
		"UniqueMessageIdentification"
		| "DeviceType"
		| "Manufacturer"
		| "ParameterSetIdentification"
		| "ModelVersion"
		| "HardwareVersionNumber"
		| "MetrologyFirmwareVersionNumber"
		| "OtherSoftwareVersionNumber"
		| "CustomerLocation"
		| "Customer"
		| "AccessCodeUser"
		| "AccessCodeOperator"
		| "AccessCodeDeveloper"
		| "Password"
		| "ErrorMask"
		| "SecurityKey"
		| "BaudRate"
		| "ResponseDelayTime"
		| "FirstStorageNumberForCyclicStorage"
		| "LastStorageNumberForCyclicStorage"
		| "SizeOfStorageBlock"
		| "DescriptorForTariffAndSubunit"
		| "TimePointSecond"
		| "DurationSinceLastReadout"
		| "DurationOfTariff"
		| "PeriodOfTarrif"
		| "PeriodOfNominalDataTransmissions"
		| "DayOfWeek"
		| "WeekNumber"
		| "StateOfParameterActivation"
		| "SpecialSupplierInformation"
		| "DurationSinceLastCumulation"
		| "RemainingBatteryLife"
		| "NumberTimesMeterStopped"
		| "RelativeHumidity"
		| "ResultingPowerFactorK"
		| "ThermalOutputRatingFactorKq"
		| "ThermalCouplingRatingFactorOverallKc"
		| "ThermalCouplingRatingFactorRoomSideKcr"
		| "ThermalCouplingRatingFactorHeaterSideKch" => Sign::Unsigned,
		// The code has these signed although their siblings are not
		"AccessCodeSystemOperator"
		| "LowTemperatureRatingFactorKt"
		| "DisplayOutputScalingFactorKD"
		| "Retry"
		| "ErrorFlags"
		| "DigitalOutput"
		| "DigitalInput"
		| "RemoteControl"
		| "OperatingTimeBattery"
		| "OperatorSpecific" => Sign::Either,
		_ => Sign::Signed,
	}
}

const NN: [&str; 4] = ["Seconds", "Minutes", "Hours", "Days"];
const PP: [&str; 4] = ["Hours", "Days", "Months", "Years"];

fn scaled(name: &str, exp: i32) -> String {
	format!("{name}({exp})")
}

fn scaled2(name: &str, unit: &str, exp: i32) -> String {
	format!("{name}({unit}, {exp})")
}

pub fn table_primary(v: u8) -> String {
	let nnn = (v & 7) as i32;
	let nn = (v & 3) as i32;
	let unit = NN[nn as usize];
	match v {
		0x00..=0x07 => scaled2("Energy", "Wh", nnn - 3),
		0x08..=0x0F => scaled2("Energy", "J", nnn),
		0x10..=0x17 => scaled2("Volume", "M3", nnn - 6),
		0x18..=0x1F => scaled2("Mass", "Kg", nnn - 3),
		0x20..=0x23 => format!("OnTime({unit})"),
		0x24..=0x27 => format!("OperatingTime({unit})"),
		0x28..=0x2F => scaled2("Power", "W", nnn - 3),
		0x30..=0x37 => scaled2("Power", "Jph", nnn),
		0x38..=0x3F => scaled2("VolumeFlow", "Hours", nnn - 6),
		0x40..=0x47 => scaled2("VolumeFlow", "Minutes", nnn - 7),
		0x48..=0x4F => scaled2("VolumeFlow", "Seconds", nnn - 9),
		0x50..=0x57 => scaled2("MassFlow", "Hours", nnn - 3),
		0x58..=0x5B => scaled("FlowTemperature", nn - 3),
		0x5C..=0x5F => scaled("ReturnTemperature", nn - 3),
		0x60..=0x63 => scaled("TemperatureDifference", nn - 3),
		0x64..=0x67 => scaled("ExternalTemperature", nn - 3),
		0x68..=0x6B => scaled("Pressure", nn - 3),
		0x6C => "TypeGDate".into(),
		0x6D => "VariableDateTime".into(),
		0x6E => "HCA".into(),
		0x6F => "ReservedCode(Table10, 111)".into(),
		0x70..=0x73 => format!("AveragingDuration({unit})"),
		0x74..=0x77 => format!("ActualityDuration({unit})"),
		0x78 => "FabricationNumber".into(),
		0x79 => "EnhancedIdentification".into(),
		0x7A => "Address".into(),
		_ => panic!("not a primary VIF: {v}"),
	}
}

pub fn table_fd(v: u8) -> T {
	let nn = (v & 3) as i32;
	let nnnn = (v & 15) as i32;
	let unit = NN[nn as usize];
	let pp = PP[nn as usize];
	s(match v {
		0x00..=0x03 => scaled("Credit", nn - 3),
		0x04..=0x07 => scaled("Debit", nn - 3),
		0x08 => "UniqueMessageIdentification".into(),
		0x09 => "DeviceType".into(),
		0x0A => "Manufacturer".into(),
		0x0B => "ParameterSetIdentification".into(),
		0x0C => "ModelVersion".into(),
		0x0D => "HardwareVersionNumber".into(),
		0x0E => "MetrologyFirmwareVersionNumber".into(),
		0x0F => "OtherSoftwareVersionNumber".into(),
		0x10 => "CustomerLocation".into(),
		0x11 => "Customer".into(),
		0x12 => "AccessCodeUser".into(),
		0x13 => "AccessCodeOperator".into(),
		0x14 => "AccessCodeSystemOperator".into(),
		0x15 => "AccessCodeDeveloper".into(),
		0x16 => "Password".into(),
		0x17 => "ErrorFlags".into(),
		0x18 => "ErrorMask".into(),
		0x19 => "SecurityKey".into(),
		0x1A => "DigitalOutput".into(),
		0x1B => "DigitalInput".into(),
		0x1C => "BaudRate".into(),
		0x1D => "ResponseDelayTime".into(),
		0x1E => "Retry".into(),
		0x1F => "RemoteControl".into(),
		0x20 => "FirstStorageNumberForCyclicStorage".into(),
		0x21 => "LastStorageNumberForCyclicStorage".into(),
		0x22 => "SizeOfStorageBlock".into(),
		0x23 => "DescriptorForTariffAndSubunit".into(),
		0x24..=0x27 => format!("StorageInterval({unit})"),
		0x28 => "StorageInterval(Months)".into(),
		0x29 => "StorageInterval(Years)".into(),
		0x2A => "OperatorSpecific".into(),
		0x2B => "TimePointSecond".into(),
		0x2C..=0x2F => format!("DurationSinceLastReadout({unit})"),
		0x30 => "StartDateTimeOfTariff".into(),
		0x31..=0x33 => format!("DurationOfTariff({unit})"),
		0x34..=0x37 => format!("PeriodOfTarrif({unit})"),
		0x38 => "PeriodOfTarrif(Months)".into(),
		0x39 => "PeriodOfTarrif(Years)".into(),
		0x3A => "Dimensionless".into(),
		0x3B => "WirelessContainer".into(),
		0x3C..=0x3F => format!("PeriodOfNominalDataTransmissions({unit})"),
		0x40..=0x4F => scaled("Volts", nnnn - 9),
		0x50..=0x5F => scaled("Amperes", nnnn - 12),
		0x60 => "ResetCounter".into(),
		0x61 => "CumulationCounter".into(),
		0x62 => "ControlSignal".into(),
		0x63 => "DayOfWeek".into(),
		0x64 => "WeekNumber".into(),
		0x65 => "TimePointOfDayChange".into(),
		0x66 => "StateOfParameterActivation".into(),
		0x67 => "SpecialSupplierInformation".into(),
		0x68..=0x6B => format!("DurationSinceLastCumulation({pp})"),
		0x6C..=0x6F => format!("OperatingTimeBattery({pp})"),
		0x70 => "DateAndTimeOfBatteryChange".into(),
		0x71 => "RFLevel".into(),
		0x72 => "DSTTypeK".into(),
		0x73 => "ListeningWindowManagement".into(),
		0x74 => "RemainingBatteryLife(Days)".into(),
		0x75 => "NumberTimesMeterStopped".into(),
		0x76 => "ManufacturerSpecificContainer".into(),
		_ => format!("ReservedCode(Table12, {v})"),
	})
}

pub fn table_fdfd(v: u8) -> T {
	s(match v {
		0 => "CurrentlySelectedApplication".into(),
		2 => "RemainingBatteryLife(Months)".into(),
		3 => "RemainingBatteryLife(Years)".into(),
		_ => format!("ReservedCode(Table13, {v})"),
	})
}

pub fn table_fb(v: u8) -> T {
	let n1 = (v & 1) as i32;
	let nn = (v & 3) as i32;
	let nnn = (v & 7) as i32;
	s(match v {
		0x00 | 0x01 => scaled2("Energy", "MWh", n1 - 1),
		0x02 | 0x03 => scaled("ReactiveEnergy", n1),
		0x04 | 0x05 => scaled("ApparentEnergy", n1),
		0x08 | 0x09 => scaled2("Energy", "GJ", n1 - 1),
		0x0C..=0x0F => scaled2("Energy", "MCal", nn - 1),
		0x10 | 0x11 => scaled2("Volume", "M3", n1 + 2),
		0x14..=0x17 => scaled("ReactivePower", nn - 3),
		0x18 | 0x19 => scaled2("Mass", "T", n1 + 2),
		0x1A | 0x1B => scaled("RelativeHumidity", n1 - 1),
		0x20 => scaled2("Volume", "Feet3", 0),
		0x21 => scaled2("Volume", "Feet3", -1),
		0x28 | 0x29 => scaled2("Power", "MW", n1 - 1),
		0x2A => "PhaseUU".into(),
		0x2B => "PhaseUI".into(),
		0x2C..=0x2F => scaled("Frequency", nn - 3),
		0x30 | 0x31 => scaled2("Power", "GJph", n1 - 1),
		// kVA from 10^(nn-3) in the standard as I remember it, from 10^(nn-1)
		// in the code: not claimed either way
		0x34..=0x37 => {
			return T::OneOf(vec![
				s(scaled("ApparentPower", nn - 1)),
				s(scaled("ApparentPower", nn - 3)),
			])
		}
		0x68 => "ResultingPowerFactorK".into(),
		0x69 => "ThermalOutputRatingFactorKq".into(),
		0x6A => "ThermalCouplingRatingFactorOverallKc".into(),
		0x6B => "ThermalCouplingRatingFactorRoomSideKcr".into(),
		0x6C => "ThermalCouplingRatingFactorHeaterSideKch".into(),
		0x6D => "LowTemperatureRatingFactorKt".into(),
		0x6E => "DisplayOutputScalingFactorKD".into(),
		0x74..=0x77 => scaled("ColdWarmTemperatureLimit", nn - 3),
		0x78..=0x7F => scaled("CumulativeMaxOfActivePower", nnn - 3),
		0x22..=0x26 | 0x58..=0x67 | 0x70..=0x73 => format!("RetiredCode(Table14, {v})"),
		_ => format!("ReservedCode(Table14, {v})"),
	})
}

// ----------------------------------------------------------------- data types

pub fn integer(b: &[u8], sign: Sign) -> T {
	let mut v = 0_i128;
	for (i, byte) in b.iter().enumerate() {
		v |= (*byte as i128) << (8 * i);
	}
	let mut signed = v;
	if let Some(last) = b.last() {
		if last & 0x80 != 0 {
			signed -= 1_i128 << (8 * b.len());
		}
	}
	let u = T::Node("Unsigned", vec![("v", T::N(v))]);
	let i = T::Node("Signed", vec![("v", T::N(signed))]);
	match sign {
		Sign::Signed => i,
		Sign::Unsigned => u,
		Sign::Either => T::OneOf(vec![i, u]),
	}
}

/// A plain BCD number, least significant byte first. The uppermost nibble may
/// be F for a minus sign.
pub fn bcd(b: &[u8]) -> Option<i128> {
	let mut v = 0_i128;
	let mut neg = false;
	for (i, byte) in b.iter().rev().enumerate() {
		for (j, nib) in [byte >> 4, byte & 15].into_iter().enumerate() {
			if i == 0 && j == 0 && nib == 15 {
				neg = true;
				continue;
			}
			if nib > 9 {
				return None;
			}
			v = v * 10 + nib as i128;
		}
	}
	Some(if neg { -v } else { v })
}

/// How BCD with hex digits in it reads on the meter
pub fn bcd_text(b: &[u8]) -> String {
	let mut out = String::new();
	for (i, byte) in b.iter().rev().enumerate() {
		for (j, nib) in [byte >> 4, byte & 15].into_iter().enumerate() {
			if i == 0 && j == 0 && nib == 15 {
				out.push('-');
			} else {
				out.push(b"0123456789ABCDEF"[nib as usize] as char);
			}
		}
	}
	out
}

fn bcd_or_text(b: &[u8]) -> T {
	match bcd(b) {
		Some(v) => T::Node("Signed", vec![("v", T::N(v))]),
		None => T::Node("ErrorValue", vec![("v", s(bcd_text(b)))]),
	}
}

/// Windows-1252 as in the WHATWG encoding standard
const CP1252: [char; 32] = [
	'\u{20AC}', '\u{81}', '\u{201A}', '\u{192}', '\u{201E}', '\u{2026}', '\u{2020}', '\u{2021}',
	'\u{2C6}', '\u{2030}', '\u{160}', '\u{2039}', '\u{152}', '\u{8D}', '\u{17D}', '\u{8F}',
	'\u{90}', '\u{2018}', '\u{2019}', '\u{201C}', '\u{201D}', '\u{2022}', '\u{2013}', '\u{2014}',
	'\u{2DC}', '\u{2122}', '\u{161}', '\u{203A}', '\u{153}', '\u{9D}', '\u{17E}', '\u{178}',
];

pub fn latin1(b: &[u8]) -> T {
	let win: String = b
		.iter()
		.rev()
		.map(|v| match v {
			0x80..=0x9F => CP1252[(*v - 0x80) as usize],
			v => *v as char,
		})
		.collect();
	let iso: String = b.iter().rev().map(|v| *v as char).collect();
	let node = |v: String| T::Node("String", vec![("v", T::S(v))]);
	if win == iso {
		node(win)
	} else {
		// Strictly the standard says ISO 8859-1, everyone reads that as
		// Windows-1252
		T::OneOf(vec![node(win), node(iso)])
	}
}

fn lvar(c: &mut Cur, sign: Sign, notes: &mut Notes) -> R<(&'static str, T)> {
	let code = c.u8("lvar")?;
	let giant = |b: &[u8]| T::Node("VariableLengthNumber", vec![("v", T::B(b.to_vec()))]);
	Ok(match code {
		0x00..=0xBF => ("data:lvar-text", latin1(c.take(code as usize, "lvar")?)),
		0xC0..=0xC9 => {
			let b = c.take((code - 0xC0) as usize, "lvar")?;
			let v = bcd(b).ok_or("lvar bcd")?;
			if b.last().map(|v| v >> 4 == 15).unwrap_or(false) {
				// A sign in a number that is declared to be positive
				if v < 0 {
					return Err("lvar bcd");
				}
				notes.may_reject = true;
			}
			if b.is_empty() {
				// A number without digits: only ever called 0
				notes.may_reject = true;
			}
			("data:lvar-bcd", T::Node("Signed", vec![("v", T::N(v))]))
		}
		0xD0..=0xD9 => {
			let b = c.take((code - 0xD0) as usize, "lvar")?;
			let v = bcd(b).ok_or("lvar bcd")?;
			if b.is_empty() || b[b.len() - 1] >> 4 == 15 {
				notes.may_reject = true;
			}
			(
				"data:lvar-bcd",
				T::Node("Signed", vec![("v", T::N(-v.abs()))]),
			)
		}
		0xE0..=0xE8 => (
			"data:lvar-int",
			integer(c.take((code - 0xE0) as usize, "lvar")?, sign),
		),
		0xE9..=0xEF => (
			"data:lvar-giant",
			giant(c.take((code - 0xE0) as usize, "lvar")?),
		),
		0xF0..=0xF4 => (
			"data:lvar-giant",
			giant(c.take(4 * (code - 0xEC) as usize, "lvar")?),
		),
		0xF5 => ("data:lvar-giant", giant(c.take(48, "lvar")?)),
		0xF6 => ("data:lvar-giant", giant(c.take(64, "lvar")?)),
		_ => return Err("lvar"),
	})
}

fn dmy(b0: u8, b1: u8) -> R<(u8, u8, u8)> {
	if b0 == 0xFF && b1 == 0xFF {
		return Err("date");
	}
	let day = b0 & 31;
	let month = b1 & 15;
	let year = b0 >> 5 | (b1 >> 4) << 3;
	if month == 13 || month == 14 || (100..127).contains(&year) {
		return Err("date");
	}
	Ok((day, month, year))
}

fn sixty(v: u8) -> R<u8> {
	match v {
		0..=59 | 63 => Ok(v),
		_ => Err("date"),
	}
}

fn hours(v: u8) -> R<u8> {
	match v {
		0..=23 | 31 => Ok(v),
		_ => Err("date"),
	}
}

pub fn type_f(b: &[u8]) -> R<T> {
	if b[0] & 0xC0 != 0 {
		return Err("date");
	}
	let minute = sixty(b[0] & 63)?;
	let hour = hours(b[1] & 31)?;
	let (day, month, year) = dmy(b[2], b[3])?;
	let mut century = b[1] >> 5 & 3;
	if century == 0 && year <= 80 {
		century = 1;
	}
	Ok(T::Node(
		"DateTimeF",
		vec![
			("minute", n(minute)),
			("hour", n(hour)),
			("day", n(day)),
			("month", n(month)),
			("year", n(year)),
			("hundred_year", n(century)),
			("in_dst", T::Bool(b[1] & 0x80 != 0)),
		],
	))
}

pub fn type_g(b: &[u8]) -> R<T> {
	let (day, month, year) = dmy(b[0], b[1])?;
	Ok(T::Node(
		"Date",
		vec![("day", n(day)), ("month", n(month)), ("year", n(year))],
	))
}

pub fn type_i(b: &[u8]) -> R<T> {
	if b[1] & 0x80 != 0 {
		return Err("date");
	}
	let second = sixty(b[0] & 63)?;
	let minute = sixty(b[1] & 63)?;
	let hour = hours(b[2] & 31)?;
	let (day, month, year) = dmy(b[3], b[4])?;
	let week = b[5] & 63;
	if week > 53 {
		return Err("date");
	}
	let mut offset = (b[5] >> 6) as i8;
	if b[1] & 0x40 == 0 {
		offset = -offset;
	}
	Ok(T::Node(
		"DateTimeI",
		vec![
			("second", n(second)),
			("minute", n(minute)),
			("hour", n(hour)),
			("day", n(day)),
			("month", n(month)),
			("year", n(year)),
			("day_of_week", n(b[2] >> 5)),
			("week", n(week)),
			("in_dst", T::Bool(b[0] & 0x40 != 0)),
			("leap_year", T::Bool(b[0] & 0x80 != 0)),
			("dst_offset", n(offset)),
		],
	))
}

pub fn type_j(b: &[u8]) -> R<T> {
	if b[0] & 0xC0 != 0 || b[1] & 0xC0 != 0 || b[2] & 0xE0 != 0 {
		return Err("date");
	}
	Ok(T::Node(
		"Time",
		vec![
			("second", n(sixty(b[0])?)),
			("minute", n(sixty(b[1])?)),
			("hour", n(hours(b[2])?)),
		],
	))
}

pub fn type_k(b: &[u8]) -> R<T> {
	let starts_hour = hours(b[0] & 31).map_err(|_| "dst")?;
	let starts_day = b[1] & 31;
	let ends_day = b[2] & 31;
	let starts_month = b[3] & 15;
	let ends_month = b[3] >> 4;
	let local = b[0] >> 5 | (b[1] >> 5 & 3) << 3;
	if starts_day == 0
		|| ends_day == 0
		|| !(1..=12).contains(&starts_month)
		|| !(1..=12).contains(&ends_month)
		|| (24..31).contains(&local)
	{
		return Err("dst");
	}
	let mut deviation = (b[2] >> 5 & 3) as i8;
	if b[2] & 0x80 == 0 {
		deviation = -deviation;
	}
	Ok(T::Node(
		"Dst",
		vec![
			("starts_hour", n(starts_hour)),
			("starts_day", n(starts_day)),
			("starts_month", n(starts_month)),
			("ends_day", n(ends_day)),
			("ends_month", n(ends_month)),
			("enable", T::Bool(b[1] & 0x80 != 0)),
			("dst_deviation", n(deviation)),
			("local_deviation", n(local)),
		],
	))
}
