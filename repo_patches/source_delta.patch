From 1d634c2c00202fb4083380c7262f6f3f7c2ac4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:01 +0000
Subject: [PATCH 01/17] fix: reject long frames whose length is too short for
 their header

A length of 0 or 1 underflowed when the two header bytes were taken off it:
a panic in debug builds, a demand for 254/255 bytes in release builds.
---
 src/parse/link_layer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 08a323b..0d46d35 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -139,6 +139,8 @@ where
 		+ Clone,
 {
 	let length = binary::u8
+		// The length covers at least the control and address bytes
+		.verify(|v| *v >= 2)
 		.context(StrContext::Label("length"))
 		.parse_next(input)?;
 	binary::u8
-- 
2.43.0


From f14141c7aa83c4c14307d2d84a523c8fecf3f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 02/17] fix: report control function 15 as link not implemented

It was reported as "link not functioning", which is function 14.
---
 src/parse/link_layer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 0d46d35..0732a33 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -107,7 +107,7 @@ impl Control {
 						9 => SecondaryControlMessage::UserDataUnavailable,
 						11 => SecondaryControlMessage::Status,
 						14 => SecondaryControlMessage::LinkNotFunctioning,
-						15 => SecondaryControlMessage::LinkNotFunctioning,
+						15 => SecondaryControlMessage::LinkNotImplemented,
 						_ => return None,
 					},
 				}
-- 
2.43.0


From 93c492ecfc6c9886e80f76a5507b8d0671599ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 03/17] fix: ask for more data when a partial stream ends
 before the control byte

The bit level parser used the non-modal error type, which cannot express
"incomplete", so a frame split there was rejected as malformed.
---
 src/parse/link_layer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/link_layer.rs b/src/parse/link_layer.rs
index 0732a33..40c47fd 100644
--- a/src/parse/link_layer.rs
+++ b/src/parse/link_layer.rs
@@ -73,7 +73,8 @@ impl Control {
 			bits::bool.context(StrContext::Label("PRM")),
 			bits::bool.context(StrContext::Label("FCB/ACD")),
 			bits::bool.context(StrContext::Label("FCV/DFC")),
-			bits::take::<_, u8, _, MBusError>(4_usize).context(StrContext::Label("function")),
+			bits::take::<_, u8, _, ErrMode<MBusError>>(4_usize)
+				.context(StrContext::Label("function")),
 		))
 		.verify_map(|(_, prm, fcb_acd, fcv_dfc, function)| {
 			Some(if prm {
-- 
2.43.0


From 4510cc15d92f4930e3f255c3a72b5cc5bd08767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 04/17] fix: accept the headerless reset, command and selection
 CI fields

0x50, 0x51 and 0x52 have handlers but were missing from the list of CI
fields without a transport layer header, so they were rejected as reserved.
---
 src/parse/transport_layer/control_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index cf17a49..6e4304b 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -64,6 +64,7 @@ impl MBusMessage {
 
 		let header = match ci {
 			0x00..=0x1F
+			| 0x50..=0x52
 			| 0x54
 			| 0x5C
 			| 0x66
-- 
2.43.0


From 40eaf634de543e77602e69a0a997be74b82468ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 05/17] fix: return an error for unsupported CI fields instead
 of panicking

Format and compact frames hit a todo!() and CI fields 0x64, 0x65, 0x84 and
0x85 an unreachable!(), so a well formed frame off the bus could crash the
program reading it.
---
 src/parse/transport_layer/control_info.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parse/transport_layer/control_info.rs b/src/parse/transport_layer/control_info.rs
index 6e4304b..57dc5fe 100644
--- a/src/parse/transport_layer/control_info.rs
+++ b/src/parse/transport_layer/control_info.rs
@@ -168,15 +168,21 @@ impl MBusMessage {
 			0x6D => Self::TimeAdjustmentToDevice(header, parse_remaining.parse_next(input)?),
 			// Actual mbus
 			0x51 | 0x5A | 0x5B => Self::CommandToDevice(header, parse_remaining.parse_next(input)?),
-			0x69..=0x6B => todo!("format frame"),
 			0x6E..=0x70 => Self::ApplicationErrorFromDevice(
 				header,
 				ApplicationErrorMessage::parse.parse_next(input)?,
 			),
 			0x71 | 0x74 | 0x75 => Self::AlarmFromDevice(header, parse_remaining.parse_next(input)?),
 			0x72 | 0x78 | 0x7A => Self::ResponseFromDevice(header, Frame::parse.parse_next(input)?),
-			0x73 | 0x79 | 0x7B => todo!("compact frame"),
-			_ => unreachable!(),
+			// TODO: Format frames (0x69..=0x6B), compact frames (0x73 | 0x79 | 0x7B)
+			// and the OBIS (0x64 | 0x65) and transport layer (0x84 | 0x85) messages
+			_ => {
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&ci_checkpoint,
+					StrContext::Label("unsupported CI field"),
+				));
+			}
 		})
 	}
 }
-- 
2.43.0


From 885cab7498643936502b2400dad42d8ed24172dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 06/17] fix: return an error for encrypted packets instead of
 panicking

---
 src/parse/transport_layer/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index 1bdc7a1..ddf0e9d 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -119,7 +119,8 @@ impl SecurityMode {
 				}
 				// libmbus strikes again
 				6 | 11 | 12 | 14 | 16..=31 => Some(SecurityMode::Reserved(raw_value)),
-				_ => todo!("Packet encryption is not yet supported (mode {security_mode})"),
+				// TODO: Packet encryption is not yet supported
+				_ => None,
 			}
 		})
 		.parse_next(input)
-- 
2.43.0


From 4bc2e7a8c181abe460dc5e6a5ff9ef5be91135df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:07 +0000
Subject: [PATCH 07/17] fix: read the security mode from bits 8 to 12 of the
 configuration field

The mode was read from bits 11 to 15, so for example a telegram using mode 5
(0x05xx) was treated as having mode 0 with extra information in it.
---
 src/parse/transport_layer/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/transport_layer/header.rs b/src/parse/transport_layer/header.rs
index ddf0e9d..8ed9dd2 100644
--- a/src/parse/transport_layer/header.rs
+++ b/src/parse/transport_layer/header.rs
@@ -105,10 +105,10 @@ impl SecurityMode {
 			.parse_next(input)?;
 		(binary::bits::bits::<_, _, MBusError, _, _>((
 			binary::bits::take(8_usize).context(StrContext::Label("Security mode info low")),
-			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 			binary::bits::take(3_usize).context(StrContext::Label("Security mode info high")),
+			binary::bits::take(5_usize).context(StrContext::Label("Security mode")),
 		)))
-		.verify_map(|(info_low, security_mode, info_high): (u8, u8, u8)| {
+		.verify_map(|(info_low, info_high, security_mode): (u8, u8, u8)| {
 			match security_mode {
 				0 => {
 					if info_high == 0 && info_low == 0 {
-- 
2.43.0


From a67e4ea9352c371fc6af5b53d8eb713cd5a0a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 08/17] fix: assemble storage, tariff and device numbers from
 the right bits

The DIF holds bit 0 of the storage number and no bits of the other two, so
the first DIFE carries storage bits 1 to 4, tariff bits 0 to 1 and device
bit 0. Everything was shifted too far, which for example made tariff 2 come
out as 8 and storage 8 as 64.
---
 src/parse/application_layer/dib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index 5fcf55f..6bf9faa 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -117,9 +117,11 @@ impl DataInfoBlock {
 				break;
 			}
 
-			dife_device <<= i;
-			dife_tariff <<= 2 * i;
-			dife_storage <<= 4 * i;
+			// The DIF holds the lowest bit of the storage number but nothing of
+			// the device or tariff
+			dife_device <<= i - 1;
+			dife_tariff <<= 2 * (i - 1);
+			dife_storage <<= 4 * (i - 1) + 1;
 			i += 1;
 
 			device += dife_device;
-- 
2.43.0


From 2a05811ffc916de333c5556e318a97df1aeca2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 09/17] fix: return an error for packets with more than 10
 DIFEs

winnow's assert() panics in debug builds. It is meant for mistakes in the
program, not in the data.
---
 src/parse/application_layer/dib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parse/application_layer/dib.rs b/src/parse/application_layer/dib.rs
index 6bf9faa..bb852fc 100644
--- a/src/parse/application_layer/dib.rs
+++ b/src/parse/application_layer/dib.rs
@@ -2,10 +2,11 @@
 // Licensed under the EUPL-1.2
 #![allow(dead_code)]
 
-use crate::parse::error::{MBResult, MBusError};
+use crate::parse::error::{MBResult, MBusContext, MBusError};
 use crate::parse::types::BitsInput;
 use winnow::binary::bits;
-use winnow::error::{ParserError, StrContext};
+use winnow::error::{AddContext, ParserError, StrContext};
+use winnow::stream::Stream;
 use winnow::Parser;
 
 #[derive(Debug, Clone, Copy)]
@@ -95,7 +96,11 @@ impl DataInfoBlock {
 		let mut i = 1;
 		while extension {
 			if i > 10 {
-				return Err(MBusError::assert(input, "Packet has more than 10 DIFEs!"));
+				return Err(MBusError::from_input(input).add_context(
+					input,
+					&input.checkpoint(),
+					MBusContext::Assertion("Packet has more than 10 DIFEs!"),
+				));
 			}
 
 			let mut dife_device: u16;
-- 
2.43.0


From 20a68674cca439508025166ddd9eeac75ac56615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 10/17] fix: accept zero as a variable length positive BCD
 number

Only numbers that carry a minus sign need rejecting here.
---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 21041f7..d58d06a 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -84,7 +84,7 @@ impl Record {
 							parse_latin1(n).map(DataType::String).parse_next(input)?
 						}
 						n @ 0xC0..=0xC9 => parse_bcd(n - 0xC0)
-							.verify(|v| *v > 0)
+							.verify(|v| *v >= 0)
 							.map(DataType::Signed)
 							.parse_next(input)?,
 						n @ 0xD0..=0xD9 => parse_bcd(n - 0xD0)
-- 
2.43.0


From d966be2f224093f9abdfc5b581dd270be1b767c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:11 +0000
Subject: [PATCH 11/17] fix: do not look for byte order marks in latin-1
 strings
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Encoding::decode() switches to UTF-8 or UTF-16 when the data happens to
start with a BOM, so strings whose last characters are for example "þÿ"
were garbled.
---
 src/parse/types/string.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parse/types/string.rs b/src/parse/types/string.rs
index 759a174..0f27218 100644
--- a/src/parse/types/string.rs
+++ b/src/parse/types/string.rs
@@ -29,7 +29,14 @@ pub fn parse_latin1<'a>(num_bytes: usize) -> impl Parser<&'a Bytes, String, MBus
 			repeat::<_, _, (), _, _>(num_bytes, binary::u8)
 				.context(StrContext::Label("latin-1 string"))
 				.take()
-				.map(|data| WINDOWS_1252.decode(data).0.chars().rev().collect())
+				.map(|data| {
+					WINDOWS_1252
+						.decode_without_bom_handling(data)
+						.0
+						.chars()
+						.rev()
+						.collect()
+				})
 				.parse_next(input)
 		}
 	}
-- 
2.43.0


From c3f4f66bd2e0d9a15c5ccf9a585288e440a3f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 12/17] fix: decode 6 byte timestamps as type I

Type I is 48 bits long. There is no 5 byte data type, so it was never used.
---
 src/parse/application_layer/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index d58d06a..5c9e81e 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -136,7 +136,7 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::LVAR => ValueType::TypeMDatetime,
 			RawDataType::Binary(4) => ValueType::TypeFDateTime,
 			RawDataType::Binary(3) => ValueType::TypeJTime,
-			RawDataType::Binary(5) => ValueType::TypeIDateTime,
+			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
 		vt => vt,
-- 
2.43.0


From 301f671c10e3d2b96790fb8c1023663c5fd69b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 13/17] fix: only decode daylight savings type K from 4 byte
 data

It always consumed 4 bytes regardless of the data length in the DIF, so the
records after it were read from the wrong place.
---
 src/parse/application_layer/record.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index 5c9e81e..a4361dc 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -139,6 +139,10 @@ fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoB
 			RawDataType::Binary(6) => ValueType::TypeIDateTime,
 			_ => ValueType::Invalid(vif!(E110 1101)),
 		},
+		ValueType::DSTTypeK => match dib.raw_type {
+			RawDataType::Binary(4) => ValueType::DSTTypeK,
+			_ => ValueType::Invalid(vif!(E111 0010)),
+		},
 		vt => vt,
 	};
 	vib
-- 
2.43.0


From 8fa033d8158bf41741172664ae6b445e88d9c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:14 +0000
Subject: [PATCH 14/17] fix: put the type K local deviation together the right
 way round

As with the year of the other date types the 3 bits of the first byte are
the lower ones. Bit 2 of the result could never be set, which ruled out
valid values such as 31 (unspecified).
---
 src/parse/types/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/types/date.rs b/src/parse/types/date.rs
index 75fe821..aa3eae0 100644
--- a/src/parse/types/date.rs
+++ b/src/parse/types/date.rs
@@ -511,7 +511,7 @@ impl TypeKDST {
 				} else {
 					-dst_deviation
 				},
-				local_deviation: gmt_l + (gmt_u << 3),
+				local_deviation: gmt_u + (gmt_l << 3),
 			},
 		)
 		.verify(|v| matches!(v.local_deviation, 0..=23 | 31))
-- 
2.43.0


From 8c429f9eb45899873766b841e05df40d00c0dd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 15/17] fix: name the week in the error for a week out of range

It was blamed on the daylight saving offset, which is another field.
---
 src/parse/types/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/types/date.rs b/src/parse/types/date.rs
index aa3eae0..30b6458 100644
--- a/src/parse/types/date.rs
+++ b/src/parse/types/date.rs
@@ -307,7 +307,7 @@ impl TypeIDateTime {
 				.context(StrContext::Label("dst offset")),
 			bits::take(6_usize)
 				.verify(|v| matches!(v, 0..=53))
-				.context(StrContext::Label("dst offset")),
+				.context(StrContext::Label("week")),
 		))
 		.map(
 			|(
-- 
2.43.0


From 3831aa11b87b35d2a48fe1798cfacb1ddfbbd494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:43 +0000
Subject: [PATCH 16/17] fix: do not blame the year for a day or month that is
 wrong

The label of the year covered the whole date, so that the error for a
month out of range named the year as well.
---
 src/parse/types/date.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/parse/types/date.rs b/src/parse/types/date.rs
index 30b6458..92b9498 100644
--- a/src/parse/types/date.rs
+++ b/src/parse/types/date.rs
@@ -4,8 +4,9 @@
 
 use winnow::binary::bits;
 use winnow::combinator::peek;
-use winnow::error::StrContext;
+use winnow::error::{AddContext, ParserError, StrContext};
 use winnow::prelude::*;
+use winnow::stream::Stream;
 use winnow::Bytes;
 
 use crate::parse::error::{MBResult, MBusError};
@@ -13,7 +14,8 @@ use crate::parse::error::{MBResult, MBusError};
 use super::BitsInput;
 
 fn parse_dmy(input: &mut BitsInput<'_>) -> MBResult<(u8, u8, u8)> {
-	(
+	let start = input.checkpoint();
+	let (_, year_upper, day, year_lower, month): ((), u8, u8, u8, u8) = (
 		peek(bits::take::<_, u16, _, _>(16_usize))
 			.verify(|v| *v != 0xFFFF)
 			.context(StrContext::Label("invalid check"))
@@ -42,10 +44,20 @@ fn parse_dmy(input: &mut BitsInput<'_>) -> MBResult<(u8, u8, u8)> {
 			})
 			.context(StrContext::Label("month")),
 	)
-		.map(|(_, yu, day, yl, month): ((), u8, u8, u8, u8)| (day, month, yu + (yl << 3)))
-		.verify(|(_, _, y)| matches!(y, 0..=99 | 127))
-		.context(StrContext::Label("year"))
-		.parse_next(input)
+		.parse_next(input)?;
+
+	let year = year_upper + (year_lower << 3);
+	// Only this is about the year, the errors from above say what they are about
+	if !matches!(year, 0..=99 | 127) {
+		input.reset(&start);
+		return Err(MBusError::from_input(input).add_context(
+			input,
+			&start,
+			StrContext::Label("year"),
+		));
+	}
+
+	Ok((day, month, year))
 }
 
 const MASK_SECOND: u8 = 0b0011_1111;
-- 
2.43.0


From ab62762a73542081d436a2ffbec4c9c7357c299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 17/17] fix: name the number in the errors for reals and for
 large and positive numbers

The errors for these named the record and nothing in it, unlike those for
all other kinds of data.
---
 src/parse/application_layer/record.rs | 5 ++++-
 src/parse/types/number.rs             | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse/application_layer/record.rs b/src/parse/application_layer/record.rs
index a4361dc..63efcf8 100644
--- a/src/parse/application_layer/record.rs
+++ b/src/parse/application_layer/record.rs
@@ -85,6 +85,7 @@ impl Record {
 						}
 						n @ 0xC0..=0xC9 => parse_bcd(n - 0xC0)
 							.verify(|v| *v >= 0)
+							.context(StrContext::Label("positive BCD number"))
 							.map(DataType::Signed)
 							.parse_next(input)?,
 						n @ 0xD0..=0xD9 => parse_bcd(n - 0xD0)
@@ -123,7 +124,9 @@ pub fn parse_binary<'a>(
 }
 
 fn parse_giant_number<'a>(bytes: usize) -> impl Parser<&'a Bytes, DataType, MBusError> {
-	repeat(bytes, binary::u8).map(DataType::VariableLengthNumber)
+	repeat(bytes, binary::u8)
+		.map(DataType::VariableLengthNumber)
+		.context(StrContext::Label("large number"))
 }
 
 fn handle_date_types(dib: &DataInfoBlock, mut vib: ValueInfoBlock) -> ValueInfoBlock {
diff --git a/src/parse/types/number.rs b/src/parse/types/number.rs
index 34ebf07..ac89193 100644
--- a/src/parse/types/number.rs
+++ b/src/parse/types/number.rs
@@ -681,7 +681,9 @@ mod test_parse_binary_unsigned {
 }
 
 pub fn parse_real(input: &mut &Bytes) -> MBResult<f32> {
-	binary::le_f32.parse_next(input)
+	binary::le_f32
+		.context(StrContext::Label("real number"))
+		.parse_next(input)
 }
 
 #[cfg(test)]
-- 
2.43.0

