use libmbus_macros::vif;

// Made by generate.py: every pattern there is

pub type Row = (&'static str, u8, u8, fn(u8) -> bool, fn(u8) -> bool);

pub const PATTERNS: &[Row] = &[
	("E000 0000", 0, 0, |v| matches!(v, vif!(E000 0000)), |v| match v { vif!(E000 0000) => true, 0..=255 => false }),
	("E000 0001", 1, 0, |v| matches!(v, vif!(E000 0001)), |v| match v { vif!(E000 0001) => true, 0..=255 => false }),
	("E000 0010", 2, 0, |v| matches!(v, vif!(E000 0010)), |v| match v { vif!(E000 0010) => true, 0..=255 => false }),
	("E000 0011", 3, 0, |v| matches!(v, vif!(E000 0011)), |v| match v { vif!(E000 0011) => true, 0..=255 => false }),
	("E000 0100", 4, 0, |v| matches!(v, vif!(E000 0100)), |v| match v { vif!(E000 0100) => true, 0..=255 => false }),
	("E000 0101", 5, 0, |v| matches!(v, vif!(E000 0101)), |v| match v { vif!(E000 0101) => true, 0..=255 => false }),
	("E000 0110", 6, 0, |v| matches!(v, vif!(E000 0110)), |v| match v { vif!(E000 0110) => true, 0..=255 => false }),
	("E000 0111", 7, 0, |v| matches!(v, vif!(E000 0111)), |v| match v { vif!(E000 0111) => true, 0..=255 => false }),
	("E000 1000", 8, 0, |v| matches!(v, vif!(E000 1000)), |v| match v { vif!(E000 1000) => true, 0..=255 => false }),
	("E000 1001", 9, 0, |v| matches!(v, vif!(E000 1001)), |v| match v { vif!(E000 1001) => true, 0..=255 => false }),
	("E000 1010", 10, 0, |v| matches!(v, vif!(E000 1010)), |v| match v { vif!(E000 1010) => true, 0..=255 => false }),
	("E000 1011", 11, 0, |v| matches!(v, vif!(E000 1011)), |v| match v { vif!(E000 1011) => true, 0..=255 => false }),
	("E000 1100", 12, 0, |v| matches!(v, vif!(E000 1100)), |v| match v { vif!(E000 1100) => true, 0..=255 => false }),
	("E000 1101", 13, 0, |v| matches!(v, vif!(E000 1101)), |v| match v { vif!(E000 1101) => true, 0..=255 => false }),
	("E000 1110", 14, 0, |v| matches!(v, vif!(E000 1110)), |v| match v { vif!(E000 1110) => true, 0..=255 => false }),
	("E000 1111", 15, 0, |v| matches!(v, vif!(E000 1111)), |v| match v { vif!(E000 1111) => true, 0..=255 => false }),
	("E000 000n", 0, 1, |v| matches!(v, vif!(E000 000n)), |v| match v { vif!(E000 000n) => true, 0..=255 => false }),
	("E000 000p", 0, 1, |v| matches!(v, vif!(E000 000p)), |v| match v { vif!(E000 000p) => true, 0..=255 => false }),
	("E000 001n", 2, 1, |v| matches!(v, vif!(E000 001n)), |v| match v { vif!(E000 001n) => true, 0..=255 => false }),
	("E000 001p", 2, 1, |v| matches!(v, vif!(E000 001p)), |v| match v { vif!(E000 001p) => true, 0..=255 => false }),
	("E000 010n", 4, 1, |v| matches!(v, vif!(E000 010n)), |v| match v { vif!(E000 010n) => true, 0..=255 => false }),
	("E000 010p", 4, 1, |v| matches!(v, vif!(E000 010p)), |v| match v { vif!(E000 010p) => true, 0..=255 => false }),
	("E000 011n", 6, 1, |v| matches!(v, vif!(E000 011n)), |v| match v { vif!(E000 011n) => true, 0..=255 => false }),
	("E000 011p", 6, 1, |v| matches!(v, vif!(E000 011p)), |v| match v { vif!(E000 011p) => true, 0..=255 => false }),
	("E000 100n", 8, 1, |v| matches!(v, vif!(E000 100n)), |v| match v { vif!(E000 100n) => true, 0..=255 => false }),
	("E000 100p", 8, 1, |v| matches!(v, vif!(E000 100p)), |v| match v { vif!(E000 100p) => true, 0..=255 => false }),
	("E000 101n", 10, 1, |v| matches!(v, vif!(E000 101n)), |v| match v { vif!(E000 101n) => true, 0..=255 => false }),
	("E000 101p", 10, 1, |v| matches!(v, vif!(E000 101p)), |v| match v { vif!(E000 101p) => true, 0..=255 => false }),
	("E000 110n", 12, 1, |v| matches!(v, vif!(E000 110n)), |v| match v { vif!(E000 110n) => true, 0..=255 => false }),
	("E000 110p", 12, 1, |v| matches!(v, vif!(E000 110p)), |v| match v { vif!(E000 110p) => true, 0..=255 => false }),
	("E000 111n", 14, 1, |v| matches!(v, vif!(E000 111n)), |v| match v { vif!(E000 111n) => true, 0..=255 => false }),
	("E000 111p", 14, 1, |v| matches!(v, vif!(E000 111p)), |v| match v { vif!(E000 111p) => true, 0..=255 => false }),
	("E000 00nn", 0, 3, |v| matches!(v, vif!(E000 00nn)), |v| match v { vif!(E000 00nn) => true, 0..=255 => false }),
	("E000 00np", 0, 3, |v| matches!(v, vif!(E000 00np)), |v| match v { vif!(E000 00np) => true, 0..=255 => false }),
	("E000 00pn", 0, 3, |v| matches!(v, vif!(E000 00pn)), |v| match v { vif!(E000 00pn) => true, 0..=255 => false }),
	("E000 00pp", 0, 3, |v| matches!(v, vif!(E000 00pp)), |v| match v { vif!(E000 00pp) => true, 0..=255 => false }),
	("E000 01nn", 4, 3, |v| matches!(v, vif!(E000 01nn)), |v| match v { vif!(E000 01nn) => true, 0..=255 => false }),
	("E000 01np", 4, 3, |v| matches!(v, vif!(E000 01np)), |v| match v { vif!(E000 01np) => true, 0..=255 => false }),
	("E000 01pn", 4, 3, |v| matches!(v, vif!(E000 01pn)), |v| match v { vif!(E000 01pn) => true, 0..=255 => false }),
	("E000 01pp", 4, 3, |v| matches!(v, vif!(E000 01pp)), |v| match v { vif!(E000 01pp) => true, 0..=255 => false }),
	("E000 10nn", 8, 3, |v| matches!(v, vif!(E000 10nn)), |v| match v { vif!(E000 10nn) => true, 0..=255 => false }),
	("E000 10np", 8, 3, |v| matches!(v, vif!(E000 10np)), |v| match v { vif!(E000 10np) => true, 0..=255 => false }),
	("E000 10pn", 8, 3, |v| matches!(v, vif!(E000 10pn)), |v| match v { vif!(E000 10pn) => true, 0..=255 => false }),
	("E000 10pp", 8, 3, |v| matches!(v, vif!(E000 10pp)), |v| match v { vif!(E000 10pp) => true, 0..=255 => false }),
	("E000 11nn", 12, 3, |v| matches!(v, vif!(E000 11nn)), |v| match v { vif!(E000 11nn) => true, 0..=255 => false }),
	("E000 11np", 12, 3, |v| matches!(v, vif!(E000 11np)), |v| match v { vif!(E000 11np) => true, 0..=255 => false }),
	("E000 11pn", 12, 3, |v| matches!(v, vif!(E000 11pn)), |v| match v { vif!(E000 11pn) => true, 0..=255 => false }),
	("E000 11pp", 12, 3, |v| matches!(v, vif!(E000 11pp)), |v| match v { vif!(E000 11pp) => true, 0..=255 => false }),
	("E000 0nnn", 0, 7, |v| matches!(v, vif!(E000 0nnn)), |v| match v { vif!(E000 0nnn) => true, 0..=255 => false }),
	("E000 0nnp", 0, 7, |v| matches!(v, vif!(E000 0nnp)), |v| match v { vif!(E000 0nnp) => true, 0..=255 => false }),
	("E000 0npn", 0, 7, |v| matches!(v, vif!(E000 0npn)), |v| match v { vif!(E000 0npn) => true, 0..=255 => false }),
	("E000 0npp", 0, 7, |v| matches!(v, vif!(E000 0npp)), |v| match v { vif!(E000 0npp) => true, 0..=255 => false }),
	("E000 0pnn", 0, 7, |v| matches!(v, vif!(E000 0pnn)), |v| match v { vif!(E000 0pnn) => true, 0..=255 => false }),
	("E000 0pnp", 0, 7, |v| matches!(v, vif!(E000 0pnp)), |v| match v { vif!(E000 0pnp) => true, 0..=255 => false }),
	("E000 0ppn", 0, 7, |v| matches!(v, vif!(E000 0ppn)), |v| match v { vif!(E000 0ppn) => true, 0..=255 => false }),
	("E000 0ppp", 0, 7, |v| matches!(v, vif!(E000 0ppp)), |v| match v { vif!(E000 0ppp) => true, 0..=255 => false }),
	("E000 1nnn", 8, 7, |v| matches!(v, vif!(E000 1nnn)), |v| match v { vif!(E000 1nnn) => true, 0..=255 => false }),
	("E000 1nnp", 8, 7, |v| matches!(v, vif!(E000 1nnp)), |v| match v { vif!(E000 1nnp) => true, 0..=255 => false }),
	("E000 1npn", 8, 7, |v| matches!(v, vif!(E000 1npn)), |v| match v { vif!(E000 1npn) => true, 0..=255 => false }),
	("E000 1npp", 8, 7, |v| matches!(v, vif!(E000 1npp)), |v| match v { vif!(E000 1npp) => true, 0..=255 => false }),
	("E000 1pnn", 8, 7, |v| matches!(v, vif!(E000 1pnn)), |v| match v { vif!(E000 1pnn) => true, 0..=255 => false }),
	("E000 1pnp", 8, 7, |v| matches!(v, vif!(E000 1pnp)), |v| match v { vif!(E000 1pnp) => true, 0..=255 => false }),
	("E000 1ppn", 8, 7, |v| matches!(v, vif!(E000 1ppn)), |v| match v { vif!(E000 1ppn) => true, 0..=255 => false }),
	("E000 1ppp", 8, 7, |v| matches!(v, vif!(E000 1ppp)), |v| match v { vif!(E000 1ppp) => true, 0..=255 => false }),
	("E000 nnnn", 0, 15, |v| matches!(v, vif!(E000 nnnn)), |v| match v { vif!(E000 nnnn) => true, 0..=255 => false }),
	("E000 nnnp", 0, 15, |v| matches!(v, vif!(E000 nnnp)), |v| match v { vif!(E000 nnnp) => true, 0..=255 => false }),
	("E000 nnpn", 0, 15, |v| matches!(v, vif!(E000 nnpn)), |v| match v { vif!(E000 nnpn) => true, 0..=255 => false }),
	("E000 nnpp", 0, 15, |v| matches!(v, vif!(E000 nnpp)), |v| match v { vif!(E000 nnpp) => true, 0..=255 => false }),
	("E000 npnn", 0, 15, |v| matches!(v, vif!(E000 npnn)), |v| match v { vif!(E000 npnn) => true, 0..=255 => false }),
	("E000 npnp", 0, 15, |v| matches!(v, vif!(E000 npnp)), |v| match v { vif!(E000 npnp) => true, 0..=255 => false }),
	("E000 nppn", 0, 15, |v| matches!(v, vif!(E000 nppn)), |v| match v { vif!(E000 nppn) => true, 0..=255 => false }),
	("E000 nppp", 0, 15, |v| matches!(v, vif!(E000 nppp)), |v| match v { vif!(E000 nppp) => true, 0..=255 => false }),
	("E000 pnnn", 0, 15, |v| matches!(v, vif!(E000 pnnn)), |v| match v { vif!(E000 pnnn) => true, 0..=255 => false }),
	("E000 pnnp", 0, 15, |v| matches!(v, vif!(E000 pnnp)), |v| match v { vif!(E000 pnnp) => true, 0..=255 => false }),
	("E000 pnpn", 0, 15, |v| matches!(v, vif!(E000 pnpn)), |v| match v { vif!(E000 pnpn) => true, 0..=255 => false }),
	("E000 pnpp", 0, 15, |v| matches!(v, vif!(E000 pnpp)), |v| match v { vif!(E000 pnpp) => true, 0..=255 => false }),
	("E000 ppnn", 0, 15, |v| matches!(v, vif!(E000 ppnn)), |v| match v { vif!(E000 ppnn) => true, 0..=255 => false }),
	("E000 ppnp", 0, 15, |v| matches!(v, vif!(E000 ppnp)), |v| match v { vif!(E000 ppnp) => true, 0..=255 => false }),
	("E000 pppn", 0, 15, |v| matches!(v, vif!(E000 pppn)), |v| match v { vif!(E000 pppn) => true, 0..=255 => false }),
	("E000 pppp", 0, 15, |v| matches!(v, vif!(E000 pppp)), |v| match v { vif!(E000 pppp) => true, 0..=255 => false }),
	("E001 0000", 16, 0, |v| matches!(v, vif!(E001 0000)), |v| match v { vif!(E001 0000) => true, 0..=255 => false }),
	("E001 0001", 17, 0, |v| matches!(v, vif!(E001 0001)), |v| match v { vif!(E001 0001) => true, 0..=255 => false }),
	("E001 0010", 18, 0, |v| matches!(v, vif!(E001 0010)), |v| match v { vif!(E001 0010) => true, 0..=255 => false }),
	("E001 0011", 19, 0, |v| matches!(v, vif!(E001 0011)), |v| match v { vif!(E001 0011) => true, 0..=255 => false }),
	("E001 0100", 20, 0, |v| matches!(v, vif!(E001 0100)), |v| match v { vif!(E001 0100) => true, 0..=255 => false }),
	("E001 0101", 21, 0, |v| matches!(v, vif!(E001 0101)), |v| match v { vif!(E001 0101) => true, 0..=255 => false }),
	("E001 0110", 22, 0, |v| matches!(v, vif!(E001 0110)), |v| match v { vif!(E001 0110) => true, 0..=255 => false }),
	("E001 0111", 23, 0, |v| matches!(v, vif!(E001 0111)), |v| match v { vif!(E001 0111) => true, 0..=255 => false }),
	("E001 1000", 24, 0, |v| matches!(v, vif!(E001 1000)), |v| match v { vif!(E001 1000) => true, 0..=255 => false }),
	("E001 1001", 25, 0, |v| matches!(v, vif!(E001 1001)), |v| match v { vif!(E001 1001) => true, 0..=255 => false }),
	("E001 1010", 26, 0, |v| matches!(v, vif!(E001 1010)), |v| match v { vif!(E001 1010) => true, 0..=255 => false }),
	("E001 1011", 27, 0, |v| matches!(v, vif!(E001 1011)), |v| match v { vif!(E001 1011) => true, 0..=255 => false }),
	("E001 1100", 28, 0, |v| matches!(v, vif!(E001 1100)), |v| match v { vif!(E001 1100) => true, 0..=255 => false }),
	("E001 1101", 29, 0, |v| matches!(v, vif!(E001 1101)), |v| match v { vif!(E001 1101) => true, 0..=255 => false }),
	("E001 1110", 30, 0, |v| matches!(v, vif!(E001 1110)), |v| match v { vif!(E001 1110) => true, 0..=255 => false }),
	("E001 1111", 31, 0, |v| matches!(v, vif!(E001 1111)), |v| match v { vif!(E001 1111) => true, 0..=255 => false }),
	("E001 000n", 16, 1, |v| matches!(v, vif!(E001 000n)), |v| match v { vif!(E001 000n) => true, 0..=255 => false }),
	("E001 000p", 16, 1, |v| matches!(v, vif!(E001 000p)), |v| match v { vif!(E001 000p) => true, 0..=255 => false }),
	("E001 001n", 18, 1, |v| matches!(v, vif!(E001 001n)), |v| match v { vif!(E001 001n) => true, 0..=255 => false }),
	("E001 001p", 18, 1, |v| matches!(v, vif!(E001 001p)), |v| match v { vif!(E001 001p) => true, 0..=255 => false }),
	("E001 010n", 20, 1, |v| matches!(v, vif!(E001 010n)), |v| match v { vif!(E001 010n) => true, 0..=255 => false }),
	("E001 010p", 20, 1, |v| matches!(v, vif!(E001 010p)), |v| match v { vif!(E001 010p) => true, 0..=255 => false }),
	("E001 011n", 22, 1, |v| matches!(v, vif!(E001 011n)), |v| match v { vif!(E001 011n) => true, 0..=255 => false }),
	("E001 011p", 22, 1, |v| matches!(v, vif!(E001 011p)), |v| match v { vif!(E001 011p) => true, 0..=255 => false }),
	("E001 100n", 24, 1, |v| matches!(v, vif!(E001 100n)), |v| match v { vif!(E001 100n) => true, 0..=255 => false }),
	("E001 100p", 24, 1, |v| matches!(v, vif!(E001 100p)), |v| match v { vif!(E001 100p) => true, 0..=255 => false }),
	("E001 101n", 26, 1, |v| matches!(v, vif!(E001 101n)), |v| match v { vif!(E001 101n) => true, 0..=255 => false }),
	("E001 101p", 26, 1, |v| matches!(v, vif!(E001 101p)), |v| match v { vif!(E001 101p) => true, 0..=255 => false }),
	("E001 110n", 28, 1, |v| matches!(v, vif!(E001 110n)), |v| match v { vif!(E001 110n) => true, 0..=255 => false }),
	("E001 110p", 28, 1, |v| matches!(v, vif!(E001 110p)), |v| match v { vif!(E001 110p) => true, 0..=255 => false }),
	("E001 111n", 30, 1, |v| matches!(v, vif!(E001 111n)), |v| match v { vif!(E001 111n) => true, 0..=255 => false }),
	("E001 111p", 30, 1, |v| matches!(v, vif!(E001 111p)), |v| match v { vif!(E001 111p) => true, 0..=255 => false }),
	("E001 00nn", 16, 3, |v| matches!(v, vif!(E001 00nn)), |v| match v { vif!(E001 00nn) => true, 0..=255 => false }),
	("E001 00np", 16, 3, |v| matches!(v, vif!(E001 00np)), |v| match v { vif!(E001 00np) => true, 0..=255 => false }),
	("E001 00pn", 16, 3, |v| matches!(v, vif!(E001 00pn)), |v| match v { vif!(E001 00pn) => true, 0..=255 => false }),
	("E001 00pp", 16, 3, |v| matches!(v, vif!(E001 00pp)), |v| match v { vif!(E001 00pp) => true, 0..=255 => false }),
	("E001 01nn", 20, 3, |v| matches!(v, vif!(E001 01nn)), |v| match v { vif!(E001 01nn) => true, 0..=255 => false }),
	("E001 01np", 20, 3, |v| matches!(v, vif!(E001 01np)), |v| match v { vif!(E001 01np) => true, 0..=255 => false }),
	("E001 01pn", 20, 3, |v| matches!(v, vif!(E001 01pn)), |v| match v { vif!(E001 01pn) => true, 0..=255 => false }),
	("E001 01pp", 20, 3, |v| matches!(v, vif!(E001 01pp)), |v| match v { vif!(E001 01pp) => true, 0..=255 => false }),
	("E001 10nn", 24, 3, |v| matches!(v, vif!(E001 10nn)), |v| match v { vif!(E001 10nn) => true, 0..=255 => false }),
	("E001 10np", 24, 3, |v| matches!(v, vif!(E001 10np)), |v| match v { vif!(E001 10np) => true, 0..=255 => false }),
	("E001 10pn", 24, 3, |v| matches!(v, vif!(E001 10pn)), |v| match v { vif!(E001 10pn) => true, 0..=255 => false }),
	("E001 10pp", 24, 3, |v| matches!(v, vif!(E001 10pp)), |v| match v { vif!(E001 10pp) => true, 0..=255 => false }),
	("E001 11nn", 28, 3, |v| matches!(v, vif!(E001 11nn)), |v| match v { vif!(E001 11nn) => true, 0..=255 => false }),
	("E001 11np", 28, 3, |v| matches!(v, vif!(E001 11np)), |v| match v { vif!(E001 11np) => true, 0..=255 => false }),
	("E001 11pn", 28, 3, |v| matches!(v, vif!(E001 11pn)), |v| match v { vif!(E001 11pn) => true, 0..=255 => false }),
	("E001 11pp", 28, 3, |v| matches!(v, vif!(E001 11pp)), |v| match v { vif!(E001 11pp) => true, 0..=255 => false }),
	("E001 0nnn", 16, 7, |v| matches!(v, vif!(E001 0nnn)), |v| match v { vif!(E001 0nnn) => true, 0..=255 => false }),
	("E001 0nnp", 16, 7, |v| matches!(v, vif!(E001 0nnp)), |v| match v { vif!(E001 0nnp) => true, 0..=255 => false }),
	("E001 0npn", 16, 7, |v| matches!(v, vif!(E001 0npn)), |v| match v { vif!(E001 0npn) => true, 0..=255 => false }),
	("E001 0npp", 16, 7, |v| matches!(v, vif!(E001 0npp)), |v| match v { vif!(E001 0npp) => true, 0..=255 => false }),
	("E001 0pnn", 16, 7, |v| matches!(v, vif!(E001 0pnn)), |v| match v { vif!(E001 0pnn) => true, 0..=255 => false }),
	("E001 0pnp", 16, 7, |v| matches!(v, vif!(E001 0pnp)), |v| match v { vif!(E001 0pnp) => true, 0..=255 => false }),
	("E001 0ppn", 16, 7, |v| matches!(v, vif!(E001 0ppn)), |v| match v { vif!(E001 0ppn) => true, 0..=255 => false }),
	("E001 0ppp", 16, 7, |v| matches!(v, vif!(E001 0ppp)), |v| match v { vif!(E001 0ppp) => true, 0..=255 => false }),
	("E001 1nnn", 24, 7, |v| matches!(v, vif!(E001 1nnn)), |v| match v { vif!(E001 1nnn) => true, 0..=255 => false }),
	("E001 1nnp", 24, 7, |v| matches!(v, vif!(E001 1nnp)), |v| match v { vif!(E001 1nnp) => true, 0..=255 => false }),
	("E001 1npn", 24, 7, |v| matches!(v, vif!(E001 1npn)), |v| match v { vif!(E001 1npn) => true, 0..=255 => false }),
	("E001 1npp", 24, 7, |v| matches!(v, vif!(E001 1npp)), |v| match v { vif!(E001 1npp) => true, 0..=255 => false }),
	("E001 1pnn", 24, 7, |v| matches!(v, vif!(E001 1pnn)), |v| match v { vif!(E001 1pnn) => true, 0..=255 => false }),
	("E001 1pnp", 24, 7, |v| matches!(v, vif!(E001 1pnp)), |v| match v { vif!(E001 1pnp) => true, 0..=255 => false }),
	("E001 1ppn", 24, 7, |v| matches!(v, vif!(E001 1ppn)), |v| match v { vif!(E001 1ppn) => true, 0..=255 => false }),
	("E001 1ppp", 24, 7, |v| matches!(v, vif!(E001 1ppp)), |v| match v { vif!(E001 1ppp) => true, 0..=255 => false }),
	("E001 nnnn", 16, 15, |v| matches!(v, vif!(E001 nnnn)), |v| match v { vif!(E001 nnnn) => true, 0..=255 => false }),
	("E001 nnnp", 16, 15, |v| matches!(v, vif!(E001 nnnp)), |v| match v { vif!(E001 nnnp) => true, 0..=255 => false }),
	("E001 nnpn", 16, 15, |v| matches!(v, vif!(E001 nnpn)), |v| match v { vif!(E001 nnpn) => true, 0..=255 => false }),
	("E001 nnpp", 16, 15, |v| matches!(v, vif!(E001 nnpp)), |v| match v { vif!(E001 nnpp) => true, 0..=255 => false }),
	("E001 npnn", 16, 15, |v| matches!(v, vif!(E001 npnn)), |v| match v { vif!(E001 npnn) => true, 0..=255 => false }),
	("E001 npnp", 16, 15, |v| matches!(v, vif!(E001 npnp)), |v| match v { vif!(E001 npnp) => true, 0..=255 => false }),
	("E001 nppn", 16, 15, |v| matches!(v, vif!(E001 nppn)), |v| match v { vif!(E001 nppn) => true, 0..=255 => false }),
	("E001 nppp", 16, 15, |v| matches!(v, vif!(E001 nppp)), |v| match v { vif!(E001 nppp) => true, 0..=255 => false }),
	("E001 pnnn", 16, 15, |v| matches!(v, vif!(E001 pnnn)), |v| match v { vif!(E001 pnnn) => true, 0..=255 => false }),
	("E001 pnnp", 16, 15, |v| matches!(v, vif!(E001 pnnp)), |v| match v { vif!(E001 pnnp) => true, 0..=255 => false }),
	("E001 pnpn", 16, 15, |v| matches!(v, vif!(E001 pnpn)), |v| match v { vif!(E001 pnpn) => true, 0..=255 => false }),
	("E001 pnpp", 16, 15, |v| matches!(v, vif!(E001 pnpp)), |v| match v { vif!(E001 pnpp) => true, 0..=255 => false }),
	("E001 ppnn", 16, 15, |v| matches!(v, vif!(E001 ppnn)), |v| match v { vif!(E001 ppnn) => true, 0..=255 => false }),
	("E001 ppnp", 16, 15, |v| matches!(v, vif!(E001 ppnp)), |v| match v { vif!(E001 ppnp) => true, 0..=255 => false }),
	("E001 pppn", 16, 15, |v| matches!(v, vif!(E001 pppn)), |v| match v { vif!(E001 pppn) => true, 0..=255 => false }),
	("E001 pppp", 16, 15, |v| matches!(v, vif!(E001 pppp)), |v| match v { vif!(E001 pppp) => true, 0..=255 => false }),
	("E010 0000", 32, 0, |v| matches!(v, vif!(E010 0000)), |v| match v { vif!(E010 0000) => true, 0..=255 => false }),
	("E010 0001", 33, 0, |v| matches!(v, vif!(E010 0001)), |v| match v { vif!(E010 0001) => true, 0..=255 => false }),
	("E010 0010", 34, 0, |v| matches!(v, vif!(E010 0010)), |v| match v { vif!(E010 0010) => true, 0..=255 => false }),
	("E010 0011", 35, 0, |v| matches!(v, vif!(E010 0011)), |v| match v { vif!(E010 0011) => true, 0..=255 => false }),
	("E010 0100", 36, 0, |v| matches!(v, vif!(E010 0100)), |v| match v { vif!(E010 0100) => true, 0..=255 => false }),
	("E010 0101", 37, 0, |v| matches!(v, vif!(E010 0101)), |v| match v { vif!(E010 0101) => true, 0..=255 => false }),
	("E010 0110", 38, 0, |v| matches!(v, vif!(E010 0110)), |v| match v { vif!(E010 0110) => true, 0..=255 => false }),
	("E010 0111", 39, 0, |v| matches!(v, vif!(E010 0111)), |v| match v { vif!(E010 0111) => true, 0..=255 => false }),
	("E010 1000", 40, 0, |v| matches!(v, vif!(E010 1000)), |v| match v { vif!(E010 1000) => true, 0..=255 => false }),
	("E010 1001", 41, 0, |v| matches!(v, vif!(E010 1001)), |v| match v { vif!(E010 1001) => true, 0..=255 => false }),
	("E010 1010", 42, 0, |v| matches!(v, vif!(E010 1010)), |v| match v { vif!(E010 1010) => true, 0..=255 => false }),
	("E010 1011", 43, 0, |v| matches!(v, vif!(E010 1011)), |v| match v { vif!(E010 1011) => true, 0..=255 => false }),
	("E010 1100", 44, 0, |v| matches!(v, vif!(E010 1100)), |v| match v { vif!(E010 1100) => true, 0..=255 => false }),
	("E010 1101", 45, 0, |v| matches!(v, vif!(E010 1101)), |v| match v { vif!(E010 1101) => true, 0..=255 => false }),
	("E010 1110", 46, 0, |v| matches!(v, vif!(E010 1110)), |v| match v { vif!(E010 1110) => true, 0..=255 => false }),
	("E010 1111", 47, 0, |v| matches!(v, vif!(E010 1111)), |v| match v { vif!(E010 1111) => true, 0..=255 => false }),
	("E010 000n", 32, 1, |v| matches!(v, vif!(E010 000n)), |v| match v { vif!(E010 000n) => true, 0..=255 => false }),
	("E010 000p", 32, 1, |v| matches!(v, vif!(E010 000p)), |v| match v { vif!(E010 000p) => true, 0..=255 => false }),
	("E010 001n", 34, 1, |v| matches!(v, vif!(E010 001n)), |v| match v { vif!(E010 001n) => true, 0..=255 => false }),
	("E010 001p", 34, 1, |v| matches!(v, vif!(E010 001p)), |v| match v { vif!(E010 001p) => true, 0..=255 => false }),
	("E010 010n", 36, 1, |v| matches!(v, vif!(E010 010n)), |v| match v { vif!(E010 010n) => true, 0..=255 => false }),
	("E010 010p", 36, 1, |v| matches!(v, vif!(E010 010p)), |v| match v { vif!(E010 010p) => true, 0..=255 => false }),
	("E010 011n", 38, 1, |v| matches!(v, vif!(E010 011n)), |v| match v { vif!(E010 011n) => true, 0..=255 => false }),
	("E010 011p", 38, 1, |v| matches!(v, vif!(E010 011p)), |v| match v { vif!(E010 011p) => true, 0..=255 => false }),
	("E010 100n", 40, 1, |v| matches!(v, vif!(E010 100n)), |v| match v { vif!(E010 100n) => true, 0..=255 => false }),
	("E010 100p", 40, 1, |v| matches!(v, vif!(E010 100p)), |v| match v { vif!(E010 100p) => true, 0..=255 => false }),
	("E010 101n", 42, 1, |v| matches!(v, vif!(E010 101n)), |v| match v { vif!(E010 101n) => true, 0..=255 => false }),
	("E010 101p", 42, 1, |v| matches!(v, vif!(E010 101p)), |v| match v { vif!(E010 101p) => true, 0..=255 => false }),
	("E010 110n", 44, 1, |v| matches!(v, vif!(E010 110n)), |v| match v { vif!(E010 110n) => true, 0..=255 => false }),
	("E010 110p", 44, 1, |v| matches!(v, vif!(E010 110p)), |v| match v { vif!(E010 110p) => true, 0..=255 => false }),
	("E010 111n", 46, 1, |v| matches!(v, vif!(E010 111n)), |v| match v { vif!(E010 111n) => true, 0..=255 => false }),
	("E010 111p", 46, 1, |v| matches!(v, vif!(E010 111p)), |v| match v { vif!(E010 111p) => true, 0..=255 => false }),
	("E010 00nn", 32, 3, |v| matches!(v, vif!(E010 00nn)), |v| match v { vif!(E010 00nn) => true, 0..=255 => false }),
	("E010 00np", 32, 3, |v| matches!(v, vif!(E010 00np)), |v| match v { vif!(E010 00np) => true, 0..=255 => false }),
	("E010 00pn", 32, 3, |v| matches!(v, vif!(E010 00pn)), |v| match v { vif!(E010 00pn) => true, 0..=255 => false }),
	("E010 00pp", 32, 3, |v| matches!(v, vif!(E010 00pp)), |v| match v { vif!(E010 00pp) => true, 0..=255 => false }),
	("E010 01nn", 36, 3, |v| matches!(v, vif!(E010 01nn)), |v| match v { vif!(E010 01nn) => true, 0..=255 => false }),
	("E010 01np", 36, 3, |v| matches!(v, vif!(E010 01np)), |v| match v { vif!(E010 01np) => true, 0..=255 => false }),
	("E010 01pn", 36, 3, |v| matches!(v, vif!(E010 01pn)), |v| match v { vif!(E010 01pn) => true, 0..=255 => false }),
	("E010 01pp", 36, 3, |v| matches!(v, vif!(E010 01pp)), |v| match v { vif!(E010 01pp) => true, 0..=255 => false }),
	("E010 10nn", 40, 3, |v| matches!(v, vif!(E010 10nn)), |v| match v { vif!(E010 10nn) => true, 0..=255 => false }),
	("E010 10np", 40, 3, |v| matches!(v, vif!(E010 10np)), |v| match v { vif!(E010 10np) => true, 0..=255 => false }),
	("E010 10pn", 40, 3, |v| matches!(v, vif!(E010 10pn)), |v| match v { vif!(E010 10pn) => true, 0..=255 => false }),
	("E010 10pp", 40, 3, |v| matches!(v, vif!(E010 10pp)), |v| match v { vif!(E010 10pp) => true, 0..=255 => false }),
	("E010 11nn", 44, 3, |v| matches!(v, vif!(E010 11nn)), |v| match v { vif!(E010 11nn) => true, 0..=255 => false }),
	("E010 11np", 44, 3, |v| matches!(v, vif!(E010 11np)), |v| match v { vif!(E010 11np) => true, 0..=255 => false }),
	("E010 11pn", 44, 3, |v| matches!(v, vif!(E010 11pn)), |v| match v { vif!(E010 11pn) => true, 0..=255 => false }),
	("E010 11pp", 44, 3, |v| matches!(v, vif!(E010 11pp)), |v| match v { vif!(E010 11pp) => true, 0..=255 => false }),
	("E010 0nnn", 32, 7, |v| matches!(v, vif!(E010 0nnn)), |v| match v { vif!(E010 0nnn) => true, 0..=255 => false }),
	("E010 0nnp", 32, 7, |v| matches!(v, vif!(E010 0nnp)), |v| match v { vif!(E010 0nnp) => true, 0..=255 => false }),
	("E010 0npn", 32, 7, |v| matches!(v, vif!(E010 0npn)), |v| match v { vif!(E010 0npn) => true, 0..=255 => false }),
	("E010 0npp", 32, 7, |v| matches!(v, vif!(E010 0npp)), |v| match v { vif!(E010 0npp) => true, 0..=255 => false }),
	("E010 0pnn", 32, 7, |v| matches!(v, vif!(E010 0pnn)), |v| match v { vif!(E010 0pnn) => true, 0..=255 => false }),
	("E010 0pnp", 32, 7, |v| matches!(v, vif!(E010 0pnp)), |v| match v { vif!(E010 0pnp) => true, 0..=255 => false }),
	("E010 0ppn", 32, 7, |v| matches!(v, vif!(E010 0ppn)), |v| match v { vif!(E010 0ppn) => true, 0..=255 => false }),
	("E010 0ppp", 32, 7, |v| matches!(v, vif!(E010 0ppp)), |v| match v { vif!(E010 0ppp) => true, 0..=255 => false }),
	("E010 1nnn", 40, 7, |v| matches!(v, vif!(E010 1nnn)), |v| match v { vif!(E010 1nnn) => true, 0..=255 => false }),
	("E010 1nnp", 40, 7, |v| matches!(v, vif!(E010 1nnp)), |v| match v { vif!(E010 1nnp) => true, 0..=255 => false }),
	("E010 1npn", 40, 7, |v| matches!(v, vif!(E010 1npn)), |v| match v { vif!(E010 1npn) => true, 0..=255 => false }),
	("E010 1npp", 40, 7, |v| matches!(v, vif!(E010 1npp)), |v| match v { vif!(E010 1npp) => true, 0..=255 => false }),
	("E010 1pnn", 40, 7, |v| matches!(v, vif!(E010 1pnn)), |v| match v { vif!(E010 1pnn) => true, 0..=255 => false }),
	("E010 1pnp", 40, 7, |v| matches!(v, vif!(E010 1pnp)), |v| match v { vif!(E010 1pnp) => true, 0..=255 => false }),
	("E010 1ppn", 40, 7, |v| matches!(v, vif!(E010 1ppn)), |v| match v { vif!(E010 1ppn) => true, 0..=255 => false }),
	("E010 1ppp", 40, 7, |v| matches!(v, vif!(E010 1ppp)), |v| match v { vif!(E010 1ppp) => true, 0..=255 => false }),
	("E010 nnnn", 32, 15, |v| matches!(v, vif!(E010 nnnn)), |v| match v { vif!(E010 nnnn) => true, 0..=255 => false }),
	("E010 nnnp", 32, 15, |v| matches!(v, vif!(E010 nnnp)), |v| match v { vif!(E010 nnnp) => true, 0..=255 => false }),
	("E010 nnpn", 32, 15, |v| matches!(v, vif!(E010 nnpn)), |v| match v { vif!(E010 nnpn) => true, 0..=255 => false }),
	("E010 nnpp", 32, 15, |v| matches!(v, vif!(E010 nnpp)), |v| match v { vif!(E010 nnpp) => true, 0..=255 => false }),
	("E010 npnn", 32, 15, |v| matches!(v, vif!(E010 npnn)), |v| match v { vif!(E010 npnn) => true, 0..=255 => false }),
	("E010 npnp", 32, 15, |v| matches!(v, vif!(E010 npnp)), |v| match v { vif!(E010 npnp) => true, 0..=255 => false }),
	("E010 nppn", 32, 15, |v| matches!(v, vif!(E010 nppn)), |v| match v { vif!(E010 nppn) => true, 0..=255 => false }),
	("E010 nppp", 32, 15, |v| matches!(v, vif!(E010 nppp)), |v| match v { vif!(E010 nppp) => true, 0..=255 => false }),
	("E010 pnnn", 32, 15, |v| matches!(v, vif!(E010 pnnn)), |v| match v { vif!(E010 pnnn) => true, 0..=255 => false }),
	("E010 pnnp", 32, 15, |v| matches!(v, vif!(E010 pnnp)), |v| match v { vif!(E010 pnnp) => true, 0..=255 => false }),
	("E010 pnpn", 32, 15, |v| matches!(v, vif!(E010 pnpn)), |v| match v { vif!(E010 pnpn) => true, 0..=255 => false }),
	("E010 pnpp", 32, 15, |v| matches!(v, vif!(E010 pnpp)), |v| match v { vif!(E010 pnpp) => true, 0..=255 => false }),
	("E010 ppnn", 32, 15, |v| matches!(v, vif!(E010 ppnn)), |v| match v { vif!(E010 ppnn) => true, 0..=255 => false }),
	("E010 ppnp", 32, 15, |v| matches!(v, vif!(E010 ppnp)), |v| match v { vif!(E010 ppnp) => true, 0..=255 => false }),
	("E010 pppn", 32, 15, |v| matches!(v, vif!(E010 pppn)), |v| match v { vif!(E010 pppn) => true, 0..=255 => false }),
	("E010 pppp", 32, 15, |v| matches!(v, vif!(E010 pppp)), |v| match v { vif!(E010 pppp) => true, 0..=255 => false }),
	("E011 0000", 48, 0, |v| matches!(v, vif!(E011 0000)), |v| match v { vif!(E011 0000) => true, 0..=255 => false }),
	("E011 0001", 49, 0, |v| matches!(v, vif!(E011 0001)), |v| match v { vif!(E011 0001) => true, 0..=255 => false }),
	("E011 0010", 50, 0, |v| matches!(v, vif!(E011 0010)), |v| match v { vif!(E011 0010) => true, 0..=255 => false }),
	("E011 0011", 51, 0, |v| matches!(v, vif!(E011 0011)), |v| match v { vif!(E011 0011) => true, 0..=255 => false }),
	("E011 0100", 52, 0, |v| matches!(v, vif!(E011 0100)), |v| match v { vif!(E011 0100) => true, 0..=255 => false }),
	("E011 0101", 53, 0, |v| matches!(v, vif!(E011 0101)), |v| match v { vif!(E011 0101) => true, 0..=255 => false }),
	("E011 0110", 54, 0, |v| matches!(v, vif!(E011 0110)), |v| match v { vif!(E011 0110) => true, 0..=255 => false }),
	("E011 0111", 55, 0, |v| matches!(v, vif!(E011 0111)), |v| match v { vif!(E011 0111) => true, 0..=255 => false }),
	("E011 1000", 56, 0, |v| matches!(v, vif!(E011 1000)), |v| match v { vif!(E011 1000) => true, 0..=255 => false }),
	("E011 1001", 57, 0, |v| matches!(v, vif!(E011 1001)), |v| match v { vif!(E011 1001) => true, 0..=255 => false }),
	("E011 1010", 58, 0, |v| matches!(v, vif!(E011 1010)), |v| match v { vif!(E011 1010) => true, 0..=255 => false }),
	("E011 1011", 59, 0, |v| matches!(v, vif!(E011 1011)), |v| match v { vif!(E011 1011) => true, 0..=255 => false }),
	("E011 1100", 60, 0, |v| matches!(v, vif!(E011 1100)), |v| match v { vif!(E011 1100) => true, 0..=255 => false }),
	("E011 1101", 61, 0, |v| matches!(v, vif!(E011 1101)), |v| match v { vif!(E011 1101) => true, 0..=255 => false }),
	("E011 1110", 62, 0, |v| matches!(v, vif!(E011 1110)), |v| match v { vif!(E011 1110) => true, 0..=255 => false }),
	("E011 1111", 63, 0, |v| matches!(v, vif!(E011 1111)), |v| match v { vif!(E011 1111) => true, 0..=255 => false }),
	("E011 000n", 48, 1, |v| matches!(v, vif!(E011 000n)), |v| match v { vif!(E011 000n) => true, 0..=255 => false }),
	("E011 000p", 48, 1, |v| matches!(v, vif!(E011 000p)), |v| match v { vif!(E011 000p) => true, 0..=255 => false }),
	("E011 001n", 50, 1, |v| matches!(v, vif!(E011 001n)), |v| match v { vif!(E011 001n) => true, 0..=255 => false }),
	("E011 001p", 50, 1, |v| matches!(v, vif!(E011 001p)), |v| match v { vif!(E011 001p) => true, 0..=255 => false }),
	("E011 010n", 52, 1, |v| matches!(v, vif!(E011 010n)), |v| match v { vif!(E011 010n) => true, 0..=255 => false }),
	("E011 010p", 52, 1, |v| matches!(v, vif!(E011 010p)), |v| match v { vif!(E011 010p) => true, 0..=255 => false }),
	("E011 011n", 54, 1, |v| matches!(v, vif!(E011 011n)), |v| match v { vif!(E011 011n) => true, 0..=255 => false }),
	("E011 011p", 54, 1, |v| matches!(v, vif!(E011 011p)), |v| match v { vif!(E011 011p) => true, 0..=255 => false }),
	("E011 100n", 56, 1, |v| matches!(v, vif!(E011 100n)), |v| match v { vif!(E011 100n) => true, 0..=255 => false }),
	("E011 100p", 56, 1, |v| matches!(v, vif!(E011 100p)), |v| match v { vif!(E011 100p) => true, 0..=255 => false }),
	("E011 101n", 58, 1, |v| matches!(v, vif!(E011 101n)), |v| match v { vif!(E011 101n) => true, 0..=255 => false }),
	("E011 101p", 58, 1, |v| matches!(v, vif!(E011 101p)), |v| match v { vif!(E011 101p) => true, 0..=255 => false }),
	("E011 110n", 60, 1, |v| matches!(v, vif!(E011 110n)), |v| match v { vif!(E011 110n) => true, 0..=255 => false }),
	("E011 110p", 60, 1, |v| matches!(v, vif!(E011 110p)), |v| match v { vif!(E011 110p) => true, 0..=255 => false }),
	("E011 111n", 62, 1, |v| matches!(v, vif!(E011 111n)), |v| match v { vif!(E011 111n) => true, 0..=255 => false }),
	("E011 111p", 62, 1, |v| matches!(v, vif!(E011 111p)), |v| match v { vif!(E011 111p) => true, 0..=255 => false }),
	("E011 00nn", 48, 3, |v| matches!(v, vif!(E011 00nn)), |v| match v { vif!(E011 00nn) => true, 0..=255 => false }),
	("E011 00np", 48, 3, |v| matches!(v, vif!(E011 00np)), |v| match v { vif!(E011 00np) => true, 0..=255 => false }),
	("E011 00pn", 48, 3, |v| matches!(v, vif!(E011 00pn)), |v| match v { vif!(E011 00pn) => true, 0..=255 => false }),
	("E011 00pp", 48, 3, |v| matches!(v, vif!(E011 00pp)), |v| match v { vif!(E011 00pp) => true, 0..=255 => false }),
	("E011 01nn", 52, 3, |v| matches!(v, vif!(E011 01nn)), |v| match v { vif!(E011 01nn) => true, 0..=255 => false }),
	("E011 01np", 52, 3, |v| matches!(v, vif!(E011 01np)), |v| match v { vif!(E011 01np) => true, 0..=255 => false }),
	("E011 01pn", 52, 3, |v| matches!(v, vif!(E011 01pn)), |v| match v { vif!(E011 01pn) => true, 0..=255 => false }),
	("E011 01pp", 52, 3, |v| matches!(v, vif!(E011 01pp)), |v| match v { vif!(E011 01pp) => true, 0..=255 => false }),
	("E011 10nn", 56, 3, |v| matches!(v, vif!(E011 10nn)), |v| match v { vif!(E011 10nn) => true, 0..=255 => false }),
	("E011 10np", 56, 3, |v| matches!(v, vif!(E011 10np)), |v| match v { vif!(E011 10np) => true, 0..=255 => false }),
	("E011 10pn", 56, 3, |v| matches!(v, vif!(E011 10pn)), |v| match v { vif!(E011 10pn) => true, 0..=255 => false }),
	("E011 10pp", 56, 3, |v| matches!(v, vif!(E011 10pp)), |v| match v { vif!(E011 10pp) => true, 0..=255 => false }),
	("E011 11nn", 60, 3, |v| matches!(v, vif!(E011 11nn)), |v| match v { vif!(E011 11nn) => true, 0..=255 => false }),
	("E011 11np", 60, 3, |v| matches!(v, vif!(E011 11np)), |v| match v { vif!(E011 11np) => true, 0..=255 => false }),
	("E011 11pn", 60, 3, |v| matches!(v, vif!(E011 11pn)), |v| match v { vif!(E011 11pn) => true, 0..=255 => false }),
	("E011 11pp", 60, 3, |v| matches!(v, vif!(E011 11pp)), |v| match v { vif!(E011 11pp) => true, 0..=255 => false }),
	("E011 0nnn", 48, 7, |v| matches!(v, vif!(E011 0nnn)), |v| match v { vif!(E011 0nnn) => true, 0..=255 => false }),
	("E011 0nnp", 48, 7, |v| matches!(v, vif!(E011 0nnp)), |v| match v { vif!(E011 0nnp) => true, 0..=255 => false }),
	("E011 0npn", 48, 7, |v| matches!(v, vif!(E011 0npn)), |v| match v { vif!(E011 0npn) => true, 0..=255 => false }),
	("E011 0npp", 48, 7, |v| matches!(v, vif!(E011 0npp)), |v| match v { vif!(E011 0npp) => true, 0..=255 => false }),
	("E011 0pnn", 48, 7, |v| matches!(v, vif!(E011 0pnn)), |v| match v { vif!(E011 0pnn) => true, 0..=255 => false }),
	("E011 0pnp", 48, 7, |v| matches!(v, vif!(E011 0pnp)), |v| match v { vif!(E011 0pnp) => true, 0..=255 => false }),
	("E011 0ppn", 48, 7, |v| matches!(v, vif!(E011 0ppn)), |v| match v { vif!(E011 0ppn) => true, 0..=255 => false }),
	("E011 0ppp", 48, 7, |v| matches!(v, vif!(E011 0ppp)), |v| match v { vif!(E011 0ppp) => true, 0..=255 => false }),
	("E011 1nnn", 56, 7, |v| matches!(v, vif!(E011 1nnn)), |v| match v { vif!(E011 1nnn) => true, 0..=255 => false }),
	("E011 1nnp", 56, 7, |v| matches!(v, vif!(E011 1nnp)), |v| match v { vif!(E011 1nnp) => true, 0..=255 => false }),
	("E011 1npn", 56, 7, |v| matches!(v, vif!(E011 1npn)), |v| match v { vif!(E011 1npn) => true, 0..=255 => false }),
	("E011 1npp", 56, 7, |v| matches!(v, vif!(E011 1npp)), |v| match v { vif!(E011 1npp) => true, 0..=255 => false }),
	("E011 1pnn", 56, 7, |v| matches!(v, vif!(E011 1pnn)), |v| match v { vif!(E011 1pnn) => true, 0..=255 => false }),
	("E011 1pnp", 56, 7, |v| matches!(v, vif!(E011 1pnp)), |v| match v { vif!(E011 1pnp) => true, 0..=255 => false }),
	("E011 1ppn", 56, 7, |v| matches!(v, vif!(E011 1ppn)), |v| match v { vif!(E011 1ppn) => true, 0..=255 => false }),
	("E011 1ppp", 56, 7, |v| matches!(v, vif!(E011 1ppp)), |v| match v { vif!(E011 1ppp) => true, 0..=255 => false }),
	("E011 nnnn", 48, 15, |v| matches!(v, vif!(E011 nnnn)), |v| match v { vif!(E011 nnnn) => true, 0..=255 => false }),
	("E011 nnnp", 48, 15, |v| matches!(v, vif!(E011 nnnp)), |v| match v { vif!(E011 nnnp) => true, 0..=255 => false }),
	("E011 nnpn", 48, 15, |v| matches!(v, vif!(E011 nnpn)), |v| match v { vif!(E011 nnpn) => true, 0..=255 => false }),
	("E011 nnpp", 48, 15, |v| matches!(v, vif!(E011 nnpp)), |v| match v { vif!(E011 nnpp) => true, 0..=255 => false }),
	("E011 npnn", 48, 15, |v| matches!(v, vif!(E011 npnn)), |v| match v { vif!(E011 npnn) => true, 0..=255 => false }),
	("E011 npnp", 48, 15, |v| matches!(v, vif!(E011 npnp)), |v| match v { vif!(E011 npnp) => true, 0..=255 => false }),
	("E011 nppn", 48, 15, |v| matches!(v, vif!(E011 nppn)), |v| match v { vif!(E011 nppn) => true, 0..=255 => false }),
	("E011 nppp", 48, 15, |v| matches!(v, vif!(E011 nppp)), |v| match v { vif!(E011 nppp) => true, 0..=255 => false }),
	("E011 pnnn", 48, 15, |v| matches!(v, vif!(E011 pnnn)), |v| match v { vif!(E011 pnnn) => true, 0..=255 => false }),
	("E011 pnnp", 48, 15, |v| matches!(v, vif!(E011 pnnp)), |v| match v { vif!(E011 pnnp) => true, 0..=255 => false }),
	("E011 pnpn", 48, 15, |v| matches!(v, vif!(E011 pnpn)), |v| match v { vif!(E011 pnpn) => true, 0..=255 => false }),
	("E011 pnpp", 48, 15, |v| matches!(v, vif!(E011 pnpp)), |v| match v { vif!(E011 pnpp) => true, 0..=255 => false }),
	("E011 ppnn", 48, 15, |v| matches!(v, vif!(E011 ppnn)), |v| match v { vif!(E011 ppnn) => true, 0..=255 => false }),
	("E011 ppnp", 48, 15, |v| matches!(v, vif!(E011 ppnp)), |v| match v { vif!(E011 ppnp) => true, 0..=255 => false }),
	("E011 pppn", 48, 15, |v| matches!(v, vif!(E011 pppn)), |v| match v { vif!(E011 pppn) => true, 0..=255 => false }),
	("E011 pppp", 48, 15, |v| matches!(v, vif!(E011 pppp)), |v| match v { vif!(E011 pppp) => true, 0..=255 => false }),
	("E100 0000", 64, 0, |v| matches!(v, vif!(E100 0000)), |v| match v { vif!(E100 0000) => true, 0..=255 => false }),
	("E100 0001", 65, 0, |v| matches!(v, vif!(E100 0001)), |v| match v { vif!(E100 0001) => true, 0..=255 => false }),
	("E100 0010", 66, 0, |v| matches!(v, vif!(E100 0010)), |v| match v { vif!(E100 0010) => true, 0..=255 => false }),
	("E100 0011", 67, 0, |v| matches!(v, vif!(E100 0011)), |v| match v { vif!(E100 0011) => true, 0..=255 => false }),
	("E100 0100", 68, 0, |v| matches!(v, vif!(E100 0100)), |v| match v { vif!(E100 0100) => true, 0..=255 => false }),
	("E100 0101", 69, 0, |v| matches!(v, vif!(E100 0101)), |v| match v { vif!(E100 0101) => true, 0..=255 => false }),
	("E100 0110", 70, 0, |v| matches!(v, vif!(E100 0110)), |v| match v { vif!(E100 0110) => true, 0..=255 => false }),
	("E100 0111", 71, 0, |v| matches!(v, vif!(E100 0111)), |v| match v { vif!(E100 0111) => true, 0..=255 => false }),
	("E100 1000", 72, 0, |v| matches!(v, vif!(E100 1000)), |v| match v { vif!(E100 1000) => true, 0..=255 => false }),
	("E100 1001", 73, 0, |v| matches!(v, vif!(E100 1001)), |v| match v { vif!(E100 1001) => true, 0..=255 => false }),
	("E100 1010", 74, 0, |v| matches!(v, vif!(E100 1010)), |v| match v { vif!(E100 1010) => true, 0..=255 => false }),
	("E100 1011", 75, 0, |v| matches!(v, vif!(E100 1011)), |v| match v { vif!(E100 1011) => true, 0..=255 => false }),
	("E100 1100", 76, 0, |v| matches!(v, vif!(E100 1100)), |v| match v { vif!(E100 1100) => true, 0..=255 => false }),
	("E100 1101", 77, 0, |v| matches!(v, vif!(E100 1101)), |v| match v { vif!(E100 1101) => true, 0..=255 => false }),
	("E100 1110", 78, 0, |v| matches!(v, vif!(E100 1110)), |v| match v { vif!(E100 1110) => true, 0..=255 => false }),
	("E100 1111", 79, 0, |v| matches!(v, vif!(E100 1111)), |v| match v { vif!(E100 1111) => true, 0..=255 => false }),
	("E100 000n", 64, 1, |v| matches!(v, vif!(E100 000n)), |v| match v { vif!(E100 000n) => true, 0..=255 => false }),
	("E100 000p", 64, 1, |v| matches!(v, vif!(E100 000p)), |v| match v { vif!(E100 000p) => true, 0..=255 => false }),
	("E100 001n", 66, 1, |v| matches!(v, vif!(E100 001n)), |v| match v { vif!(E100 001n) => true, 0..=255 => false }),
	("E100 001p", 66, 1, |v| matches!(v, vif!(E100 001p)), |v| match v { vif!(E100 001p) => true, 0..=255 => false }),
	("E100 010n", 68, 1, |v| matches!(v, vif!(E100 010n)), |v| match v { vif!(E100 010n) => true, 0..=255 => false }),
	("E100 010p", 68, 1, |v| matches!(v, vif!(E100 010p)), |v| match v { vif!(E100 010p) => true, 0..=255 => false }),
	("E100 011n", 70, 1, |v| matches!(v, vif!(E100 011n)), |v| match v { vif!(E100 011n) => true, 0..=255 => false }),
	("E100 011p", 70, 1, |v| matches!(v, vif!(E100 011p)), |v| match v { vif!(E100 011p) => true, 0..=255 => false }),
	("E100 100n", 72, 1, |v| matches!(v, vif!(E100 100n)), |v| match v { vif!(E100 100n) => true, 0..=255 => false }),
	("E100 100p", 72, 1, |v| matches!(v, vif!(E100 100p)), |v| match v { vif!(E100 100p) => true, 0..=255 => false }),
	("E100 101n", 74, 1, |v| matches!(v, vif!(E100 101n)), |v| match v { vif!(E100 101n) => true, 0..=255 => false }),
	("E100 101p", 74, 1, |v| matches!(v, vif!(E100 101p)), |v| match v { vif!(E100 101p) => true, 0..=255 => false }),
	("E100 110n", 76, 1, |v| matches!(v, vif!(E100 110n)), |v| match v { vif!(E100 110n) => true, 0..=255 => false }),
	("E100 110p", 76, 1, |v| matches!(v, vif!(E100 110p)), |v| match v { vif!(E100 110p) => true, 0..=255 => false }),
	("E100 111n", 78, 1, |v| matches!(v, vif!(E100 111n)), |v| match v { vif!(E100 111n) => true, 0..=255 => false }),
	("E100 111p", 78, 1, |v| matches!(v, vif!(E100 111p)), |v| match v { vif!(E100 111p) => true, 0..=255 => false }),
	("E100 00nn", 64, 3, |v| matches!(v, vif!(E100 00nn)), |v| match v { vif!(E100 00nn) => true, 0..=255 => false }),
	("E100 00np", 64, 3, |v| matches!(v, vif!(E100 00np)), |v| match v { vif!(E100 00np) => true, 0..=255 => false }),
	("E100 00pn", 64, 3, |v| matches!(v, vif!(E100 00pn)), |v| match v { vif!(E100 00pn) => true, 0..=255 => false }),
	("E100 00pp", 64, 3, |v| matches!(v, vif!(E100 00pp)), |v| match v { vif!(E100 00pp) => true, 0..=255 => false }),
	("E100 01nn", 68, 3, |v| matches!(v, vif!(E100 01nn)), |v| match v { vif!(E100 01nn) => true, 0..=255 => false }),
	("E100 01np", 68, 3, |v| matches!(v, vif!(E100 01np)), |v| match v { vif!(E100 01np) => true, 0..=255 => false }),
	("E100 01pn", 68, 3, |v| matches!(v, vif!(E100 01pn)), |v| match v { vif!(E100 01pn) => true, 0..=255 => false }),
	("E100 01pp", 68, 3, |v| matches!(v, vif!(E100 01pp)), |v| match v { vif!(E100 01pp) => true, 0..=255 => false }),
	("E100 10nn", 72, 3, |v| matches!(v, vif!(E100 10nn)), |v| match v { vif!(E100 10nn) => true, 0..=255 => false }),
	("E100 10np", 72, 3, |v| matches!(v, vif!(E100 10np)), |v| match v { vif!(E100 10np) => true, 0..=255 => false }),
	("E100 10pn", 72, 3, |v| matches!(v, vif!(E100 10pn)), |v| match v { vif!(E100 10pn) => true, 0..=255 => false }),
	("E100 10pp", 72, 3, |v| matches!(v, vif!(E100 10pp)), |v| match v { vif!(E100 10pp) => true, 0..=255 => false }),
	("E100 11nn", 76, 3, |v| matches!(v, vif!(E100 11nn)), |v| match v { vif!(E100 11nn) => true, 0..=255 => false }),
	("E100 11np", 76, 3, |v| matches!(v, vif!(E100 11np)), |v| match v { vif!(E100 11np) => true, 0..=255 => false }),
	("E100 11pn", 76, 3, |v| matches!(v, vif!(E100 11pn)), |v| match v { vif!(E100 11pn) => true, 0..=255 => false }),
	("E100 11pp", 76, 3, |v| matches!(v, vif!(E100 11pp)), |v| match v { vif!(E100 11pp) => true, 0..=255 => false }),
	("E100 0nnn", 64, 7, |v| matches!(v, vif!(E100 0nnn)), |v| match v { vif!(E100 0nnn) => true, 0..=255 => false }),
	("E100 0nnp", 64, 7, |v| matches!(v, vif!(E100 0nnp)), |v| match v { vif!(E100 0nnp) => true, 0..=255 => false }),
	("E100 0npn", 64, 7, |v| matches!(v, vif!(E100 0npn)), |v| match v { vif!(E100 0npn) => true, 0..=255 => false }),
	("E100 0npp", 64, 7, |v| matches!(v, vif!(E100 0npp)), |v| match v { vif!(E100 0npp) => true, 0..=255 => false }),
	("E100 0pnn", 64, 7, |v| matches!(v, vif!(E100 0pnn)), |v| match v { vif!(E100 0pnn) => true, 0..=255 => false }),
	("E100 0pnp", 64, 7, |v| matches!(v, vif!(E100 0pnp)), |v| match v { vif!(E100 0pnp) => true, 0..=255 => false }),
	("E100 0ppn", 64, 7, |v| matches!(v, vif!(E100 0ppn)), |v| match v { vif!(E100 0ppn) => true, 0..=255 => false }),
	("E100 0ppp", 64, 7, |v| matches!(v, vif!(E100 0ppp)), |v| match v { vif!(E100 0ppp) => true, 0..=255 => false }),
	("E100 1nnn", 72, 7, |v| matches!(v, vif!(E100 1nnn)), |v| match v { vif!(E100 1nnn) => true, 0..=255 => false }),
	("E100 1nnp", 72, 7, |v| matches!(v, vif!(E100 1nnp)), |v| match v { vif!(E100 1nnp) => true, 0..=255 => false }),
	("E100 1npn", 72, 7, |v| matches!(v, vif!(E100 1npn)), |v| match v { vif!(E100 1npn) => true, 0..=255 => false }),
	("E100 1npp", 72, 7, |v| matches!(v, vif!(E100 1npp)), |v| match v { vif!(E100 1npp) => true, 0..=255 => false }),
	("E100 1pnn", 72, 7, |v| matches!(v, vif!(E100 1pnn)), |v| match v { vif!(E100 1pnn) => true, 0..=255 => false }),
	("E100 1pnp", 72, 7, |v| matches!(v, vif!(E100 1pnp)), |v| match v { vif!(E100 1pnp) => true, 0..=255 => false }),
	("E100 1ppn", 72, 7, |v| matches!(v, vif!(E100 1ppn)), |v| match v { vif!(E100 1ppn) => true, 0..=255 => false }),
	("E100 1ppp", 72, 7, |v| matches!(v, vif!(E100 1ppp)), |v| match v { vif!(E100 1ppp) => true, 0..=255 => false }),
	("E100 nnnn", 64, 15, |v| matches!(v, vif!(E100 nnnn)), |v| match v { vif!(E100 nnnn) => true, 0..=255 => false }),
	("E100 nnnp", 64, 15, |v| matches!(v, vif!(E100 nnnp)), |v| match v { vif!(E100 nnnp) => true, 0..=255 => false }),
	("E100 nnpn", 64, 15, |v| matches!(v, vif!(E100 nnpn)), |v| match v { vif!(E100 nnpn) => true, 0..=255 => false }),
	("E100 nnpp", 64, 15, |v| matches!(v, vif!(E100 nnpp)), |v| match v { vif!(E100 nnpp) => true, 0..=255 => false }),
	("E100 npnn", 64, 15, |v| matches!(v, vif!(E100 npnn)), |v| match v { vif!(E100 npnn) => true, 0..=255 => false }),
	("E100 npnp", 64, 15, |v| matches!(v, vif!(E100 npnp)), |v| match v { vif!(E100 npnp) => true, 0..=255 => false }),
	("E100 nppn", 64, 15, |v| matches!(v, vif!(E100 nppn)), |v| match v { vif!(E100 nppn) => true, 0..=255 => false }),
	("E100 nppp", 64, 15, |v| matches!(v, vif!(E100 nppp)), |v| match v { vif!(E100 nppp) => true, 0..=255 => false }),
	("E100 pnnn", 64, 15, |v| matches!(v, vif!(E100 pnnn)), |v| match v { vif!(E100 pnnn) => true, 0..=255 => false }),
	("E100 pnnp", 64, 15, |v| matches!(v, vif!(E100 pnnp)), |v| match v { vif!(E100 pnnp) => true, 0..=255 => false }),
	("E100 pnpn", 64, 15, |v| matches!(v, vif!(E100 pnpn)), |v| match v { vif!(E100 pnpn) => true, 0..=255 => false }),
	("E100 pnpp", 64, 15, |v| matches!(v, vif!(E100 pnpp)), |v| match v { vif!(E100 pnpp) => true, 0..=255 => false }),
	("E100 ppnn", 64, 15, |v| matches!(v, vif!(E100 ppnn)), |v| match v { vif!(E100 ppnn) => true, 0..=255 => false }),
	("E100 ppnp", 64, 15, |v| matches!(v, vif!(E100 ppnp)), |v| match v { vif!(E100 ppnp) => true, 0..=255 => false }),
	("E100 pppn", 64, 15, |v| matches!(v, vif!(E100 pppn)), |v| match v { vif!(E100 pppn) => true, 0..=255 => false }),
	("E100 pppp", 64, 15, |v| matches!(v, vif!(E100 pppp)), |v| match v { vif!(E100 pppp) => true, 0..=255 => false }),
	("E101 0000", 80, 0, |v| matches!(v, vif!(E101 0000)), |v| match v { vif!(E101 0000) => true, 0..=255 => false }),
	("E101 0001", 81, 0, |v| matches!(v, vif!(E101 0001)), |v| match v { vif!(E101 0001) => true, 0..=255 => false }),
	("E101 0010", 82, 0, |v| matches!(v, vif!(E101 0010)), |v| match v { vif!(E101 0010) => true, 0..=255 => false }),
	("E101 0011", 83, 0, |v| matches!(v, vif!(E101 0011)), |v| match v { vif!(E101 0011) => true, 0..=255 => false }),
	("E101 0100", 84, 0, |v| matches!(v, vif!(E101 0100)), |v| match v { vif!(E101 0100) => true, 0..=255 => false }),
	("E101 0101", 85, 0, |v| matches!(v, vif!(E101 0101)), |v| match v { vif!(E101 0101) => true, 0..=255 => false }),
	("E101 0110", 86, 0, |v| matches!(v, vif!(E101 0110)), |v| match v { vif!(E101 0110) => true, 0..=255 => false }),
	("E101 0111", 87, 0, |v| matches!(v, vif!(E101 0111)), |v| match v { vif!(E101 0111) => true, 0..=255 => false }),
	("E101 1000", 88, 0, |v| matches!(v, vif!(E101 1000)), |v| match v { vif!(E101 1000) => true, 0..=255 => false }),
	("E101 1001", 89, 0, |v| matches!(v, vif!(E101 1001)), |v| match v { vif!(E101 1001) => true, 0..=255 => false }),
	("E101 1010", 90, 0, |v| matches!(v, vif!(E101 1010)), |v| match v { vif!(E101 1010) => true, 0..=255 => false }),
	("E101 1011", 91, 0, |v| matches!(v, vif!(E101 1011)), |v| match v { vif!(E101 1011) => true, 0..=255 => false }),
	("E101 1100", 92, 0, |v| matches!(v, vif!(E101 1100)), |v| match v { vif!(E101 1100) => true, 0..=255 => false }),
	("E101 1101", 93, 0, |v| matches!(v, vif!(E101 1101)), |v| match v { vif!(E101 1101) => true, 0..=255 => false }),
	("E101 1110", 94, 0, |v| matches!(v, vif!(E101 1110)), |v| match v { vif!(E101 1110) => true, 0..=255 => false }),
	("E101 1111", 95, 0, |v| matches!(v, vif!(E101 1111)), |v| match v { vif!(E101 1111) => true, 0..=255 => false }),
	("E101 000n", 80, 1, |v| matches!(v, vif!(E101 000n)), |v| match v { vif!(E101 000n) => true, 0..=255 => false }),
	("E101 000p", 80, 1, |v| matches!(v, vif!(E101 000p)), |v| match v { vif!(E101 000p) => true, 0..=255 => false }),
	("E101 001n", 82, 1, |v| matches!(v, vif!(E101 001n)), |v| match v { vif!(E101 001n) => true, 0..=255 => false }),
	("E101 001p", 82, 1, |v| matches!(v, vif!(E101 001p)), |v| match v { vif!(E101 001p) => true, 0..=255 => false }),
	("E101 010n", 84, 1, |v| matches!(v, vif!(E101 010n)), |v| match v { vif!(E101 010n) => true, 0..=255 => false }),
	("E101 010p", 84, 1, |v| matches!(v, vif!(E101 010p)), |v| match v { vif!(E101 010p) => true, 0..=255 => false }),
	("E101 011n", 86, 1, |v| matches!(v, vif!(E101 011n)), |v| match v { vif!(E101 011n) => true, 0..=255 => false }),
	("E101 011p", 86, 1, |v| matches!(v, vif!(E101 011p)), |v| match v { vif!(E101 011p) => true, 0..=255 => false }),
	("E101 100n", 88, 1, |v| matches!(v, vif!(E101 100n)), |v| match v { vif!(E101 100n) => true, 0..=255 => false }),
	("E101 100p", 88, 1, |v| matches!(v, vif!(E101 100p)), |v| match v { vif!(E101 100p) => true, 0..=255 => false }),
	("E101 101n", 90, 1, |v| matches!(v, vif!(E101 101n)), |v| match v { vif!(E101 101n) => true, 0..=255 => false }),
	("E101 101p", 90, 1, |v| matches!(v, vif!(E101 101p)), |v| match v { vif!(E101 101p) => true, 0..=255 => false }),
	("E101 110n", 92, 1, |v| matches!(v, vif!(E101 110n)), |v| match v { vif!(E101 110n) => true, 0..=255 => false }),
	("E101 110p", 92, 1, |v| matches!(v, vif!(E101 110p)), |v| match v { vif!(E101 110p) => true, 0..=255 => false }),
	("E101 111n", 94, 1, |v| matches!(v, vif!(E101 111n)), |v| match v { vif!(E101 111n) => true, 0..=255 => false }),
	("E101 111p", 94, 1, |v| matches!(v, vif!(E101 111p)), |v| match v { vif!(E101 111p) => true, 0..=255 => false }),
	("E101 00nn", 80, 3, |v| matches!(v, vif!(E101 00nn)), |v| match v { vif!(E101 00nn) => true, 0..=255 => false }),
	("E101 00np", 80, 3, |v| matches!(v, vif!(E101 00np)), |v| match v { vif!(E101 00np) => true, 0..=255 => false }),
	("E101 00pn", 80, 3, |v| matches!(v, vif!(E101 00pn)), |v| match v { vif!(E101 00pn) => true, 0..=255 => false }),
	("E101 00pp", 80, 3, |v| matches!(v, vif!(E101 00pp)), |v| match v { vif!(E101 00pp) => true, 0..=255 => false }),
	("E101 01nn", 84, 3, |v| matches!(v, vif!(E101 01nn)), |v| match v { vif!(E101 01nn) => true, 0..=255 => false }),
	("E101 01np", 84, 3, |v| matches!(v, vif!(E101 01np)), |v| match v { vif!(E101 01np) => true, 0..=255 => false }),
	("E101 01pn", 84, 3, |v| matches!(v, vif!(E101 01pn)), |v| match v { vif!(E101 01pn) => true, 0..=255 => false }),
	("E101 01pp", 84, 3, |v| matches!(v, vif!(E101 01pp)), |v| match v { vif!(E101 01pp) => true, 0..=255 => false }),
	("E101 10nn", 88, 3, |v| matches!(v, vif!(E101 10nn)), |v| match v { vif!(E101 10nn) => true, 0..=255 => false }),
	("E101 10np", 88, 3, |v| matches!(v, vif!(E101 10np)), |v| match v { vif!(E101 10np) => true, 0..=255 => false }),
	("E101 10pn", 88, 3, |v| matches!(v, vif!(E101 10pn)), |v| match v { vif!(E101 10pn) => true, 0..=255 => false }),
	("E101 10pp", 88, 3, |v| matches!(v, vif!(E101 10pp)), |v| match v { vif!(E101 10pp) => true, 0..=255 => false }),
	("E101 11nn", 92, 3, |v| matches!(v, vif!(E101 11nn)), |v| match v { vif!(E101 11nn) => true, 0..=255 => false }),
	("E101 11np", 92, 3, |v| matches!(v, vif!(E101 11np)), |v| match v { vif!(E101 11np) => true, 0..=255 => false }),
	("E101 11pn", 92, 3, |v| matches!(v, vif!(E101 11pn)), |v| match v { vif!(E101 11pn) => true, 0..=255 => false }),
	("E101 11pp", 92, 3, |v| matches!(v, vif!(E101 11pp)), |v| match v { vif!(E101 11pp) => true, 0..=255 => false }),
	("E101 0nnn", 80, 7, |v| matches!(v, vif!(E101 0nnn)), |v| match v { vif!(E101 0nnn) => true, 0..=255 => false }),
	("E101 0nnp", 80, 7, |v| matches!(v, vif!(E101 0nnp)), |v| match v { vif!(E101 0nnp) => true, 0..=255 => false }),
	("E101 0npn", 80, 7, |v| matches!(v, vif!(E101 0npn)), |v| match v { vif!(E101 0npn) => true, 0..=255 => false }),
	("E101 0npp", 80, 7, |v| matches!(v, vif!(E101 0npp)), |v| match v { vif!(E101 0npp) => true, 0..=255 => false }),
	("E101 0pnn", 80, 7, |v| matches!(v, vif!(E101 0pnn)), |v| match v { vif!(E101 0pnn) => true, 0..=255 => false }),
	("E101 0pnp", 80, 7, |v| matches!(v, vif!(E101 0pnp)), |v| match v { vif!(E101 0pnp) => true, 0..=255 => false }),
	("E101 0ppn", 80, 7, |v| matches!(v, vif!(E101 0ppn)), |v| match v { vif!(E101 0ppn) => true, 0..=255 => false }),
	("E101 0ppp", 80, 7, |v| matches!(v, vif!(E101 0ppp)), |v| match v { vif!(E101 0ppp) => true, 0..=255 => false }),
	("E101 1nnn", 88, 7, |v| matches!(v, vif!(E101 1nnn)), |v| match v { vif!(E101 1nnn) => true, 0..=255 => false }),
	("E101 1nnp", 88, 7, |v| matches!(v, vif!(E101 1nnp)), |v| match v { vif!(E101 1nnp) => true, 0..=255 => false }),
	("E101 1npn", 88, 7, |v| matches!(v, vif!(E101 1npn)), |v| match v { vif!(E101 1npn) => true, 0..=255 => false }),
	("E101 1npp", 88, 7, |v| matches!(v, vif!(E101 1npp)), |v| match v { vif!(E101 1npp) => true, 0..=255 => false }),
	("E101 1pnn", 88, 7, |v| matches!(v, vif!(E101 1pnn)), |v| match v { vif!(E101 1pnn) => true, 0..=255 => false }),
	("E101 1pnp", 88, 7, |v| matches!(v, vif!(E101 1pnp)), |v| match v { vif!(E101 1pnp) => true, 0..=255 => false }),
	("E101 1ppn", 88, 7, |v| matches!(v, vif!(E101 1ppn)), |v| match v { vif!(E101 1ppn) => true, 0..=255 => false }),
	("E101 1ppp", 88, 7, |v| matches!(v, vif!(E101 1ppp)), |v| match v { vif!(E101 1ppp) => true, 0..=255 => false }),
	("E101 nnnn", 80, 15, |v| matches!(v, vif!(E101 nnnn)), |v| match v { vif!(E101 nnnn) => true, 0..=255 => false }),
	("E101 nnnp", 80, 15, |v| matches!(v, vif!(E101 nnnp)), |v| match v { vif!(E101 nnnp) => true, 0..=255 => false }),
	("E101 nnpn", 80, 15, |v| matches!(v, vif!(E101 nnpn)), |v| match v { vif!(E101 nnpn) => true, 0..=255 => false }),
	("E101 nnpp", 80, 15, |v| matches!(v, vif!(E101 nnpp)), |v| match v { vif!(E101 nnpp) => true, 0..=255 => false }),
	("E101 npnn", 80, 15, |v| matches!(v, vif!(E101 npnn)), |v| match v { vif!(E101 npnn) => true, 0..=255 => false }),
	("E101 npnp", 80, 15, |v| matches!(v, vif!(E101 npnp)), |v| match v { vif!(E101 npnp) => true, 0..=255 => false }),
	("E101 nppn", 80, 15, |v| matches!(v, vif!(E101 nppn)), |v| match v { vif!(E101 nppn) => true, 0..=255 => false }),
	("E101 nppp", 80, 15, |v| matches!(v, vif!(E101 nppp)), |v| match v { vif!(E101 nppp) => true, 0..=255 => false }),
	("E101 pnnn", 80, 15, |v| matches!(v, vif!(E101 pnnn)), |v| match v { vif!(E101 pnnn) => true, 0..=255 => false }),
	("E101 pnnp", 80, 15, |v| matches!(v, vif!(E101 pnnp)), |v| match v { vif!(E101 pnnp) => true, 0..=255 => false }),
	("E101 pnpn", 80, 15, |v| matches!(v, vif!(E101 pnpn)), |v| match v { vif!(E101 pnpn) => true, 0..=255 => false }),
	("E101 pnpp", 80, 15, |v| matches!(v, vif!(E101 pnpp)), |v| match v { vif!(E101 pnpp) => true, 0..=255 => false }),
	("E101 ppnn", 80, 15, |v| matches!(v, vif!(E101 ppnn)), |v| match v { vif!(E101 ppnn) => true, 0..=255 => false }),
	("E101 ppnp", 80, 15, |v| matches!(v, vif!(E101 ppnp)), |v| match v { vif!(E101 ppnp) => true, 0..=255 => false }),
	("E101 pppn", 80, 15, |v| matches!(v, vif!(E101 pppn)), |v| match v { vif!(E101 pppn) => true, 0..=255 => false }),
	("E101 pppp", 80, 15, |v| matches!(v, vif!(E101 pppp)), |v| match v { vif!(E101 pppp) => true, 0..=255 => false }),
	("E110 0000", 96, 0, |v| matches!(v, vif!(E110 0000)), |v| match v { vif!(E110 0000) => true, 0..=255 => false }),
	("E110 0001", 97, 0, |v| matches!(v, vif!(E110 0001)), |v| match v { vif!(E110 0001) => true, 0..=255 => false }),
	("E110 0010", 98, 0, |v| matches!(v, vif!(E110 0010)), |v| match v { vif!(E110 0010) => true, 0..=255 => false }),
	("E110 0011", 99, 0, |v| matches!(v, vif!(E110 0011)), |v| match v { vif!(E110 0011) => true, 0..=255 => false }),
	("E110 0100", 100, 0, |v| matches!(v, vif!(E110 0100)), |v| match v { vif!(E110 0100) => true, 0..=255 => false }),
	("E110 0101", 101, 0, |v| matches!(v, vif!(E110 0101)), |v| match v { vif!(E110 0101) => true, 0..=255 => false }),
	("E110 0110", 102, 0, |v| matches!(v, vif!(E110 0110)), |v| match v { vif!(E110 0110) => true, 0..=255 => false }),
	("E110 0111", 103, 0, |v| matches!(v, vif!(E110 0111)), |v| match v { vif!(E110 0111) => true, 0..=255 => false }),
	("E110 1000", 104, 0, |v| matches!(v, vif!(E110 1000)), |v| match v { vif!(E110 1000) => true, 0..=255 => false }),
	("E110 1001", 105, 0, |v| matches!(v, vif!(E110 1001)), |v| match v { vif!(E110 1001) => true, 0..=255 => false }),
	("E110 1010", 106, 0, |v| matches!(v, vif!(E110 1010)), |v| match v { vif!(E110 1010) => true, 0..=255 => false }),
	("E110 1011", 107, 0, |v| matches!(v, vif!(E110 1011)), |v| match v { vif!(E110 1011) => true, 0..=255 => false }),
	("E110 1100", 108, 0, |v| matches!(v, vif!(E110 1100)), |v| match v { vif!(E110 1100) => true, 0..=255 => false }),
	("E110 1101", 109, 0, |v| matches!(v, vif!(E110 1101)), |v| match v { vif!(E110 1101) => true, 0..=255 => false }),
	("E110 1110", 110, 0, |v| matches!(v, vif!(E110 1110)), |v| match v { vif!(E110 1110) => true, 0..=255 => false }),
	("E110 1111", 111, 0, |v| matches!(v, vif!(E110 1111)), |v| match v { vif!(E110 1111) => true, 0..=255 => false }),
	("E110 000n", 96, 1, |v| matches!(v, vif!(E110 000n)), |v| match v { vif!(E110 000n) => true, 0..=255 => false }),
	("E110 000p", 96, 1, |v| matches!(v, vif!(E110 000p)), |v| match v { vif!(E110 000p) => true, 0..=255 => false }),
	("E110 001n", 98, 1, |v| matches!(v, vif!(E110 001n)), |v| match v { vif!(E110 001n) => true, 0..=255 => false }),
	("E110 001p", 98, 1, |v| matches!(v, vif!(E110 001p)), |v| match v { vif!(E110 001p) => true, 0..=255 => false }),
	("E110 010n", 100, 1, |v| matches!(v, vif!(E110 010n)), |v| match v { vif!(E110 010n) => true, 0..=255 => false }),
	("E110 010p", 100, 1, |v| matches!(v, vif!(E110 010p)), |v| match v { vif!(E110 010p) => true, 0..=255 => false }),
	("E110 011n", 102, 1, |v| matches!(v, vif!(E110 011n)), |v| match v { vif!(E110 011n) => true, 0..=255 => false }),
	("E110 011p", 102, 1, |v| matches!(v, vif!(E110 011p)), |v| match v { vif!(E110 011p) => true, 0..=255 => false }),
	("E110 100n", 104, 1, |v| matches!(v, vif!(E110 100n)), |v| match v { vif!(E110 100n) => true, 0..=255 => false }),
	("E110 100p", 104, 1, |v| matches!(v, vif!(E110 100p)), |v| match v { vif!(E110 100p) => true, 0..=255 => false }),
	("E110 101n", 106, 1, |v| matches!(v, vif!(E110 101n)), |v| match v { vif!(E110 101n) => true, 0..=255 => false }),
	("E110 101p", 106, 1, |v| matches!(v, vif!(E110 101p)), |v| match v { vif!(E110 101p) => true, 0..=255 => false }),
	("E110 110n", 108, 1, |v| matches!(v, vif!(E110 110n)), |v| match v { vif!(E110 110n) => true, 0..=255 => false }),
	("E110 110p", 108, 1, |v| matches!(v, vif!(E110 110p)), |v| match v { vif!(E110 110p) => true, 0..=255 => false }),
	("E110 111n", 110, 1, |v| matches!(v, vif!(E110 111n)), |v| match v { vif!(E110 111n) => true, 0..=255 => false }),
	("E110 111p", 110, 1, |v| matches!(v, vif!(E110 111p)), |v| match v { vif!(E110 111p) => true, 0..=255 => false }),
	("E110 00nn", 96, 3, |v| matches!(v, vif!(E110 00nn)), |v| match v { vif!(E110 00nn) => true, 0..=255 => false }),
	("E110 00np", 96, 3, |v| matches!(v, vif!(E110 00np)), |v| match v { vif!(E110 00np) => true, 0..=255 => false }),
	("E110 00pn", 96, 3, |v| matches!(v, vif!(E110 00pn)), |v| match v { vif!(E110 00pn) => true, 0..=255 => false }),
	("E110 00pp", 96, 3, |v| matches!(v, vif!(E110 00pp)), |v| match v { vif!(E110 00pp) => true, 0..=255 => false }),
	("E110 01nn", 100, 3, |v| matches!(v, vif!(E110 01nn)), |v| match v { vif!(E110 01nn) => true, 0..=255 => false }),
	("E110 01np", 100, 3, |v| matches!(v, vif!(E110 01np)), |v| match v { vif!(E110 01np) => true, 0..=255 => false }),
	("E110 01pn", 100, 3, |v| matches!(v, vif!(E110 01pn)), |v| match v { vif!(E110 01pn) => true, 0..=255 => false }),
	("E110 01pp", 100, 3, |v| matches!(v, vif!(E110 01pp)), |v| match v { vif!(E110 01pp) => true, 0..=255 => false }),
	("E110 10nn", 104, 3, |v| matches!(v, vif!(E110 10nn)), |v| match v { vif!(E110 10nn) => true, 0..=255 => false }),
	("E110 10np", 104, 3, |v| matches!(v, vif!(E110 10np)), |v| match v { vif!(E110 10np) => true, 0..=255 => false }),
	("E110 10pn", 104, 3, |v| matches!(v, vif!(E110 10pn)), |v| match v { vif!(E110 10pn) => true, 0..=255 => false }),
	("E110 10pp", 104, 3, |v| matches!(v, vif!(E110 10pp)), |v| match v { vif!(E110 10pp) => true, 0..=255 => false }),
	("E110 11nn", 108, 3, |v| matches!(v, vif!(E110 11nn)), |v| match v { vif!(E110 11nn) => true, 0..=255 => false }),
	("E110 11np", 108, 3, |v| matches!(v, vif!(E110 11np)), |v| match v { vif!(E110 11np) => true, 0..=255 => false }),
	("E110 11pn", 108, 3, |v| matches!(v, vif!(E110 11pn)), |v| match v { vif!(E110 11pn) => true, 0..=255 => false }),
	("E110 11pp", 108, 3, |v| matches!(v, vif!(E110 11pp)), |v| match v { vif!(E110 11pp) => true, 0..=255 => false }),
	("E110 0nnn", 96, 7, |v| matches!(v, vif!(E110 0nnn)), |v| match v { vif!(E110 0nnn) => true, 0..=255 => false }),
	("E110 0nnp", 96, 7, |v| matches!(v, vif!(E110 0nnp)), |v| match v { vif!(E110 0nnp) => true, 0..=255 => false }),
	("E110 0npn", 96, 7, |v| matches!(v, vif!(E110 0npn)), |v| match v { vif!(E110 0npn) => true, 0..=255 => false }),
	("E110 0npp", 96, 7, |v| matches!(v, vif!(E110 0npp)), |v| match v { vif!(E110 0npp) => true, 0..=255 => false }),
	("E110 0pnn", 96, 7, |v| matches!(v, vif!(E110 0pnn)), |v| match v { vif!(E110 0pnn) => true, 0..=255 => false }),
	("E110 0pnp", 96, 7, |v| matches!(v, vif!(E110 0pnp)), |v| match v { vif!(E110 0pnp) => true, 0..=255 => false }),
	("E110 0ppn", 96, 7, |v| matches!(v, vif!(E110 0ppn)), |v| match v { vif!(E110 0ppn) => true, 0..=255 => false }),
	("E110 0ppp", 96, 7, |v| matches!(v, vif!(E110 0ppp)), |v| match v { vif!(E110 0ppp) => true, 0..=255 => false }),
	("E110 1nnn", 104, 7, |v| matches!(v, vif!(E110 1nnn)), |v| match v { vif!(E110 1nnn) => true, 0..=255 => false }),
	("E110 1nnp", 104, 7, |v| matches!(v, vif!(E110 1nnp)), |v| match v { vif!(E110 1nnp) => true, 0..=255 => false }),
	("E110 1npn", 104, 7, |v| matches!(v, vif!(E110 1npn)), |v| match v { vif!(E110 1npn) => true, 0..=255 => false }),
	("E110 1npp", 104, 7, |v| matches!(v, vif!(E110 1npp)), |v| match v { vif!(E110 1npp) => true, 0..=255 => false }),
	("E110 1pnn", 104, 7, |v| matches!(v, vif!(E110 1pnn)), |v| match v { vif!(E110 1pnn) => true, 0..=255 => false }),
	("E110 1pnp", 104, 7, |v| matches!(v, vif!(E110 1pnp)), |v| match v { vif!(E110 1pnp) => true, 0..=255 => false }),
	("E110 1ppn", 104, 7, |v| matches!(v, vif!(E110 1ppn)), |v| match v { vif!(E110 1ppn) => true, 0..=255 => false }),
	("E110 1ppp", 104, 7, |v| matches!(v, vif!(E110 1ppp)), |v| match v { vif!(E110 1ppp) => true, 0..=255 => false }),
	("E110 nnnn", 96, 15, |v| matches!(v, vif!(E110 nnnn)), |v| match v { vif!(E110 nnnn) => true, 0..=255 => false }),
	("E110 nnnp", 96, 15, |v| matches!(v, vif!(E110 nnnp)), |v| match v { vif!(E110 nnnp) => true, 0..=255 => false }),
	("E110 nnpn", 96, 15, |v| matches!(v, vif!(E110 nnpn)), |v| match v { vif!(E110 nnpn) => true, 0..=255 => false }),
	("E110 nnpp", 96, 15, |v| matches!(v, vif!(E110 nnpp)), |v| match v { vif!(E110 nnpp) => true, 0..=255 => false }),
	("E110 npnn", 96, 15, |v| matches!(v, vif!(E110 npnn)), |v| match v { vif!(E110 npnn) => true, 0..=255 => false }),
	("E110 npnp", 96, 15, |v| matches!(v, vif!(E110 npnp)), |v| match v { vif!(E110 npnp) => true, 0..=255 => false }),
	("E110 nppn", 96, 15, |v| matches!(v, vif!(E110 nppn)), |v| match v { vif!(E110 nppn) => true, 0..=255 => false }),
	("E110 nppp", 96, 15, |v| matches!(v, vif!(E110 nppp)), |v| match v { vif!(E110 nppp) => true, 0..=255 => false }),
	("E110 pnnn", 96, 15, |v| matches!(v, vif!(E110 pnnn)), |v| match v { vif!(E110 pnnn) => true, 0..=255 => false }),
	("E110 pnnp", 96, 15, |v| matches!(v, vif!(E110 pnnp)), |v| match v { vif!(E110 pnnp) => true, 0..=255 => false }),
	("E110 pnpn", 96, 15, |v| matches!(v, vif!(E110 pnpn)), |v| match v { vif!(E110 pnpn) => true, 0..=255 => false }),
	("E110 pnpp", 96, 15, |v| matches!(v, vif!(E110 pnpp)), |v| match v { vif!(E110 pnpp) => true, 0..=255 => false }),
	("E110 ppnn", 96, 15, |v| matches!(v, vif!(E110 ppnn)), |v| match v { vif!(E110 ppnn) => true, 0..=255 => false }),
	("E110 ppnp", 96, 15, |v| matches!(v, vif!(E110 ppnp)), |v| match v { vif!(E110 ppnp) => true, 0..=255 => false }),
	("E110 pppn", 96, 15, |v| matches!(v, vif!(E110 pppn)), |v| match v { vif!(E110 pppn) => true, 0..=255 => false }),
	("E110 pppp", 96, 15, |v| matches!(v, vif!(E110 pppp)), |v| match v { vif!(E110 pppp) => true, 0..=255 => false }),
	("E111 0000", 112, 0, |v| matches!(v, vif!(E111 0000)), |v| match v { vif!(E111 0000) => true, 0..=255 => false }),
	("E111 0001", 113, 0, |v| matches!(v, vif!(E111 0001)), |v| match v { vif!(E111 0001) => true, 0..=255 => false }),
	("E111 0010", 114, 0, |v| matches!(v, vif!(E111 0010)), |v| match v { vif!(E111 0010) => true, 0..=255 => false }),
	("E111 0011", 115, 0, |v| matches!(v, vif!(E111 0011)), |v| match v { vif!(E111 0011) => true, 0..=255 => false }),
	("E111 0100", 116, 0, |v| matches!(v, vif!(E111 0100)), |v| match v { vif!(E111 0100) => true, 0..=255 => false }),
	("E111 0101", 117, 0, |v| matches!(v, vif!(E111 0101)), |v| match v { vif!(E111 0101) => true, 0..=255 => false }),
	("E111 0110", 118, 0, |v| matches!(v, vif!(E111 0110)), |v| match v { vif!(E111 0110) => true, 0..=255 => false }),
	("E111 0111", 119, 0, |v| matches!(v, vif!(E111 0111)), |v| match v { vif!(E111 0111) => true, 0..=255 => false }),
	("E111 1000", 120, 0, |v| matches!(v, vif!(E111 1000)), |v| match v { vif!(E111 1000) => true, 0..=255 => false }),
	("E111 1001", 121, 0, |v| matches!(v, vif!(E111 1001)), |v| match v { vif!(E111 1001) => true, 0..=255 => false }),
	("E111 1010", 122, 0, |v| matches!(v, vif!(E111 1010)), |v| match v { vif!(E111 1010) => true, 0..=255 => false }),
	("E111 1011", 123, 0, |v| matches!(v, vif!(E111 1011)), |v| match v { vif!(E111 1011) => true, 0..=255 => false }),
	("E111 1100", 124, 0, |v| matches!(v, vif!(E111 1100)), |v| match v { vif!(E111 1100) => true, 0..=255 => false }),
	("E111 1101", 125, 0, |v| matches!(v, vif!(E111 1101)), |v| match v { vif!(E111 1101) => true, 0..=255 => false }),
	("E111 1110", 126, 0, |v| matches!(v, vif!(E111 1110)), |v| match v { vif!(E111 1110) => true, 0..=255 => false }),
	("E111 1111", 127, 0, |v| matches!(v, vif!(E111 1111)), |v| match v { vif!(E111 1111) => true, 0..=255 => false }),
	("E111 000n", 112, 1, |v| matches!(v, vif!(E111 000n)), |v| match v { vif!(E111 000n) => true, 0..=255 => false }),
	("E111 000p", 112, 1, |v| matches!(v, vif!(E111 000p)), |v| match v { vif!(E111 000p) => true, 0..=255 => false }),
	("E111 001n", 114, 1, |v| matches!(v, vif!(E111 001n)), |v| match v { vif!(E111 001n) => true, 0..=255 => false }),
	("E111 001p", 114, 1, |v| matches!(v, vif!(E111 001p)), |v| match v { vif!(E111 001p) => true, 0..=255 => false }),
	("E111 010n", 116, 1, |v| matches!(v, vif!(E111 010n)), |v| match v { vif!(E111 010n) => true, 0..=255 => false }),
	("E111 010p", 116, 1, |v| matches!(v, vif!(E111 010p)), |v| match v { vif!(E111 010p) => true, 0..=255 => false }),
	("E111 011n", 118, 1, |v| matches!(v, vif!(E111 011n)), |v| match v { vif!(E111 011n) => true, 0..=255 => false }),
	("E111 011p", 118, 1, |v| matches!(v, vif!(E111 011p)), |v| match v { vif!(E111 011p) => true, 0..=255 => false }),
	("E111 100n", 120, 1, |v| matches!(v, vif!(E111 100n)), |v| match v { vif!(E111 100n) => true, 0..=255 => false }),
	("E111 100p", 120, 1, |v| matches!(v, vif!(E111 100p)), |v| match v { vif!(E111 100p) => true, 0..=255 => false }),
	("E111 101n", 122, 1, |v| matches!(v, vif!(E111 101n)), |v| match v { vif!(E111 101n) => true, 0..=255 => false }),
	("E111 101p", 122, 1, |v| matches!(v, vif!(E111 101p)), |v| match v { vif!(E111 101p) => true, 0..=255 => false }),
	("E111 110n", 124, 1, |v| matches!(v, vif!(E111 110n)), |v| match v { vif!(E111 110n) => true, 0..=255 => false }),
	("E111 110p", 124, 1, |v| matches!(v, vif!(E111 110p)), |v| match v { vif!(E111 110p) => true, 0..=255 => false }),
	("E111 111n", 126, 1, |v| matches!(v, vif!(E111 111n)), |v| match v { vif!(E111 111n) => true, 0..=255 => false }),
	("E111 111p", 126, 1, |v| matches!(v, vif!(E111 111p)), |v| match v { vif!(E111 111p) => true, 0..=255 => false }),
	("E111 00nn", 112, 3, |v| matches!(v, vif!(E111 00nn)), |v| match v { vif!(E111 00nn) => true, 0..=255 => false }),
	("E111 00np", 112, 3, |v| matches!(v, vif!(E111 00np)), |v| match v { vif!(E111 00np) => true, 0..=255 => false }),
	("E111 00pn", 112, 3, |v| matches!(v, vif!(E111 00pn)), |v| match v { vif!(E111 00pn) => true, 0..=255 => false }),
	("E111 00pp", 112, 3, |v| matches!(v, vif!(E111 00pp)), |v| match v { vif!(E111 00pp) => true, 0..=255 => false }),
	("E111 01nn", 116, 3, |v| matches!(v, vif!(E111 01nn)), |v| match v { vif!(E111 01nn) => true, 0..=255 => false }),
	("E111 01np", 116, 3, |v| matches!(v, vif!(E111 01np)), |v| match v { vif!(E111 01np) => true, 0..=255 => false }),
	("E111 01pn", 116, 3, |v| matches!(v, vif!(E111 01pn)), |v| match v { vif!(E111 01pn) => true, 0..=255 => false }),
	("E111 01pp", 116, 3, |v| matches!(v, vif!(E111 01pp)), |v| match v { vif!(E111 01pp) => true, 0..=255 => false }),
	("E111 10nn", 120, 3, |v| matches!(v, vif!(E111 10nn)), |v| match v { vif!(E111 10nn) => true, 0..=255 => false }),
	("E111 10np", 120, 3, |v| matches!(v, vif!(E111 10np)), |v| match v { vif!(E111 10np) => true, 0..=255 => false }),
	("E111 10pn", 120, 3, |v| matches!(v, vif!(E111 10pn)), |v| match v { vif!(E111 10pn) => true, 0..=255 => false }),
	("E111 10pp", 120, 3, |v| matches!(v, vif!(E111 10pp)), |v| match v { vif!(E111 10pp) => true, 0..=255 => false }),
	("E111 11nn", 124, 3, |v| matches!(v, vif!(E111 11nn)), |v| match v { vif!(E111 11nn) => true, 0..=255 => false }),
	("E111 11np", 124, 3, |v| matches!(v, vif!(E111 11np)), |v| match v { vif!(E111 11np) => true, 0..=255 => false }),
	("E111 11pn", 124, 3, |v| matches!(v, vif!(E111 11pn)), |v| match v { vif!(E111 11pn) => true, 0..=255 => false }),
	("E111 11pp", 124, 3, |v| matches!(v, vif!(E111 11pp)), |v| match v { vif!(E111 11pp) => true, 0..=255 => false }),
	("E111 0nnn", 112, 7, |v| matches!(v, vif!(E111 0nnn)), |v| match v { vif!(E111 0nnn) => true, 0..=255 => false }),
	("E111 0nnp", 112, 7, |v| matches!(v, vif!(E111 0nnp)), |v| match v { vif!(E111 0nnp) => true, 0..=255 => false }),
	("E111 0npn", 112, 7, |v| matches!(v, vif!(E111 0npn)), |v| match v { vif!(E111 0npn) => true, 0..=255 => false }),
	("E111 0npp", 112, 7, |v| matches!(v, vif!(E111 0npp)), |v| match v { vif!(E111 0npp) => true, 0..=255 => false }),
	("E111 0pnn", 112, 7, |v| matches!(v, vif!(E111 0pnn)), |v| match v { vif!(E111 0pnn) => true, 0..=255 => false }),
	("E111 0pnp", 112, 7, |v| matches!(v, vif!(E111 0pnp)), |v| match v { vif!(E111 0pnp) => true, 0..=255 => false }),
	("E111 0ppn", 112, 7, |v| matches!(v, vif!(E111 0ppn)), |v| match v { vif!(E111 0ppn) => true, 0..=255 => false }),
	("E111 0ppp", 112, 7, |v| matches!(v, vif!(E111 0ppp)), |v| match v { vif!(E111 0ppp) => true, 0..=255 => false }),
	("E111 1nnn", 120, 7, |v| matches!(v, vif!(E111 1nnn)), |v| match v { vif!(E111 1nnn) => true, 0..=255 => false }),
	("E111 1nnp", 120, 7, |v| matches!(v, vif!(E111 1nnp)), |v| match v { vif!(E111 1nnp) => true, 0..=255 => false }),
	("E111 1npn", 120, 7, |v| matches!(v, vif!(E111 1npn)), |v| match v { vif!(E111 1npn) => true, 0..=255 => false }),
	("E111 1npp", 120, 7, |v| matches!(v, vif!(E111 1npp)), |v| match v { vif!(E111 1npp) => true, 0..=255 => false }),
	("E111 1pnn", 120, 7, |v| matches!(v, vif!(E111 1pnn)), |v| match v { vif!(E111 1pnn) => true, 0..=255 => false }),
	("E111 1pnp", 120, 7, |v| matches!(v, vif!(E111 1pnp)), |v| match v { vif!(E111 1pnp) => true, 0..=255 => false }),
	("E111 1ppn", 120, 7, |v| matches!(v, vif!(E111 1ppn)), |v| match v { vif!(E111 1ppn) => true, 0..=255 => false }),
	("E111 1ppp", 120, 7, |v| matches!(v, vif!(E111 1ppp)), |v| match v { vif!(E111 1ppp) => true, 0..=255 => false }),
	("E111 nnnn", 112, 15, |v| matches!(v, vif!(E111 nnnn)), |v| match v { vif!(E111 nnnn) => true, 0..=255 => false }),
	("E111 nnnp", 112, 15, |v| matches!(v, vif!(E111 nnnp)), |v| match v { vif!(E111 nnnp) => true, 0..=255 => false }),
	("E111 nnpn", 112, 15, |v| matches!(v, vif!(E111 nnpn)), |v| match v { vif!(E111 nnpn) => true, 0..=255 => false }),
	("E111 nnpp", 112, 15, |v| matches!(v, vif!(E111 nnpp)), |v| match v { vif!(E111 nnpp) => true, 0..=255 => false }),
	("E111 npnn", 112, 15, |v| matches!(v, vif!(E111 npnn)), |v| match v { vif!(E111 npnn) => true, 0..=255 => false }),
	("E111 npnp", 112, 15, |v| matches!(v, vif!(E111 npnp)), |v| match v { vif!(E111 npnp) => true, 0..=255 => false }),
	("E111 nppn", 112, 15, |v| matches!(v, vif!(E111 nppn)), |v| match v { vif!(E111 nppn) => true, 0..=255 => false }),
	("E111 nppp", 112, 15, |v| matches!(v, vif!(E111 nppp)), |v| match v { vif!(E111 nppp) => true, 0..=255 => false }),
	("E111 pnnn", 112, 15, |v| matches!(v, vif!(E111 pnnn)), |v| match v { vif!(E111 pnnn) => true, 0..=255 => false }),
	("E111 pnnp", 112, 15, |v| matches!(v, vif!(E111 pnnp)), |v| match v { vif!(E111 pnnp) => true, 0..=255 => false }),
	("E111 pnpn", 112, 15, |v| matches!(v, vif!(E111 pnpn)), |v| match v { vif!(E111 pnpn) => true, 0..=255 => false }),
	("E111 pnpp", 112, 15, |v| matches!(v, vif!(E111 pnpp)), |v| match v { vif!(E111 pnpp) => true, 0..=255 => false }),
	("E111 ppnn", 112, 15, |v| matches!(v, vif!(E111 ppnn)), |v| match v { vif!(E111 ppnn) => true, 0..=255 => false }),
	("E111 ppnp", 112, 15, |v| matches!(v, vif!(E111 ppnp)), |v| match v { vif!(E111 ppnp) => true, 0..=255 => false }),
	("E111 pppn", 112, 15, |v| matches!(v, vif!(E111 pppn)), |v| match v { vif!(E111 pppn) => true, 0..=255 => false }),
	("E111 pppp", 112, 15, |v| matches!(v, vif!(E111 pppp)), |v| match v { vif!(E111 pppp) => true, 0..=255 => false }),
];
