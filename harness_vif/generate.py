#!/usr/bin/env python3
"""Writes src/patterns.rs: every pattern that vif!() can be given."""
import itertools, os

out = ["// Made by generate.py: every pattern there is\n\n"]
out.append("pub type Row = (&'static str, u8, u8, fn(u8) -> bool, fn(u8) -> bool);\n\n")
out.append("pub const PATTERNS: &[Row] = &[\n")
for upper in range(8):
    for free in range(5):
        for low in range(1 << (4 - free)):
            digits = format(low, "b").zfill(4 - free) if free < 4 else ""
            for letters in itertools.product("np", repeat=free):
                text = f"E{upper:03b} {digits}{''.join(letters)}"
                base = (upper << 4) | (low << free)
                # As a pattern in matches!, and as one arm among others
                out.append(
                    f'\t("{text}", {base}, {(1 << free) - 1}, |v| matches!(v, vif!({text})), '
                    f"|v| match v {{ vif!({text}) => true, 0..=255 => false }}),\n"
                )
out.append("];\n")
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "src", "patterns.rs"), "w") as f:
    f.write("use libmbus_macros::vif;\n\n" + "".join(out))
