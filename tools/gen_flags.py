"""Write mc/src/flags.rs: every combination of formatting flags as a function."""

import itertools
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALIGN = ["", "<", "^", ">", "*<", "é^", "*>"]
SIGN = ["", "+", "-"]
ALT = ["", "#"]
ZERO = ["", "0"]
WIDTH = ["", "w$"]
PREC = ["", ".p$"]
KIND = ["", "?", "x?", "X?"]

out = [
    "//! Every combination of formatting flags. Generated by tools/gen_flags.py.",
    "",
    "use std::fmt::{self, Debug, Display, Write};",
    "",
    "pub trait Both: Debug + Display {}",
    "",
    "impl<T: Debug + Display> Both for T {}",
    "",
    "pub struct Flags {",
    "    pub name: &'static str,",
    "    pub width: bool,",
    "    pub prec: bool,",
    "    pub debug: bool,",
    "    pub hex: bool,",
    "    pub f: fn(&mut dyn Write, &dyn Both, usize, usize) -> fmt::Result,",
    "}",
    "",
    "pub const FLAGS: &[Flags] = &[",
]
for a, s, t, z, w, p, k in itertools.product(ALIGN, SIGN, ALT, ZERO, WIDTH, PREC, KIND):
    b = lambda v: "true" if v else "false"  # noqa: E731
    args = "".join(f", {x} = {x}" for x, y in (("w", w), ("p", p)) if y)
    name = "{:" + a + s + t + z + w + p + k + "}"
    debug, hexa = b("?" in k), b("x" in k.lower())
    out.append(
        f'    Flags {{ name: "{name}", width: {b(w)}, prec: {b(p)}, debug: {debug}, hex: {hexa}, '
        f'f: |out, v, w, p| write!(out, "{name}", v{args}) }},'
    )
out.append("];")
with open(os.path.join(ROOT, "mc/src/flags.rs"), "w") as f:
    f.write("\n".join(out) + "\n")
