//! Every combination of formatting flags. Generated by tools/gen_flags.py.

use std::fmt::{self, Debug, Display, Write};

pub trait Both: Debug + Display {}

impl<T: Debug + Display> Both for T {}

pub struct Flags {
    pub name: &'static str,
    pub width: bool,
    pub prec: bool,
    pub debug: bool,
    pub hex: bool,
    pub f: fn(&mut dyn Write, &dyn Both, usize, usize) -> fmt::Result,
}

pub const FLAGS: &[Flags] = &[
    Flags { name: "{:}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:}", v) },
    Flags { name: "{:?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:?}", v) },
    Flags { name: "{:x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:x?}", v) },
    Flags { name: "{:X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:X?}", v) },
    Flags { name: "{:.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:.p$}", v, p = p) },
    Flags { name: "{:.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:.p$?}", v, p = p) },
    Flags { name: "{:.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:.p$x?}", v, p = p) },
    Flags { name: "{:.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:.p$X?}", v, p = p) },
    Flags { name: "{:w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:w$}", v, w = w) },
    Flags { name: "{:w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:w$?}", v, w = w) },
    Flags { name: "{:w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:w$x?}", v, w = w) },
    Flags { name: "{:w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:w$X?}", v, w = w) },
    Flags { name: "{:w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:w$.p$}", v, w = w, p = p) },
    Flags { name: "{:w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:0}", v) },
    Flags { name: "{:0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:0?}", v) },
    Flags { name: "{:0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:0x?}", v) },
    Flags { name: "{:0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:0X?}", v) },
    Flags { name: "{:0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:0.p$}", v, p = p) },
    Flags { name: "{:0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:0.p$?}", v, p = p) },
    Flags { name: "{:0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:0.p$x?}", v, p = p) },
    Flags { name: "{:0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:0.p$X?}", v, p = p) },
    Flags { name: "{:0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:0w$}", v, w = w) },
    Flags { name: "{:0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:0w$?}", v, w = w) },
    Flags { name: "{:0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:0w$x?}", v, w = w) },
    Flags { name: "{:0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:0w$X?}", v, w = w) },
    Flags { name: "{:0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:#}", v) },
    Flags { name: "{:#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:#?}", v) },
    Flags { name: "{:#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#x?}", v) },
    Flags { name: "{:#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#X?}", v) },
    Flags { name: "{:#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:#.p$}", v, p = p) },
    Flags { name: "{:#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:#.p$?}", v, p = p) },
    Flags { name: "{:#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#.p$x?}", v, p = p) },
    Flags { name: "{:#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#.p$X?}", v, p = p) },
    Flags { name: "{:#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:#w$}", v, w = w) },
    Flags { name: "{:#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:#w$?}", v, w = w) },
    Flags { name: "{:#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#w$x?}", v, w = w) },
    Flags { name: "{:#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#w$X?}", v, w = w) },
    Flags { name: "{:#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:#0}", v) },
    Flags { name: "{:#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:#0?}", v) },
    Flags { name: "{:#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#0x?}", v) },
    Flags { name: "{:#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#0X?}", v) },
    Flags { name: "{:#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:#0.p$}", v, p = p) },
    Flags { name: "{:#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:#0.p$?}", v, p = p) },
    Flags { name: "{:#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#0.p$x?}", v, p = p) },
    Flags { name: "{:#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#0.p$X?}", v, p = p) },
    Flags { name: "{:#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:#0w$}", v, w = w) },
    Flags { name: "{:#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:#0w$?}", v, w = w) },
    Flags { name: "{:#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#0w$x?}", v, w = w) },
    Flags { name: "{:#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#0w$X?}", v, w = w) },
    Flags { name: "{:#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:+}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+}", v) },
    Flags { name: "{:+?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+?}", v) },
    Flags { name: "{:+x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+x?}", v) },
    Flags { name: "{:+X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+X?}", v) },
    Flags { name: "{:+.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+.p$}", v, p = p) },
    Flags { name: "{:+.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+.p$?}", v, p = p) },
    Flags { name: "{:+.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+.p$x?}", v, p = p) },
    Flags { name: "{:+.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+.p$X?}", v, p = p) },
    Flags { name: "{:+w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+w$}", v, w = w) },
    Flags { name: "{:+w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+w$?}", v, w = w) },
    Flags { name: "{:+w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+w$x?}", v, w = w) },
    Flags { name: "{:+w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+w$X?}", v, w = w) },
    Flags { name: "{:+w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+w$.p$}", v, w = w, p = p) },
    Flags { name: "{:+w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:+w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:+w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:+0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+0}", v) },
    Flags { name: "{:+0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+0?}", v) },
    Flags { name: "{:+0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+0x?}", v) },
    Flags { name: "{:+0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+0X?}", v) },
    Flags { name: "{:+0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+0.p$}", v, p = p) },
    Flags { name: "{:+0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+0.p$?}", v, p = p) },
    Flags { name: "{:+0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+0.p$x?}", v, p = p) },
    Flags { name: "{:+0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+0.p$X?}", v, p = p) },
    Flags { name: "{:+0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+0w$}", v, w = w) },
    Flags { name: "{:+0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+0w$?}", v, w = w) },
    Flags { name: "{:+0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+0w$x?}", v, w = w) },
    Flags { name: "{:+0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+0w$X?}", v, w = w) },
    Flags { name: "{:+0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:+0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:+0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:+0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:+#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+#}", v) },
    Flags { name: "{:+#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+#?}", v) },
    Flags { name: "{:+#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#x?}", v) },
    Flags { name: "{:+#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#X?}", v) },
    Flags { name: "{:+#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+#.p$}", v, p = p) },
    Flags { name: "{:+#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+#.p$?}", v, p = p) },
    Flags { name: "{:+#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#.p$x?}", v, p = p) },
    Flags { name: "{:+#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#.p$X?}", v, p = p) },
    Flags { name: "{:+#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+#w$}", v, w = w) },
    Flags { name: "{:+#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+#w$?}", v, w = w) },
    Flags { name: "{:+#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#w$x?}", v, w = w) },
    Flags { name: "{:+#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#w$X?}", v, w = w) },
    Flags { name: "{:+#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:+#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:+#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:+#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:+#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+#0}", v) },
    Flags { name: "{:+#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+#0?}", v) },
    Flags { name: "{:+#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#0x?}", v) },
    Flags { name: "{:+#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#0X?}", v) },
    Flags { name: "{:+#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+#0.p$}", v, p = p) },
    Flags { name: "{:+#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+#0.p$?}", v, p = p) },
    Flags { name: "{:+#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#0.p$x?}", v, p = p) },
    Flags { name: "{:+#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#0.p$X?}", v, p = p) },
    Flags { name: "{:+#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+#0w$}", v, w = w) },
    Flags { name: "{:+#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+#0w$?}", v, w = w) },
    Flags { name: "{:+#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#0w$x?}", v, w = w) },
    Flags { name: "{:+#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#0w$X?}", v, w = w) },
    Flags { name: "{:+#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:+#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:+#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:+#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:+#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:+#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:+#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:-}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-}", v) },
    Flags { name: "{:-?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-?}", v) },
    Flags { name: "{:-x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-x?}", v) },
    Flags { name: "{:-X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-X?}", v) },
    Flags { name: "{:-.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-.p$}", v, p = p) },
    Flags { name: "{:-.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-.p$?}", v, p = p) },
    Flags { name: "{:-.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-.p$x?}", v, p = p) },
    Flags { name: "{:-.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-.p$X?}", v, p = p) },
    Flags { name: "{:-w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-w$}", v, w = w) },
    Flags { name: "{:-w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-w$?}", v, w = w) },
    Flags { name: "{:-w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-w$x?}", v, w = w) },
    Flags { name: "{:-w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-w$X?}", v, w = w) },
    Flags { name: "{:-w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-w$.p$}", v, w = w, p = p) },
    Flags { name: "{:-w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:-w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:-w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:-0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-0}", v) },
    Flags { name: "{:-0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-0?}", v) },
    Flags { name: "{:-0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-0x?}", v) },
    Flags { name: "{:-0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-0X?}", v) },
    Flags { name: "{:-0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-0.p$}", v, p = p) },
    Flags { name: "{:-0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-0.p$?}", v, p = p) },
    Flags { name: "{:-0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-0.p$x?}", v, p = p) },
    Flags { name: "{:-0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-0.p$X?}", v, p = p) },
    Flags { name: "{:-0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-0w$}", v, w = w) },
    Flags { name: "{:-0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-0w$?}", v, w = w) },
    Flags { name: "{:-0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-0w$x?}", v, w = w) },
    Flags { name: "{:-0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-0w$X?}", v, w = w) },
    Flags { name: "{:-0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:-0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:-0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:-0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:-#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-#}", v) },
    Flags { name: "{:-#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-#?}", v) },
    Flags { name: "{:-#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#x?}", v) },
    Flags { name: "{:-#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#X?}", v) },
    Flags { name: "{:-#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-#.p$}", v, p = p) },
    Flags { name: "{:-#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-#.p$?}", v, p = p) },
    Flags { name: "{:-#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#.p$x?}", v, p = p) },
    Flags { name: "{:-#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#.p$X?}", v, p = p) },
    Flags { name: "{:-#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-#w$}", v, w = w) },
    Flags { name: "{:-#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-#w$?}", v, w = w) },
    Flags { name: "{:-#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#w$x?}", v, w = w) },
    Flags { name: "{:-#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#w$X?}", v, w = w) },
    Flags { name: "{:-#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:-#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:-#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:-#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:-#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-#0}", v) },
    Flags { name: "{:-#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-#0?}", v) },
    Flags { name: "{:-#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#0x?}", v) },
    Flags { name: "{:-#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#0X?}", v) },
    Flags { name: "{:-#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-#0.p$}", v, p = p) },
    Flags { name: "{:-#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-#0.p$?}", v, p = p) },
    Flags { name: "{:-#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#0.p$x?}", v, p = p) },
    Flags { name: "{:-#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#0.p$X?}", v, p = p) },
    Flags { name: "{:-#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-#0w$}", v, w = w) },
    Flags { name: "{:-#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-#0w$?}", v, w = w) },
    Flags { name: "{:-#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#0w$x?}", v, w = w) },
    Flags { name: "{:-#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#0w$X?}", v, w = w) },
    Flags { name: "{:-#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:-#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:-#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:-#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:-#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:-#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:-#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<}", v) },
    Flags { name: "{:<?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<?}", v) },
    Flags { name: "{:<x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<x?}", v) },
    Flags { name: "{:<X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<X?}", v) },
    Flags { name: "{:<.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<.p$}", v, p = p) },
    Flags { name: "{:<.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<.p$?}", v, p = p) },
    Flags { name: "{:<.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<.p$x?}", v, p = p) },
    Flags { name: "{:<.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<.p$X?}", v, p = p) },
    Flags { name: "{:<w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<w$}", v, w = w) },
    Flags { name: "{:<w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<w$?}", v, w = w) },
    Flags { name: "{:<w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<w$x?}", v, w = w) },
    Flags { name: "{:<w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<w$X?}", v, w = w) },
    Flags { name: "{:<w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<0}", v) },
    Flags { name: "{:<0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<0?}", v) },
    Flags { name: "{:<0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<0x?}", v) },
    Flags { name: "{:<0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<0X?}", v) },
    Flags { name: "{:<0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<0.p$}", v, p = p) },
    Flags { name: "{:<0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<0.p$?}", v, p = p) },
    Flags { name: "{:<0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<0.p$x?}", v, p = p) },
    Flags { name: "{:<0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<0.p$X?}", v, p = p) },
    Flags { name: "{:<0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<0w$}", v, w = w) },
    Flags { name: "{:<0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<0w$?}", v, w = w) },
    Flags { name: "{:<0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<0w$x?}", v, w = w) },
    Flags { name: "{:<0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<0w$X?}", v, w = w) },
    Flags { name: "{:<0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<#}", v) },
    Flags { name: "{:<#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<#?}", v) },
    Flags { name: "{:<#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#x?}", v) },
    Flags { name: "{:<#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#X?}", v) },
    Flags { name: "{:<#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<#.p$}", v, p = p) },
    Flags { name: "{:<#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<#.p$?}", v, p = p) },
    Flags { name: "{:<#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#.p$x?}", v, p = p) },
    Flags { name: "{:<#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#.p$X?}", v, p = p) },
    Flags { name: "{:<#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<#w$}", v, w = w) },
    Flags { name: "{:<#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<#w$?}", v, w = w) },
    Flags { name: "{:<#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#w$x?}", v, w = w) },
    Flags { name: "{:<#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#w$X?}", v, w = w) },
    Flags { name: "{:<#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<#0}", v) },
    Flags { name: "{:<#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<#0?}", v) },
    Flags { name: "{:<#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#0x?}", v) },
    Flags { name: "{:<#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#0X?}", v) },
    Flags { name: "{:<#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<#0.p$}", v, p = p) },
    Flags { name: "{:<#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<#0.p$?}", v, p = p) },
    Flags { name: "{:<#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#0.p$x?}", v, p = p) },
    Flags { name: "{:<#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#0.p$X?}", v, p = p) },
    Flags { name: "{:<#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<#0w$}", v, w = w) },
    Flags { name: "{:<#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<#0w$?}", v, w = w) },
    Flags { name: "{:<#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#0w$x?}", v, w = w) },
    Flags { name: "{:<#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#0w$X?}", v, w = w) },
    Flags { name: "{:<#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<+}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+}", v) },
    Flags { name: "{:<+?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+?}", v) },
    Flags { name: "{:<+x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+x?}", v) },
    Flags { name: "{:<+X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+X?}", v) },
    Flags { name: "{:<+.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+.p$}", v, p = p) },
    Flags { name: "{:<+.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+.p$?}", v, p = p) },
    Flags { name: "{:<+.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+.p$x?}", v, p = p) },
    Flags { name: "{:<+.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+.p$X?}", v, p = p) },
    Flags { name: "{:<+w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+w$}", v, w = w) },
    Flags { name: "{:<+w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+w$?}", v, w = w) },
    Flags { name: "{:<+w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+w$x?}", v, w = w) },
    Flags { name: "{:<+w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+w$X?}", v, w = w) },
    Flags { name: "{:<+w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<+w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<+w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<+w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<+0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+0}", v) },
    Flags { name: "{:<+0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+0?}", v) },
    Flags { name: "{:<+0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+0x?}", v) },
    Flags { name: "{:<+0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+0X?}", v) },
    Flags { name: "{:<+0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+0.p$}", v, p = p) },
    Flags { name: "{:<+0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+0.p$?}", v, p = p) },
    Flags { name: "{:<+0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+0.p$x?}", v, p = p) },
    Flags { name: "{:<+0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+0.p$X?}", v, p = p) },
    Flags { name: "{:<+0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+0w$}", v, w = w) },
    Flags { name: "{:<+0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+0w$?}", v, w = w) },
    Flags { name: "{:<+0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+0w$x?}", v, w = w) },
    Flags { name: "{:<+0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+0w$X?}", v, w = w) },
    Flags { name: "{:<+0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<+0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<+0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<+0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<+#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+#}", v) },
    Flags { name: "{:<+#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+#?}", v) },
    Flags { name: "{:<+#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#x?}", v) },
    Flags { name: "{:<+#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#X?}", v) },
    Flags { name: "{:<+#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+#.p$}", v, p = p) },
    Flags { name: "{:<+#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+#.p$?}", v, p = p) },
    Flags { name: "{:<+#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#.p$x?}", v, p = p) },
    Flags { name: "{:<+#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#.p$X?}", v, p = p) },
    Flags { name: "{:<+#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+#w$}", v, w = w) },
    Flags { name: "{:<+#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+#w$?}", v, w = w) },
    Flags { name: "{:<+#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#w$x?}", v, w = w) },
    Flags { name: "{:<+#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#w$X?}", v, w = w) },
    Flags { name: "{:<+#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<+#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<+#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<+#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<+#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+#0}", v) },
    Flags { name: "{:<+#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+#0?}", v) },
    Flags { name: "{:<+#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#0x?}", v) },
    Flags { name: "{:<+#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#0X?}", v) },
    Flags { name: "{:<+#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+#0.p$}", v, p = p) },
    Flags { name: "{:<+#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+#0.p$?}", v, p = p) },
    Flags { name: "{:<+#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#0.p$x?}", v, p = p) },
    Flags { name: "{:<+#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#0.p$X?}", v, p = p) },
    Flags { name: "{:<+#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+#0w$}", v, w = w) },
    Flags { name: "{:<+#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+#0w$?}", v, w = w) },
    Flags { name: "{:<+#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#0w$x?}", v, w = w) },
    Flags { name: "{:<+#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#0w$X?}", v, w = w) },
    Flags { name: "{:<+#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<+#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<+#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<+#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<+#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<+#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<+#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<-}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-}", v) },
    Flags { name: "{:<-?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-?}", v) },
    Flags { name: "{:<-x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-x?}", v) },
    Flags { name: "{:<-X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-X?}", v) },
    Flags { name: "{:<-.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-.p$}", v, p = p) },
    Flags { name: "{:<-.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-.p$?}", v, p = p) },
    Flags { name: "{:<-.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-.p$x?}", v, p = p) },
    Flags { name: "{:<-.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-.p$X?}", v, p = p) },
    Flags { name: "{:<-w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-w$}", v, w = w) },
    Flags { name: "{:<-w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-w$?}", v, w = w) },
    Flags { name: "{:<-w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-w$x?}", v, w = w) },
    Flags { name: "{:<-w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-w$X?}", v, w = w) },
    Flags { name: "{:<-w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<-w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<-w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<-w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<-0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-0}", v) },
    Flags { name: "{:<-0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-0?}", v) },
    Flags { name: "{:<-0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-0x?}", v) },
    Flags { name: "{:<-0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-0X?}", v) },
    Flags { name: "{:<-0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-0.p$}", v, p = p) },
    Flags { name: "{:<-0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-0.p$?}", v, p = p) },
    Flags { name: "{:<-0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-0.p$x?}", v, p = p) },
    Flags { name: "{:<-0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-0.p$X?}", v, p = p) },
    Flags { name: "{:<-0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-0w$}", v, w = w) },
    Flags { name: "{:<-0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-0w$?}", v, w = w) },
    Flags { name: "{:<-0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-0w$x?}", v, w = w) },
    Flags { name: "{:<-0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-0w$X?}", v, w = w) },
    Flags { name: "{:<-0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<-0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<-0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<-0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<-#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-#}", v) },
    Flags { name: "{:<-#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-#?}", v) },
    Flags { name: "{:<-#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#x?}", v) },
    Flags { name: "{:<-#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#X?}", v) },
    Flags { name: "{:<-#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-#.p$}", v, p = p) },
    Flags { name: "{:<-#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-#.p$?}", v, p = p) },
    Flags { name: "{:<-#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#.p$x?}", v, p = p) },
    Flags { name: "{:<-#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#.p$X?}", v, p = p) },
    Flags { name: "{:<-#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-#w$}", v, w = w) },
    Flags { name: "{:<-#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-#w$?}", v, w = w) },
    Flags { name: "{:<-#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#w$x?}", v, w = w) },
    Flags { name: "{:<-#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#w$X?}", v, w = w) },
    Flags { name: "{:<-#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<-#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<-#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<-#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:<-#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-#0}", v) },
    Flags { name: "{:<-#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-#0?}", v) },
    Flags { name: "{:<-#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#0x?}", v) },
    Flags { name: "{:<-#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#0X?}", v) },
    Flags { name: "{:<-#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-#0.p$}", v, p = p) },
    Flags { name: "{:<-#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-#0.p$?}", v, p = p) },
    Flags { name: "{:<-#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#0.p$x?}", v, p = p) },
    Flags { name: "{:<-#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#0.p$X?}", v, p = p) },
    Flags { name: "{:<-#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-#0w$}", v, w = w) },
    Flags { name: "{:<-#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-#0w$?}", v, w = w) },
    Flags { name: "{:<-#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#0w$x?}", v, w = w) },
    Flags { name: "{:<-#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#0w$X?}", v, w = w) },
    Flags { name: "{:<-#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:<-#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:<-#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:<-#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:<-#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:<-#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:<-#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^}", v) },
    Flags { name: "{:^?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^?}", v) },
    Flags { name: "{:^x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^x?}", v) },
    Flags { name: "{:^X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^X?}", v) },
    Flags { name: "{:^.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^.p$}", v, p = p) },
    Flags { name: "{:^.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^.p$?}", v, p = p) },
    Flags { name: "{:^.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^.p$x?}", v, p = p) },
    Flags { name: "{:^.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^.p$X?}", v, p = p) },
    Flags { name: "{:^w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^w$}", v, w = w) },
    Flags { name: "{:^w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^w$?}", v, w = w) },
    Flags { name: "{:^w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^w$x?}", v, w = w) },
    Flags { name: "{:^w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^w$X?}", v, w = w) },
    Flags { name: "{:^w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^0}", v) },
    Flags { name: "{:^0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^0?}", v) },
    Flags { name: "{:^0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^0x?}", v) },
    Flags { name: "{:^0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^0X?}", v) },
    Flags { name: "{:^0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^0.p$}", v, p = p) },
    Flags { name: "{:^0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^0.p$?}", v, p = p) },
    Flags { name: "{:^0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^0.p$x?}", v, p = p) },
    Flags { name: "{:^0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^0.p$X?}", v, p = p) },
    Flags { name: "{:^0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^0w$}", v, w = w) },
    Flags { name: "{:^0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^0w$?}", v, w = w) },
    Flags { name: "{:^0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^0w$x?}", v, w = w) },
    Flags { name: "{:^0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^0w$X?}", v, w = w) },
    Flags { name: "{:^0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^#}", v) },
    Flags { name: "{:^#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^#?}", v) },
    Flags { name: "{:^#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#x?}", v) },
    Flags { name: "{:^#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#X?}", v) },
    Flags { name: "{:^#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^#.p$}", v, p = p) },
    Flags { name: "{:^#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^#.p$?}", v, p = p) },
    Flags { name: "{:^#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#.p$x?}", v, p = p) },
    Flags { name: "{:^#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#.p$X?}", v, p = p) },
    Flags { name: "{:^#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^#w$}", v, w = w) },
    Flags { name: "{:^#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^#w$?}", v, w = w) },
    Flags { name: "{:^#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#w$x?}", v, w = w) },
    Flags { name: "{:^#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#w$X?}", v, w = w) },
    Flags { name: "{:^#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^#0}", v) },
    Flags { name: "{:^#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^#0?}", v) },
    Flags { name: "{:^#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#0x?}", v) },
    Flags { name: "{:^#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#0X?}", v) },
    Flags { name: "{:^#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^#0.p$}", v, p = p) },
    Flags { name: "{:^#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^#0.p$?}", v, p = p) },
    Flags { name: "{:^#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#0.p$x?}", v, p = p) },
    Flags { name: "{:^#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#0.p$X?}", v, p = p) },
    Flags { name: "{:^#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^#0w$}", v, w = w) },
    Flags { name: "{:^#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^#0w$?}", v, w = w) },
    Flags { name: "{:^#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#0w$x?}", v, w = w) },
    Flags { name: "{:^#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#0w$X?}", v, w = w) },
    Flags { name: "{:^#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^+}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+}", v) },
    Flags { name: "{:^+?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+?}", v) },
    Flags { name: "{:^+x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+x?}", v) },
    Flags { name: "{:^+X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+X?}", v) },
    Flags { name: "{:^+.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+.p$}", v, p = p) },
    Flags { name: "{:^+.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+.p$?}", v, p = p) },
    Flags { name: "{:^+.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+.p$x?}", v, p = p) },
    Flags { name: "{:^+.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+.p$X?}", v, p = p) },
    Flags { name: "{:^+w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+w$}", v, w = w) },
    Flags { name: "{:^+w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+w$?}", v, w = w) },
    Flags { name: "{:^+w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+w$x?}", v, w = w) },
    Flags { name: "{:^+w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+w$X?}", v, w = w) },
    Flags { name: "{:^+w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^+w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^+w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^+w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^+0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+0}", v) },
    Flags { name: "{:^+0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+0?}", v) },
    Flags { name: "{:^+0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+0x?}", v) },
    Flags { name: "{:^+0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+0X?}", v) },
    Flags { name: "{:^+0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+0.p$}", v, p = p) },
    Flags { name: "{:^+0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+0.p$?}", v, p = p) },
    Flags { name: "{:^+0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+0.p$x?}", v, p = p) },
    Flags { name: "{:^+0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+0.p$X?}", v, p = p) },
    Flags { name: "{:^+0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+0w$}", v, w = w) },
    Flags { name: "{:^+0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+0w$?}", v, w = w) },
    Flags { name: "{:^+0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+0w$x?}", v, w = w) },
    Flags { name: "{:^+0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+0w$X?}", v, w = w) },
    Flags { name: "{:^+0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^+0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^+0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^+0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^+#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+#}", v) },
    Flags { name: "{:^+#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+#?}", v) },
    Flags { name: "{:^+#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#x?}", v) },
    Flags { name: "{:^+#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#X?}", v) },
    Flags { name: "{:^+#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+#.p$}", v, p = p) },
    Flags { name: "{:^+#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+#.p$?}", v, p = p) },
    Flags { name: "{:^+#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#.p$x?}", v, p = p) },
    Flags { name: "{:^+#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#.p$X?}", v, p = p) },
    Flags { name: "{:^+#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+#w$}", v, w = w) },
    Flags { name: "{:^+#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+#w$?}", v, w = w) },
    Flags { name: "{:^+#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#w$x?}", v, w = w) },
    Flags { name: "{:^+#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#w$X?}", v, w = w) },
    Flags { name: "{:^+#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^+#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^+#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^+#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^+#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+#0}", v) },
    Flags { name: "{:^+#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+#0?}", v) },
    Flags { name: "{:^+#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#0x?}", v) },
    Flags { name: "{:^+#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#0X?}", v) },
    Flags { name: "{:^+#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+#0.p$}", v, p = p) },
    Flags { name: "{:^+#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+#0.p$?}", v, p = p) },
    Flags { name: "{:^+#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#0.p$x?}", v, p = p) },
    Flags { name: "{:^+#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#0.p$X?}", v, p = p) },
    Flags { name: "{:^+#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+#0w$}", v, w = w) },
    Flags { name: "{:^+#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+#0w$?}", v, w = w) },
    Flags { name: "{:^+#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#0w$x?}", v, w = w) },
    Flags { name: "{:^+#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#0w$X?}", v, w = w) },
    Flags { name: "{:^+#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^+#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^+#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^+#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^+#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^+#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^+#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^-}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-}", v) },
    Flags { name: "{:^-?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-?}", v) },
    Flags { name: "{:^-x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-x?}", v) },
    Flags { name: "{:^-X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-X?}", v) },
    Flags { name: "{:^-.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-.p$}", v, p = p) },
    Flags { name: "{:^-.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-.p$?}", v, p = p) },
    Flags { name: "{:^-.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-.p$x?}", v, p = p) },
    Flags { name: "{:^-.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-.p$X?}", v, p = p) },
    Flags { name: "{:^-w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-w$}", v, w = w) },
    Flags { name: "{:^-w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-w$?}", v, w = w) },
    Flags { name: "{:^-w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-w$x?}", v, w = w) },
    Flags { name: "{:^-w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-w$X?}", v, w = w) },
    Flags { name: "{:^-w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^-w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^-w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^-w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^-0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-0}", v) },
    Flags { name: "{:^-0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-0?}", v) },
    Flags { name: "{:^-0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-0x?}", v) },
    Flags { name: "{:^-0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-0X?}", v) },
    Flags { name: "{:^-0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-0.p$}", v, p = p) },
    Flags { name: "{:^-0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-0.p$?}", v, p = p) },
    Flags { name: "{:^-0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-0.p$x?}", v, p = p) },
    Flags { name: "{:^-0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-0.p$X?}", v, p = p) },
    Flags { name: "{:^-0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-0w$}", v, w = w) },
    Flags { name: "{:^-0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-0w$?}", v, w = w) },
    Flags { name: "{:^-0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-0w$x?}", v, w = w) },
    Flags { name: "{:^-0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-0w$X?}", v, w = w) },
    Flags { name: "{:^-0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^-0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^-0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^-0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^-#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-#}", v) },
    Flags { name: "{:^-#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-#?}", v) },
    Flags { name: "{:^-#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#x?}", v) },
    Flags { name: "{:^-#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#X?}", v) },
    Flags { name: "{:^-#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-#.p$}", v, p = p) },
    Flags { name: "{:^-#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-#.p$?}", v, p = p) },
    Flags { name: "{:^-#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#.p$x?}", v, p = p) },
    Flags { name: "{:^-#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#.p$X?}", v, p = p) },
    Flags { name: "{:^-#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-#w$}", v, w = w) },
    Flags { name: "{:^-#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-#w$?}", v, w = w) },
    Flags { name: "{:^-#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#w$x?}", v, w = w) },
    Flags { name: "{:^-#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#w$X?}", v, w = w) },
    Flags { name: "{:^-#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^-#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^-#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^-#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:^-#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-#0}", v) },
    Flags { name: "{:^-#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-#0?}", v) },
    Flags { name: "{:^-#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#0x?}", v) },
    Flags { name: "{:^-#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#0X?}", v) },
    Flags { name: "{:^-#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-#0.p$}", v, p = p) },
    Flags { name: "{:^-#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-#0.p$?}", v, p = p) },
    Flags { name: "{:^-#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#0.p$x?}", v, p = p) },
    Flags { name: "{:^-#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#0.p$X?}", v, p = p) },
    Flags { name: "{:^-#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-#0w$}", v, w = w) },
    Flags { name: "{:^-#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-#0w$?}", v, w = w) },
    Flags { name: "{:^-#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#0w$x?}", v, w = w) },
    Flags { name: "{:^-#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#0w$X?}", v, w = w) },
    Flags { name: "{:^-#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:^-#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:^-#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:^-#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:^-#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:^-#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:^-#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>}", v) },
    Flags { name: "{:>?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>?}", v) },
    Flags { name: "{:>x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>x?}", v) },
    Flags { name: "{:>X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>X?}", v) },
    Flags { name: "{:>.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>.p$}", v, p = p) },
    Flags { name: "{:>.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>.p$?}", v, p = p) },
    Flags { name: "{:>.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>.p$x?}", v, p = p) },
    Flags { name: "{:>.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>.p$X?}", v, p = p) },
    Flags { name: "{:>w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>w$}", v, w = w) },
    Flags { name: "{:>w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>w$?}", v, w = w) },
    Flags { name: "{:>w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>w$x?}", v, w = w) },
    Flags { name: "{:>w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>w$X?}", v, w = w) },
    Flags { name: "{:>w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>0}", v) },
    Flags { name: "{:>0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>0?}", v) },
    Flags { name: "{:>0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>0x?}", v) },
    Flags { name: "{:>0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>0X?}", v) },
    Flags { name: "{:>0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>0.p$}", v, p = p) },
    Flags { name: "{:>0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>0.p$?}", v, p = p) },
    Flags { name: "{:>0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>0.p$x?}", v, p = p) },
    Flags { name: "{:>0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>0.p$X?}", v, p = p) },
    Flags { name: "{:>0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>0w$}", v, w = w) },
    Flags { name: "{:>0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>0w$?}", v, w = w) },
    Flags { name: "{:>0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>0w$x?}", v, w = w) },
    Flags { name: "{:>0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>0w$X?}", v, w = w) },
    Flags { name: "{:>0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>#}", v) },
    Flags { name: "{:>#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>#?}", v) },
    Flags { name: "{:>#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#x?}", v) },
    Flags { name: "{:>#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#X?}", v) },
    Flags { name: "{:>#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>#.p$}", v, p = p) },
    Flags { name: "{:>#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>#.p$?}", v, p = p) },
    Flags { name: "{:>#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#.p$x?}", v, p = p) },
    Flags { name: "{:>#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#.p$X?}", v, p = p) },
    Flags { name: "{:>#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>#w$}", v, w = w) },
    Flags { name: "{:>#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>#w$?}", v, w = w) },
    Flags { name: "{:>#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#w$x?}", v, w = w) },
    Flags { name: "{:>#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#w$X?}", v, w = w) },
    Flags { name: "{:>#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>#0}", v) },
    Flags { name: "{:>#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>#0?}", v) },
    Flags { name: "{:>#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#0x?}", v) },
    Flags { name: "{:>#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#0X?}", v) },
    Flags { name: "{:>#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>#0.p$}", v, p = p) },
    Flags { name: "{:>#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>#0.p$?}", v, p = p) },
    Flags { name: "{:>#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#0.p$x?}", v, p = p) },
    Flags { name: "{:>#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#0.p$X?}", v, p = p) },
    Flags { name: "{:>#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>#0w$}", v, w = w) },
    Flags { name: "{:>#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>#0w$?}", v, w = w) },
    Flags { name: "{:>#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#0w$x?}", v, w = w) },
    Flags { name: "{:>#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#0w$X?}", v, w = w) },
    Flags { name: "{:>#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>+}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+}", v) },
    Flags { name: "{:>+?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+?}", v) },
    Flags { name: "{:>+x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+x?}", v) },
    Flags { name: "{:>+X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+X?}", v) },
    Flags { name: "{:>+.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+.p$}", v, p = p) },
    Flags { name: "{:>+.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+.p$?}", v, p = p) },
    Flags { name: "{:>+.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+.p$x?}", v, p = p) },
    Flags { name: "{:>+.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+.p$X?}", v, p = p) },
    Flags { name: "{:>+w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+w$}", v, w = w) },
    Flags { name: "{:>+w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+w$?}", v, w = w) },
    Flags { name: "{:>+w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+w$x?}", v, w = w) },
    Flags { name: "{:>+w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+w$X?}", v, w = w) },
    Flags { name: "{:>+w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>+w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>+w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>+w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>+0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+0}", v) },
    Flags { name: "{:>+0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+0?}", v) },
    Flags { name: "{:>+0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+0x?}", v) },
    Flags { name: "{:>+0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+0X?}", v) },
    Flags { name: "{:>+0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+0.p$}", v, p = p) },
    Flags { name: "{:>+0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+0.p$?}", v, p = p) },
    Flags { name: "{:>+0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+0.p$x?}", v, p = p) },
    Flags { name: "{:>+0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+0.p$X?}", v, p = p) },
    Flags { name: "{:>+0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+0w$}", v, w = w) },
    Flags { name: "{:>+0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+0w$?}", v, w = w) },
    Flags { name: "{:>+0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+0w$x?}", v, w = w) },
    Flags { name: "{:>+0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+0w$X?}", v, w = w) },
    Flags { name: "{:>+0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>+0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>+0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>+0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>+#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+#}", v) },
    Flags { name: "{:>+#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+#?}", v) },
    Flags { name: "{:>+#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#x?}", v) },
    Flags { name: "{:>+#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#X?}", v) },
    Flags { name: "{:>+#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+#.p$}", v, p = p) },
    Flags { name: "{:>+#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+#.p$?}", v, p = p) },
    Flags { name: "{:>+#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#.p$x?}", v, p = p) },
    Flags { name: "{:>+#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#.p$X?}", v, p = p) },
    Flags { name: "{:>+#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+#w$}", v, w = w) },
    Flags { name: "{:>+#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+#w$?}", v, w = w) },
    Flags { name: "{:>+#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#w$x?}", v, w = w) },
    Flags { name: "{:>+#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#w$X?}", v, w = w) },
    Flags { name: "{:>+#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>+#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>+#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>+#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>+#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+#0}", v) },
    Flags { name: "{:>+#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+#0?}", v) },
    Flags { name: "{:>+#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#0x?}", v) },
    Flags { name: "{:>+#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#0X?}", v) },
    Flags { name: "{:>+#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+#0.p$}", v, p = p) },
    Flags { name: "{:>+#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+#0.p$?}", v, p = p) },
    Flags { name: "{:>+#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#0.p$x?}", v, p = p) },
    Flags { name: "{:>+#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#0.p$X?}", v, p = p) },
    Flags { name: "{:>+#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+#0w$}", v, w = w) },
    Flags { name: "{:>+#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+#0w$?}", v, w = w) },
    Flags { name: "{:>+#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#0w$x?}", v, w = w) },
    Flags { name: "{:>+#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#0w$X?}", v, w = w) },
    Flags { name: "{:>+#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>+#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>+#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>+#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>+#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>+#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>+#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>-}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-}", v) },
    Flags { name: "{:>-?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-?}", v) },
    Flags { name: "{:>-x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-x?}", v) },
    Flags { name: "{:>-X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-X?}", v) },
    Flags { name: "{:>-.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-.p$}", v, p = p) },
    Flags { name: "{:>-.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-.p$?}", v, p = p) },
    Flags { name: "{:>-.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-.p$x?}", v, p = p) },
    Flags { name: "{:>-.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-.p$X?}", v, p = p) },
    Flags { name: "{:>-w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-w$}", v, w = w) },
    Flags { name: "{:>-w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-w$?}", v, w = w) },
    Flags { name: "{:>-w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-w$x?}", v, w = w) },
    Flags { name: "{:>-w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-w$X?}", v, w = w) },
    Flags { name: "{:>-w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>-w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>-w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>-w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>-0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-0}", v) },
    Flags { name: "{:>-0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-0?}", v) },
    Flags { name: "{:>-0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-0x?}", v) },
    Flags { name: "{:>-0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-0X?}", v) },
    Flags { name: "{:>-0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-0.p$}", v, p = p) },
    Flags { name: "{:>-0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-0.p$?}", v, p = p) },
    Flags { name: "{:>-0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-0.p$x?}", v, p = p) },
    Flags { name: "{:>-0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-0.p$X?}", v, p = p) },
    Flags { name: "{:>-0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-0w$}", v, w = w) },
    Flags { name: "{:>-0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-0w$?}", v, w = w) },
    Flags { name: "{:>-0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-0w$x?}", v, w = w) },
    Flags { name: "{:>-0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-0w$X?}", v, w = w) },
    Flags { name: "{:>-0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>-0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>-0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>-0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>-#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-#}", v) },
    Flags { name: "{:>-#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-#?}", v) },
    Flags { name: "{:>-#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#x?}", v) },
    Flags { name: "{:>-#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#X?}", v) },
    Flags { name: "{:>-#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-#.p$}", v, p = p) },
    Flags { name: "{:>-#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-#.p$?}", v, p = p) },
    Flags { name: "{:>-#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#.p$x?}", v, p = p) },
    Flags { name: "{:>-#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#.p$X?}", v, p = p) },
    Flags { name: "{:>-#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-#w$}", v, w = w) },
    Flags { name: "{:>-#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-#w$?}", v, w = w) },
    Flags { name: "{:>-#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#w$x?}", v, w = w) },
    Flags { name: "{:>-#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#w$X?}", v, w = w) },
    Flags { name: "{:>-#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>-#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>-#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>-#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:>-#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-#0}", v) },
    Flags { name: "{:>-#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-#0?}", v) },
    Flags { name: "{:>-#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#0x?}", v) },
    Flags { name: "{:>-#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#0X?}", v) },
    Flags { name: "{:>-#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-#0.p$}", v, p = p) },
    Flags { name: "{:>-#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-#0.p$?}", v, p = p) },
    Flags { name: "{:>-#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#0.p$x?}", v, p = p) },
    Flags { name: "{:>-#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#0.p$X?}", v, p = p) },
    Flags { name: "{:>-#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-#0w$}", v, w = w) },
    Flags { name: "{:>-#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-#0w$?}", v, w = w) },
    Flags { name: "{:>-#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#0w$x?}", v, w = w) },
    Flags { name: "{:>-#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#0w$X?}", v, w = w) },
    Flags { name: "{:>-#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:>-#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:>-#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:>-#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:>-#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:>-#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:>-#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<}", v) },
    Flags { name: "{:*<?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<?}", v) },
    Flags { name: "{:*<x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<x?}", v) },
    Flags { name: "{:*<X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<X?}", v) },
    Flags { name: "{:*<.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<.p$}", v, p = p) },
    Flags { name: "{:*<.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<.p$?}", v, p = p) },
    Flags { name: "{:*<.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<.p$x?}", v, p = p) },
    Flags { name: "{:*<.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<.p$X?}", v, p = p) },
    Flags { name: "{:*<w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<w$}", v, w = w) },
    Flags { name: "{:*<w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<w$?}", v, w = w) },
    Flags { name: "{:*<w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<w$x?}", v, w = w) },
    Flags { name: "{:*<w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<w$X?}", v, w = w) },
    Flags { name: "{:*<w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<0}", v) },
    Flags { name: "{:*<0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<0?}", v) },
    Flags { name: "{:*<0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<0x?}", v) },
    Flags { name: "{:*<0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<0X?}", v) },
    Flags { name: "{:*<0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<0.p$}", v, p = p) },
    Flags { name: "{:*<0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<0.p$?}", v, p = p) },
    Flags { name: "{:*<0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<0.p$x?}", v, p = p) },
    Flags { name: "{:*<0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<0.p$X?}", v, p = p) },
    Flags { name: "{:*<0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<0w$}", v, w = w) },
    Flags { name: "{:*<0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<0w$?}", v, w = w) },
    Flags { name: "{:*<0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<0w$x?}", v, w = w) },
    Flags { name: "{:*<0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<0w$X?}", v, w = w) },
    Flags { name: "{:*<0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<#}", v) },
    Flags { name: "{:*<#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<#?}", v) },
    Flags { name: "{:*<#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#x?}", v) },
    Flags { name: "{:*<#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#X?}", v) },
    Flags { name: "{:*<#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<#.p$}", v, p = p) },
    Flags { name: "{:*<#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<#.p$?}", v, p = p) },
    Flags { name: "{:*<#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#.p$x?}", v, p = p) },
    Flags { name: "{:*<#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#.p$X?}", v, p = p) },
    Flags { name: "{:*<#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<#w$}", v, w = w) },
    Flags { name: "{:*<#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<#w$?}", v, w = w) },
    Flags { name: "{:*<#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#w$x?}", v, w = w) },
    Flags { name: "{:*<#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#w$X?}", v, w = w) },
    Flags { name: "{:*<#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<#0}", v) },
    Flags { name: "{:*<#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<#0?}", v) },
    Flags { name: "{:*<#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#0x?}", v) },
    Flags { name: "{:*<#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#0X?}", v) },
    Flags { name: "{:*<#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<#0.p$}", v, p = p) },
    Flags { name: "{:*<#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<#0.p$?}", v, p = p) },
    Flags { name: "{:*<#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#0.p$x?}", v, p = p) },
    Flags { name: "{:*<#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#0.p$X?}", v, p = p) },
    Flags { name: "{:*<#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<#0w$}", v, w = w) },
    Flags { name: "{:*<#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<#0w$?}", v, w = w) },
    Flags { name: "{:*<#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#0w$x?}", v, w = w) },
    Flags { name: "{:*<#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#0w$X?}", v, w = w) },
    Flags { name: "{:*<#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<+}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+}", v) },
    Flags { name: "{:*<+?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+?}", v) },
    Flags { name: "{:*<+x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+x?}", v) },
    Flags { name: "{:*<+X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+X?}", v) },
    Flags { name: "{:*<+.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+.p$}", v, p = p) },
    Flags { name: "{:*<+.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+.p$?}", v, p = p) },
    Flags { name: "{:*<+.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+.p$x?}", v, p = p) },
    Flags { name: "{:*<+.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+.p$X?}", v, p = p) },
    Flags { name: "{:*<+w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+w$}", v, w = w) },
    Flags { name: "{:*<+w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+w$?}", v, w = w) },
    Flags { name: "{:*<+w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+w$x?}", v, w = w) },
    Flags { name: "{:*<+w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+w$X?}", v, w = w) },
    Flags { name: "{:*<+w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<+w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<+w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<+w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<+0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+0}", v) },
    Flags { name: "{:*<+0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+0?}", v) },
    Flags { name: "{:*<+0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+0x?}", v) },
    Flags { name: "{:*<+0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+0X?}", v) },
    Flags { name: "{:*<+0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+0.p$}", v, p = p) },
    Flags { name: "{:*<+0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+0.p$?}", v, p = p) },
    Flags { name: "{:*<+0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+0.p$x?}", v, p = p) },
    Flags { name: "{:*<+0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+0.p$X?}", v, p = p) },
    Flags { name: "{:*<+0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+0w$}", v, w = w) },
    Flags { name: "{:*<+0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+0w$?}", v, w = w) },
    Flags { name: "{:*<+0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+0w$x?}", v, w = w) },
    Flags { name: "{:*<+0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+0w$X?}", v, w = w) },
    Flags { name: "{:*<+0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<+0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<+0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<+0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<+#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+#}", v) },
    Flags { name: "{:*<+#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+#?}", v) },
    Flags { name: "{:*<+#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#x?}", v) },
    Flags { name: "{:*<+#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#X?}", v) },
    Flags { name: "{:*<+#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+#.p$}", v, p = p) },
    Flags { name: "{:*<+#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+#.p$?}", v, p = p) },
    Flags { name: "{:*<+#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#.p$x?}", v, p = p) },
    Flags { name: "{:*<+#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#.p$X?}", v, p = p) },
    Flags { name: "{:*<+#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+#w$}", v, w = w) },
    Flags { name: "{:*<+#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+#w$?}", v, w = w) },
    Flags { name: "{:*<+#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#w$x?}", v, w = w) },
    Flags { name: "{:*<+#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#w$X?}", v, w = w) },
    Flags { name: "{:*<+#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<+#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<+#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<+#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<+#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+#0}", v) },
    Flags { name: "{:*<+#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+#0?}", v) },
    Flags { name: "{:*<+#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#0x?}", v) },
    Flags { name: "{:*<+#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#0X?}", v) },
    Flags { name: "{:*<+#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+#0.p$}", v, p = p) },
    Flags { name: "{:*<+#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+#0.p$?}", v, p = p) },
    Flags { name: "{:*<+#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#0.p$x?}", v, p = p) },
    Flags { name: "{:*<+#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#0.p$X?}", v, p = p) },
    Flags { name: "{:*<+#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+#0w$}", v, w = w) },
    Flags { name: "{:*<+#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+#0w$?}", v, w = w) },
    Flags { name: "{:*<+#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#0w$x?}", v, w = w) },
    Flags { name: "{:*<+#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#0w$X?}", v, w = w) },
    Flags { name: "{:*<+#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<+#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<+#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<+#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<+#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<+#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<+#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<-}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-}", v) },
    Flags { name: "{:*<-?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-?}", v) },
    Flags { name: "{:*<-x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-x?}", v) },
    Flags { name: "{:*<-X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-X?}", v) },
    Flags { name: "{:*<-.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-.p$}", v, p = p) },
    Flags { name: "{:*<-.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-.p$?}", v, p = p) },
    Flags { name: "{:*<-.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-.p$x?}", v, p = p) },
    Flags { name: "{:*<-.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-.p$X?}", v, p = p) },
    Flags { name: "{:*<-w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-w$}", v, w = w) },
    Flags { name: "{:*<-w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-w$?}", v, w = w) },
    Flags { name: "{:*<-w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-w$x?}", v, w = w) },
    Flags { name: "{:*<-w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-w$X?}", v, w = w) },
    Flags { name: "{:*<-w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<-w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<-w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<-w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<-0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-0}", v) },
    Flags { name: "{:*<-0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-0?}", v) },
    Flags { name: "{:*<-0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-0x?}", v) },
    Flags { name: "{:*<-0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-0X?}", v) },
    Flags { name: "{:*<-0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-0.p$}", v, p = p) },
    Flags { name: "{:*<-0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-0.p$?}", v, p = p) },
    Flags { name: "{:*<-0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-0.p$x?}", v, p = p) },
    Flags { name: "{:*<-0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-0.p$X?}", v, p = p) },
    Flags { name: "{:*<-0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-0w$}", v, w = w) },
    Flags { name: "{:*<-0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-0w$?}", v, w = w) },
    Flags { name: "{:*<-0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-0w$x?}", v, w = w) },
    Flags { name: "{:*<-0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-0w$X?}", v, w = w) },
    Flags { name: "{:*<-0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<-0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<-0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<-0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<-#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-#}", v) },
    Flags { name: "{:*<-#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-#?}", v) },
    Flags { name: "{:*<-#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#x?}", v) },
    Flags { name: "{:*<-#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#X?}", v) },
    Flags { name: "{:*<-#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-#.p$}", v, p = p) },
    Flags { name: "{:*<-#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-#.p$?}", v, p = p) },
    Flags { name: "{:*<-#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#.p$x?}", v, p = p) },
    Flags { name: "{:*<-#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#.p$X?}", v, p = p) },
    Flags { name: "{:*<-#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-#w$}", v, w = w) },
    Flags { name: "{:*<-#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-#w$?}", v, w = w) },
    Flags { name: "{:*<-#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#w$x?}", v, w = w) },
    Flags { name: "{:*<-#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#w$X?}", v, w = w) },
    Flags { name: "{:*<-#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<-#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<-#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<-#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*<-#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-#0}", v) },
    Flags { name: "{:*<-#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-#0?}", v) },
    Flags { name: "{:*<-#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#0x?}", v) },
    Flags { name: "{:*<-#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#0X?}", v) },
    Flags { name: "{:*<-#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-#0.p$}", v, p = p) },
    Flags { name: "{:*<-#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-#0.p$?}", v, p = p) },
    Flags { name: "{:*<-#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#0.p$x?}", v, p = p) },
    Flags { name: "{:*<-#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#0.p$X?}", v, p = p) },
    Flags { name: "{:*<-#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-#0w$}", v, w = w) },
    Flags { name: "{:*<-#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-#0w$?}", v, w = w) },
    Flags { name: "{:*<-#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#0w$x?}", v, w = w) },
    Flags { name: "{:*<-#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#0w$X?}", v, w = w) },
    Flags { name: "{:*<-#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*<-#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*<-#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*<-#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*<-#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*<-#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*<-#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^}", v) },
    Flags { name: "{:é^?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^?}", v) },
    Flags { name: "{:é^x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^x?}", v) },
    Flags { name: "{:é^X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^X?}", v) },
    Flags { name: "{:é^.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^.p$}", v, p = p) },
    Flags { name: "{:é^.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^.p$?}", v, p = p) },
    Flags { name: "{:é^.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^.p$x?}", v, p = p) },
    Flags { name: "{:é^.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^.p$X?}", v, p = p) },
    Flags { name: "{:é^w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^w$}", v, w = w) },
    Flags { name: "{:é^w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^w$?}", v, w = w) },
    Flags { name: "{:é^w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^w$x?}", v, w = w) },
    Flags { name: "{:é^w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^w$X?}", v, w = w) },
    Flags { name: "{:é^w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^0}", v) },
    Flags { name: "{:é^0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^0?}", v) },
    Flags { name: "{:é^0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^0x?}", v) },
    Flags { name: "{:é^0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^0X?}", v) },
    Flags { name: "{:é^0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^0.p$}", v, p = p) },
    Flags { name: "{:é^0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^0.p$?}", v, p = p) },
    Flags { name: "{:é^0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^0.p$x?}", v, p = p) },
    Flags { name: "{:é^0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^0.p$X?}", v, p = p) },
    Flags { name: "{:é^0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^0w$}", v, w = w) },
    Flags { name: "{:é^0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^0w$?}", v, w = w) },
    Flags { name: "{:é^0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^0w$x?}", v, w = w) },
    Flags { name: "{:é^0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^0w$X?}", v, w = w) },
    Flags { name: "{:é^0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^#}", v) },
    Flags { name: "{:é^#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^#?}", v) },
    Flags { name: "{:é^#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#x?}", v) },
    Flags { name: "{:é^#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#X?}", v) },
    Flags { name: "{:é^#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^#.p$}", v, p = p) },
    Flags { name: "{:é^#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^#.p$?}", v, p = p) },
    Flags { name: "{:é^#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#.p$x?}", v, p = p) },
    Flags { name: "{:é^#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#.p$X?}", v, p = p) },
    Flags { name: "{:é^#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^#w$}", v, w = w) },
    Flags { name: "{:é^#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^#w$?}", v, w = w) },
    Flags { name: "{:é^#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#w$x?}", v, w = w) },
    Flags { name: "{:é^#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#w$X?}", v, w = w) },
    Flags { name: "{:é^#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^#0}", v) },
    Flags { name: "{:é^#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^#0?}", v) },
    Flags { name: "{:é^#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#0x?}", v) },
    Flags { name: "{:é^#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#0X?}", v) },
    Flags { name: "{:é^#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^#0.p$}", v, p = p) },
    Flags { name: "{:é^#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^#0.p$?}", v, p = p) },
    Flags { name: "{:é^#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#0.p$x?}", v, p = p) },
    Flags { name: "{:é^#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#0.p$X?}", v, p = p) },
    Flags { name: "{:é^#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^#0w$}", v, w = w) },
    Flags { name: "{:é^#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^#0w$?}", v, w = w) },
    Flags { name: "{:é^#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#0w$x?}", v, w = w) },
    Flags { name: "{:é^#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#0w$X?}", v, w = w) },
    Flags { name: "{:é^#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^+}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+}", v) },
    Flags { name: "{:é^+?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+?}", v) },
    Flags { name: "{:é^+x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+x?}", v) },
    Flags { name: "{:é^+X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+X?}", v) },
    Flags { name: "{:é^+.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+.p$}", v, p = p) },
    Flags { name: "{:é^+.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+.p$?}", v, p = p) },
    Flags { name: "{:é^+.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+.p$x?}", v, p = p) },
    Flags { name: "{:é^+.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+.p$X?}", v, p = p) },
    Flags { name: "{:é^+w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+w$}", v, w = w) },
    Flags { name: "{:é^+w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+w$?}", v, w = w) },
    Flags { name: "{:é^+w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+w$x?}", v, w = w) },
    Flags { name: "{:é^+w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+w$X?}", v, w = w) },
    Flags { name: "{:é^+w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^+w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^+w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^+w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^+0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+0}", v) },
    Flags { name: "{:é^+0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+0?}", v) },
    Flags { name: "{:é^+0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+0x?}", v) },
    Flags { name: "{:é^+0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+0X?}", v) },
    Flags { name: "{:é^+0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+0.p$}", v, p = p) },
    Flags { name: "{:é^+0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+0.p$?}", v, p = p) },
    Flags { name: "{:é^+0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+0.p$x?}", v, p = p) },
    Flags { name: "{:é^+0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+0.p$X?}", v, p = p) },
    Flags { name: "{:é^+0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+0w$}", v, w = w) },
    Flags { name: "{:é^+0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+0w$?}", v, w = w) },
    Flags { name: "{:é^+0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+0w$x?}", v, w = w) },
    Flags { name: "{:é^+0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+0w$X?}", v, w = w) },
    Flags { name: "{:é^+0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^+0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^+0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^+0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^+#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+#}", v) },
    Flags { name: "{:é^+#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+#?}", v) },
    Flags { name: "{:é^+#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#x?}", v) },
    Flags { name: "{:é^+#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#X?}", v) },
    Flags { name: "{:é^+#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+#.p$}", v, p = p) },
    Flags { name: "{:é^+#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+#.p$?}", v, p = p) },
    Flags { name: "{:é^+#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#.p$x?}", v, p = p) },
    Flags { name: "{:é^+#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#.p$X?}", v, p = p) },
    Flags { name: "{:é^+#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+#w$}", v, w = w) },
    Flags { name: "{:é^+#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+#w$?}", v, w = w) },
    Flags { name: "{:é^+#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#w$x?}", v, w = w) },
    Flags { name: "{:é^+#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#w$X?}", v, w = w) },
    Flags { name: "{:é^+#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^+#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^+#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^+#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^+#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+#0}", v) },
    Flags { name: "{:é^+#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+#0?}", v) },
    Flags { name: "{:é^+#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#0x?}", v) },
    Flags { name: "{:é^+#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#0X?}", v) },
    Flags { name: "{:é^+#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+#0.p$}", v, p = p) },
    Flags { name: "{:é^+#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+#0.p$?}", v, p = p) },
    Flags { name: "{:é^+#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#0.p$x?}", v, p = p) },
    Flags { name: "{:é^+#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#0.p$X?}", v, p = p) },
    Flags { name: "{:é^+#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+#0w$}", v, w = w) },
    Flags { name: "{:é^+#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+#0w$?}", v, w = w) },
    Flags { name: "{:é^+#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#0w$x?}", v, w = w) },
    Flags { name: "{:é^+#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#0w$X?}", v, w = w) },
    Flags { name: "{:é^+#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^+#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^+#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^+#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^+#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^+#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^+#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^-}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-}", v) },
    Flags { name: "{:é^-?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-?}", v) },
    Flags { name: "{:é^-x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-x?}", v) },
    Flags { name: "{:é^-X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-X?}", v) },
    Flags { name: "{:é^-.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-.p$}", v, p = p) },
    Flags { name: "{:é^-.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-.p$?}", v, p = p) },
    Flags { name: "{:é^-.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-.p$x?}", v, p = p) },
    Flags { name: "{:é^-.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-.p$X?}", v, p = p) },
    Flags { name: "{:é^-w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-w$}", v, w = w) },
    Flags { name: "{:é^-w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-w$?}", v, w = w) },
    Flags { name: "{:é^-w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-w$x?}", v, w = w) },
    Flags { name: "{:é^-w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-w$X?}", v, w = w) },
    Flags { name: "{:é^-w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^-w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^-w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^-w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^-0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-0}", v) },
    Flags { name: "{:é^-0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-0?}", v) },
    Flags { name: "{:é^-0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-0x?}", v) },
    Flags { name: "{:é^-0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-0X?}", v) },
    Flags { name: "{:é^-0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-0.p$}", v, p = p) },
    Flags { name: "{:é^-0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-0.p$?}", v, p = p) },
    Flags { name: "{:é^-0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-0.p$x?}", v, p = p) },
    Flags { name: "{:é^-0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-0.p$X?}", v, p = p) },
    Flags { name: "{:é^-0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-0w$}", v, w = w) },
    Flags { name: "{:é^-0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-0w$?}", v, w = w) },
    Flags { name: "{:é^-0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-0w$x?}", v, w = w) },
    Flags { name: "{:é^-0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-0w$X?}", v, w = w) },
    Flags { name: "{:é^-0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^-0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^-0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^-0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^-#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-#}", v) },
    Flags { name: "{:é^-#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-#?}", v) },
    Flags { name: "{:é^-#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#x?}", v) },
    Flags { name: "{:é^-#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#X?}", v) },
    Flags { name: "{:é^-#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-#.p$}", v, p = p) },
    Flags { name: "{:é^-#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-#.p$?}", v, p = p) },
    Flags { name: "{:é^-#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#.p$x?}", v, p = p) },
    Flags { name: "{:é^-#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#.p$X?}", v, p = p) },
    Flags { name: "{:é^-#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-#w$}", v, w = w) },
    Flags { name: "{:é^-#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-#w$?}", v, w = w) },
    Flags { name: "{:é^-#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#w$x?}", v, w = w) },
    Flags { name: "{:é^-#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#w$X?}", v, w = w) },
    Flags { name: "{:é^-#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^-#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^-#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^-#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:é^-#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-#0}", v) },
    Flags { name: "{:é^-#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-#0?}", v) },
    Flags { name: "{:é^-#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#0x?}", v) },
    Flags { name: "{:é^-#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#0X?}", v) },
    Flags { name: "{:é^-#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-#0.p$}", v, p = p) },
    Flags { name: "{:é^-#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-#0.p$?}", v, p = p) },
    Flags { name: "{:é^-#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#0.p$x?}", v, p = p) },
    Flags { name: "{:é^-#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#0.p$X?}", v, p = p) },
    Flags { name: "{:é^-#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-#0w$}", v, w = w) },
    Flags { name: "{:é^-#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-#0w$?}", v, w = w) },
    Flags { name: "{:é^-#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#0w$x?}", v, w = w) },
    Flags { name: "{:é^-#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#0w$X?}", v, w = w) },
    Flags { name: "{:é^-#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:é^-#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:é^-#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:é^-#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:é^-#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:é^-#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:é^-#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>}", v) },
    Flags { name: "{:*>?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>?}", v) },
    Flags { name: "{:*>x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>x?}", v) },
    Flags { name: "{:*>X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>X?}", v) },
    Flags { name: "{:*>.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>.p$}", v, p = p) },
    Flags { name: "{:*>.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>.p$?}", v, p = p) },
    Flags { name: "{:*>.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>.p$x?}", v, p = p) },
    Flags { name: "{:*>.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>.p$X?}", v, p = p) },
    Flags { name: "{:*>w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>w$}", v, w = w) },
    Flags { name: "{:*>w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>w$?}", v, w = w) },
    Flags { name: "{:*>w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>w$x?}", v, w = w) },
    Flags { name: "{:*>w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>w$X?}", v, w = w) },
    Flags { name: "{:*>w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>0}", v) },
    Flags { name: "{:*>0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>0?}", v) },
    Flags { name: "{:*>0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>0x?}", v) },
    Flags { name: "{:*>0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>0X?}", v) },
    Flags { name: "{:*>0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>0.p$}", v, p = p) },
    Flags { name: "{:*>0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>0.p$?}", v, p = p) },
    Flags { name: "{:*>0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>0.p$x?}", v, p = p) },
    Flags { name: "{:*>0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>0.p$X?}", v, p = p) },
    Flags { name: "{:*>0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>0w$}", v, w = w) },
    Flags { name: "{:*>0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>0w$?}", v, w = w) },
    Flags { name: "{:*>0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>0w$x?}", v, w = w) },
    Flags { name: "{:*>0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>0w$X?}", v, w = w) },
    Flags { name: "{:*>0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>#}", v) },
    Flags { name: "{:*>#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>#?}", v) },
    Flags { name: "{:*>#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#x?}", v) },
    Flags { name: "{:*>#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#X?}", v) },
    Flags { name: "{:*>#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>#.p$}", v, p = p) },
    Flags { name: "{:*>#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>#.p$?}", v, p = p) },
    Flags { name: "{:*>#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#.p$x?}", v, p = p) },
    Flags { name: "{:*>#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#.p$X?}", v, p = p) },
    Flags { name: "{:*>#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>#w$}", v, w = w) },
    Flags { name: "{:*>#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>#w$?}", v, w = w) },
    Flags { name: "{:*>#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#w$x?}", v, w = w) },
    Flags { name: "{:*>#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#w$X?}", v, w = w) },
    Flags { name: "{:*>#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>#0}", v) },
    Flags { name: "{:*>#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>#0?}", v) },
    Flags { name: "{:*>#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#0x?}", v) },
    Flags { name: "{:*>#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#0X?}", v) },
    Flags { name: "{:*>#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>#0.p$}", v, p = p) },
    Flags { name: "{:*>#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>#0.p$?}", v, p = p) },
    Flags { name: "{:*>#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#0.p$x?}", v, p = p) },
    Flags { name: "{:*>#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#0.p$X?}", v, p = p) },
    Flags { name: "{:*>#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>#0w$}", v, w = w) },
    Flags { name: "{:*>#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>#0w$?}", v, w = w) },
    Flags { name: "{:*>#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#0w$x?}", v, w = w) },
    Flags { name: "{:*>#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#0w$X?}", v, w = w) },
    Flags { name: "{:*>#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>+}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+}", v) },
    Flags { name: "{:*>+?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+?}", v) },
    Flags { name: "{:*>+x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+x?}", v) },
    Flags { name: "{:*>+X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+X?}", v) },
    Flags { name: "{:*>+.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+.p$}", v, p = p) },
    Flags { name: "{:*>+.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+.p$?}", v, p = p) },
    Flags { name: "{:*>+.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+.p$x?}", v, p = p) },
    Flags { name: "{:*>+.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+.p$X?}", v, p = p) },
    Flags { name: "{:*>+w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+w$}", v, w = w) },
    Flags { name: "{:*>+w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+w$?}", v, w = w) },
    Flags { name: "{:*>+w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+w$x?}", v, w = w) },
    Flags { name: "{:*>+w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+w$X?}", v, w = w) },
    Flags { name: "{:*>+w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>+w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>+w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>+w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>+0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+0}", v) },
    Flags { name: "{:*>+0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+0?}", v) },
    Flags { name: "{:*>+0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+0x?}", v) },
    Flags { name: "{:*>+0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+0X?}", v) },
    Flags { name: "{:*>+0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+0.p$}", v, p = p) },
    Flags { name: "{:*>+0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+0.p$?}", v, p = p) },
    Flags { name: "{:*>+0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+0.p$x?}", v, p = p) },
    Flags { name: "{:*>+0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+0.p$X?}", v, p = p) },
    Flags { name: "{:*>+0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+0w$}", v, w = w) },
    Flags { name: "{:*>+0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+0w$?}", v, w = w) },
    Flags { name: "{:*>+0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+0w$x?}", v, w = w) },
    Flags { name: "{:*>+0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+0w$X?}", v, w = w) },
    Flags { name: "{:*>+0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>+0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>+0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>+0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>+#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+#}", v) },
    Flags { name: "{:*>+#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+#?}", v) },
    Flags { name: "{:*>+#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#x?}", v) },
    Flags { name: "{:*>+#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#X?}", v) },
    Flags { name: "{:*>+#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+#.p$}", v, p = p) },
    Flags { name: "{:*>+#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+#.p$?}", v, p = p) },
    Flags { name: "{:*>+#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#.p$x?}", v, p = p) },
    Flags { name: "{:*>+#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#.p$X?}", v, p = p) },
    Flags { name: "{:*>+#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+#w$}", v, w = w) },
    Flags { name: "{:*>+#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+#w$?}", v, w = w) },
    Flags { name: "{:*>+#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#w$x?}", v, w = w) },
    Flags { name: "{:*>+#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#w$X?}", v, w = w) },
    Flags { name: "{:*>+#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>+#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>+#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>+#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>+#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+#0}", v) },
    Flags { name: "{:*>+#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+#0?}", v) },
    Flags { name: "{:*>+#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#0x?}", v) },
    Flags { name: "{:*>+#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#0X?}", v) },
    Flags { name: "{:*>+#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+#0.p$}", v, p = p) },
    Flags { name: "{:*>+#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+#0.p$?}", v, p = p) },
    Flags { name: "{:*>+#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#0.p$x?}", v, p = p) },
    Flags { name: "{:*>+#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#0.p$X?}", v, p = p) },
    Flags { name: "{:*>+#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+#0w$}", v, w = w) },
    Flags { name: "{:*>+#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+#0w$?}", v, w = w) },
    Flags { name: "{:*>+#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#0w$x?}", v, w = w) },
    Flags { name: "{:*>+#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#0w$X?}", v, w = w) },
    Flags { name: "{:*>+#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>+#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>+#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>+#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>+#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>+#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>+#0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>-}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-}", v) },
    Flags { name: "{:*>-?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-?}", v) },
    Flags { name: "{:*>-x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-x?}", v) },
    Flags { name: "{:*>-X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-X?}", v) },
    Flags { name: "{:*>-.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-.p$}", v, p = p) },
    Flags { name: "{:*>-.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-.p$?}", v, p = p) },
    Flags { name: "{:*>-.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-.p$x?}", v, p = p) },
    Flags { name: "{:*>-.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-.p$X?}", v, p = p) },
    Flags { name: "{:*>-w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-w$}", v, w = w) },
    Flags { name: "{:*>-w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-w$?}", v, w = w) },
    Flags { name: "{:*>-w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-w$x?}", v, w = w) },
    Flags { name: "{:*>-w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-w$X?}", v, w = w) },
    Flags { name: "{:*>-w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>-w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>-w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>-w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>-0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-0}", v) },
    Flags { name: "{:*>-0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-0?}", v) },
    Flags { name: "{:*>-0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-0x?}", v) },
    Flags { name: "{:*>-0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-0X?}", v) },
    Flags { name: "{:*>-0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-0.p$}", v, p = p) },
    Flags { name: "{:*>-0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-0.p$?}", v, p = p) },
    Flags { name: "{:*>-0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-0.p$x?}", v, p = p) },
    Flags { name: "{:*>-0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-0.p$X?}", v, p = p) },
    Flags { name: "{:*>-0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-0w$}", v, w = w) },
    Flags { name: "{:*>-0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-0w$?}", v, w = w) },
    Flags { name: "{:*>-0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-0w$x?}", v, w = w) },
    Flags { name: "{:*>-0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-0w$X?}", v, w = w) },
    Flags { name: "{:*>-0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>-0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>-0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>-0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-0w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>-#}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-#}", v) },
    Flags { name: "{:*>-#?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-#?}", v) },
    Flags { name: "{:*>-#x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#x?}", v) },
    Flags { name: "{:*>-#X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#X?}", v) },
    Flags { name: "{:*>-#.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-#.p$}", v, p = p) },
    Flags { name: "{:*>-#.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-#.p$?}", v, p = p) },
    Flags { name: "{:*>-#.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#.p$x?}", v, p = p) },
    Flags { name: "{:*>-#.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#.p$X?}", v, p = p) },
    Flags { name: "{:*>-#w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-#w$}", v, w = w) },
    Flags { name: "{:*>-#w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-#w$?}", v, w = w) },
    Flags { name: "{:*>-#w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#w$x?}", v, w = w) },
    Flags { name: "{:*>-#w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#w$X?}", v, w = w) },
    Flags { name: "{:*>-#w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-#w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>-#w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-#w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>-#w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>-#w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#w$.p$X?}", v, w = w, p = p) },
    Flags { name: "{:*>-#0}", width: false, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-#0}", v) },
    Flags { name: "{:*>-#0?}", width: false, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-#0?}", v) },
    Flags { name: "{:*>-#0x?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#0x?}", v) },
    Flags { name: "{:*>-#0X?}", width: false, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#0X?}", v) },
    Flags { name: "{:*>-#0.p$}", width: false, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-#0.p$}", v, p = p) },
    Flags { name: "{:*>-#0.p$?}", width: false, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-#0.p$?}", v, p = p) },
    Flags { name: "{:*>-#0.p$x?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#0.p$x?}", v, p = p) },
    Flags { name: "{:*>-#0.p$X?}", width: false, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#0.p$X?}", v, p = p) },
    Flags { name: "{:*>-#0w$}", width: true, prec: false, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-#0w$}", v, w = w) },
    Flags { name: "{:*>-#0w$?}", width: true, prec: false, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-#0w$?}", v, w = w) },
    Flags { name: "{:*>-#0w$x?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#0w$x?}", v, w = w) },
    Flags { name: "{:*>-#0w$X?}", width: true, prec: false, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#0w$X?}", v, w = w) },
    Flags { name: "{:*>-#0w$.p$}", width: true, prec: true, debug: false, hex: false, f: |out, v, w, p| write!(out, "{:*>-#0w$.p$}", v, w = w, p = p) },
    Flags { name: "{:*>-#0w$.p$?}", width: true, prec: true, debug: true, hex: false, f: |out, v, w, p| write!(out, "{:*>-#0w$.p$?}", v, w = w, p = p) },
    Flags { name: "{:*>-#0w$.p$x?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#0w$.p$x?}", v, w = w, p = p) },
    Flags { name: "{:*>-#0w$.p$X?}", width: true, prec: true, debug: true, hex: true, f: |out, v, w, p| write!(out, "{:*>-#0w$.p$X?}", v, w = w, p = p) },
];
