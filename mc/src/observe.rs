//! Every way of looking at a bag, each giving a string.

use crate::record::FmtRec;
use std::fmt::Write as _;
use value_bag::{visit::Visit, Error, ValueBag};

/// How an observation relates to representation details that may differ.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    /// What the value is: never differs
    Value,
    /// How the value is passed on: integers get wider and text changes hands by buffering
    Repr,
    /// Formatting with flags, which buffered text doesn't have
    Flags,
    /// Debug formatting, which buffered errors don't keep
    Debug,
    /// Serialization for machines, which buffered `serde` values don't keep
    Compact,
    /// Depends on the lifetime of what's behind the bag
    Borrow,
    /// About the representation itself
    Meta,
}

pub struct Observer {
    pub name: &'static str,
    pub class: Class,
    pub f: for<'a, 'b> fn(&'a ValueBag<'b>) -> String,
}

fn fmt_into(bag: &ValueBag, f: impl FnOnce(&mut FmtRec, &ValueBag) -> std::fmt::Result) -> String {
    let mut w = FmtRec::default();
    match f(&mut w, bag) {
        Ok(()) => w.out.concat(),
        Err(_) => format!("<<err after {:?}>>", w.out.concat()),
    }
}

/// Records which method of a visitor is called, with what.
#[derive(Default)]
pub struct VisitRec {
    pub calls: Vec<String>,
    pub fail: bool,
}

impl VisitRec {
    fn call(&mut self, s: String) -> Result<(), Error> {
        self.calls.push(s);
        if self.fail {
            Err(Error::msg("visitor failed"))
        } else {
            Ok(())
        }
    }
}

impl<'v> Visit<'v> for VisitRec {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        let s = fmt_into(&v, |w, v| write!(w, "{v}"));
        self.call(format!("any({s})"))
    }
    fn visit_empty(&mut self) -> Result<(), Error> {
        self.call("empty".into())
    }
    fn visit_u64(&mut self, v: u64) -> Result<(), Error> {
        self.call(format!("u64({v})"))
    }
    fn visit_i64(&mut self, v: i64) -> Result<(), Error> {
        self.call(format!("i64({v})"))
    }
    fn visit_u128(&mut self, v: u128) -> Result<(), Error> {
        self.call(format!("u128({v})"))
    }
    fn visit_i128(&mut self, v: i128) -> Result<(), Error> {
        self.call(format!("i128({v})"))
    }
    fn visit_f64(&mut self, v: f64) -> Result<(), Error> {
        self.call(format!("f64({:x})", v.to_bits()))
    }
    fn visit_bool(&mut self, v: bool) -> Result<(), Error> {
        self.call(format!("bool({v})"))
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.call(format!("str({v:?})"))
    }
    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
        self.call(format!("borrowed_str({v:?})"))
    }
    fn visit_char(&mut self, v: char) -> Result<(), Error> {
        self.call(format!("char({v:?})"))
    }
    #[cfg(feature = "error")]
    fn visit_error(&mut self, e: &(dyn std::error::Error + 'static)) -> Result<(), Error> {
        let c = chain(e);
        self.call(format!("error({c:?})"))
    }
    #[cfg(feature = "error")]
    fn visit_borrowed_error(&mut self, e: &'v (dyn std::error::Error + 'static)) -> Result<(), Error> {
        let c = chain(e);
        self.call(format!("borrowed_error({c:?})"))
    }
}

/// The messages of an error and its causes.
pub fn chain(e: &(dyn std::error::Error + 'static)) -> Vec<String> {
    let mut out = Vec::new();
    let mut next = Some(e);
    while let Some(e) = next {
        let mut s = String::new();
        if write!(&mut s, "{e}").is_err() {
            s = "<<err>>".into();
        }
        out.push(s);
        next = e.source();
        if out.len() > 5000 {
            break;
        }
    }
    out
}

pub fn visited(bag: &ValueBag) -> String {
    let mut v = VisitRec::default();
    let r = bag.visit(&mut v).map_err(|e| e.to_string());
    format!("{:?} {r:?}", v.calls)
}

/// What was visited, regardless of integer width and lifetimes.
pub fn visited_wide(bag: &ValueBag) -> String {
    visited(bag)
        .replace("\"u64(", "\"uint(")
        .replace("\"u128(", "\"uint(")
        .replace("\"i64(", "\"int(")
        .replace("\"i128(", "\"int(")
        .replace("\"borrowed_str(", "\"str(")
        .replace("\"borrowed_error(", "\"error(")
}

fn bits(v: f64) -> String {
    if v.is_nan() {
        "nan".into()
    } else {
        format!("{:x}", v.to_bits())
    }
}

macro_rules! obs {
    ($($(#[$m:meta])* $name:literal $class:ident $f:expr;)*) => {
        /// All observers of this configuration.
        pub const OBSERVERS: &[Observer] = &[
            $($(#[$m])* Observer { name: $name, class: Class::$class, f: $f },)*
        ];
    };
}

macro_rules! try_from {
    ($t:ty) => {
        |b| format!("{:?}", <$t>::try_from(b.clone()).ok())
    };
}

obs! {
    "to_u64" Value |b| format!("{:?}", b.to_u64());
    "to_i64" Value |b| format!("{:?}", b.to_i64());
    "to_u128" Value |b| format!("{:?}", b.to_u128());
    "to_i128" Value |b| format!("{:?}", b.to_i128());
    "to_f64" Value |b| format!("{:?}", b.to_f64().map(bits));
    "as_f64" Value |b| bits(b.as_f64());
    "to_bool" Value |b| format!("{:?}", b.to_bool());
    "to_char" Value |b| format!("{:?}", b.to_char());
    #[cfg(feature = "alloc")]
    "to_str" Value |b| format!("{:?}", b.to_str());
    "to_borrowed_str" Borrow |b| format!("{:?}", b.to_borrowed_str());
    "try_u8" Value try_from!(u8);
    "try_u16" Value try_from!(u16);
    "try_u32" Value try_from!(u32);
    "try_u64" Value try_from!(u64);
    "try_usize" Value try_from!(usize);
    "try_u128" Value try_from!(u128);
    "try_i8" Value try_from!(i8);
    "try_i16" Value try_from!(i16);
    "try_i32" Value try_from!(i32);
    "try_i64" Value try_from!(i64);
    "try_isize" Value try_from!(isize);
    "try_i128" Value try_from!(i128);
    "try_f64" Value |b| format!("{:?}", f64::try_from(b.clone()).ok().map(bits));
    "try_bool" Value try_from!(bool);
    "try_char" Value try_from!(char);
    #[cfg(feature = "alloc")]
    "try_string" Value try_from!(String);
    #[cfg(feature = "alloc")]
    "try_cow" Value |b| format!("{:?}", std::borrow::Cow::<str>::try_from(b.clone()).ok());
    "try_str" Borrow |b| format!("{:?}", <&str>::try_from(b.clone()).ok());
    "display" Value |b| fmt_into(b, |w, b| write!(w, "{b}"));
    "debug" Debug |b| fmt_into(b, |w, b| write!(w, "{b:?}"));
    "debug_alt" Flags |b| fmt_into(b, |w, b| write!(w, "{b:#?}"));
    "display_flags" Flags |b| fmt_into(b, |w, b| write!(w, "{b:*>+#12.3}"));
    "debug_flags" Flags |b| fmt_into(b, |w, b| write!(w, "{b:<08.1?}"));
    "visit" Repr visited;
    "visit_wide" Value visited_wide;
    #[cfg(feature = "serde1")]
    "serde" Repr |b| format!("{:?}", crate::record::ser::tokens(b, true));
    #[cfg(feature = "serde1")]
    "serde_compact" Compact |b| format!("{:?}", crate::record::ser::tokens(b, false));
    #[cfg(feature = "serde1")]
    "serde_doc" Value |b| format!("{:?}", crate::record::ser::doc(b).map_err(|_| ()));
    #[cfg(feature = "sval2")]
    "sval" Repr |b| format!("{:?}", crate::record::sv::tokens(b));
    #[cfg(feature = "sval2")]
    "sval_ref" Borrow |b| format!("{:?}", sval_ref_tokens(b));
    #[cfg(feature = "sval2")]
    "sval_merged" Repr |b| format!("{:?}", crate::record::sv::merged(b));
    #[cfg(feature = "sval2")]
    "sval_doc" Value |b| format!("{:?}", crate::record::sv::doc(b).map_err(|_| ()));
    #[cfg(feature = "seq")]
    "u64_seq" Value |b| format!("{:?}", b.to_u64_seq::<Vec<_>>());
    #[cfg(feature = "seq")]
    "i64_seq" Value |b| format!("{:?}", b.to_i64_seq::<Vec<_>>());
    #[cfg(feature = "seq")]
    "u128_seq" Value |b| format!("{:?}", b.to_u128_seq::<Vec<_>>());
    #[cfg(feature = "seq")]
    "i128_seq" Value |b| format!("{:?}", b.to_i128_seq::<Vec<_>>());
    #[cfg(feature = "seq")]
    "f64_seq" Value |b| format!("{:?}", b.to_f64_seq::<Vec<_>>().map(|v| v.into_iter().map(|v| v.map(bits)).collect::<Vec<_>>()));
    #[cfg(feature = "seq")]
    "as_f64_seq" Value |b| format!("{:?}", b.as_f64_seq::<Vec<_>>().into_iter().map(bits).collect::<Vec<_>>());
    #[cfg(feature = "seq")]
    "bool_seq" Value |b| format!("{:?}", b.to_bool_seq::<Vec<_>>());
    #[cfg(feature = "seq")]
    "char_seq" Value |b| format!("{:?}", b.to_char_seq::<Vec<_>>());
    #[cfg(all(feature = "seq", feature = "alloc"))]
    "str_seq" Value |b| format!("{:?}", b.to_str_seq::<Vec<_>>());
    #[cfg(feature = "seq")]
    "borrowed_str_seq" Borrow |b| format!("{:?}", b.to_borrowed_str_seq::<Vec<_>>());
    #[cfg(feature = "error")]
    "borrowed_error" Borrow |b| format!("{:?}", b.to_borrowed_error().map(chain));
    #[cfg(feature = "test")]
    "test_token" Meta |b| format!("{:?}", b.to_test_token());
    "is_empty" Meta |b| format!("{:?}", b.is_empty());
}

#[cfg(feature = "sval2")]
fn sval_ref_tokens(b: &ValueBag) -> Result<Vec<String>, ()> {
    let mut rec = crate::record::sv::SvalRec::default();
    sval_ref::stream_ref(&mut rec, b).map_err(|_| ())?;
    Ok(rec.toks)
}

/// Everything there is to see of a bag.
pub fn all(bag: &ValueBag) -> Vec<String> {
    OBSERVERS.iter().map(|o| (o.f)(bag)).collect()
}

/// An observer by its name.
pub fn by_name(name: &str) -> Option<&'static Observer> {
    OBSERVERS.iter().find(|o| o.name == name)
}
