//! Recipes for bags, with a reference model of what each of them has to say.

use crate::{
    record::Doc,
    tree::{fire, Cast, Tree},
};
use std::{error::Error as StdError, fmt};
use value_bag::{
    fill::{Fill, Slot},
    Error, ValueBag,
};

#[cfg(feature = "owned")]
use value_bag::OwnedValueBag;

/// A value that formats itself in the given writes.
#[derive(Clone, PartialEq)]
pub struct Txt {
    pub chunks: Vec<String>,
    /// Show which trait and flags were used
    pub marked: bool,
    /// Fail after writing
    pub fail: bool,
    pub hook: Option<u32>,
}

impl Txt {
    pub fn new(s: &str) -> Self {
        Txt {
            chunks: vec![s.to_owned()],
            marked: true,
            fail: false,
            hook: None,
        }
    }

    pub fn raw<S: Into<String>>(chunks: impl IntoIterator<Item = S>) -> Self {
        Txt {
            chunks: chunks.into_iter().map(Into::into).collect(),
            marked: false,
            fail: false,
            hook: None,
        }
    }

    pub fn failing(s: &str) -> Self {
        Txt {
            fail: true,
            ..Txt::new(s)
        }
    }

    fn write(&self, which: &str, f: &mut fmt::Formatter) -> fmt::Result {
        if let Some(id) = self.hook {
            fire(id)
        }
        if self.marked {
            f.write_str(which)?;
            if f.alternate() {
                f.write_str("#")?;
            }
            if f.sign_plus() {
                f.write_str("+")?;
            }
            if f.sign_minus() {
                f.write_str("-")?;
            }
            if f.sign_aware_zero_pad() {
                f.write_str("0")?;
            }
            if let Some(a) = f.align() {
                f.write_str(match a {
                    fmt::Alignment::Left => "<",
                    fmt::Alignment::Center => "^",
                    fmt::Alignment::Right => ">",
                })?;
            }
            if f.fill() != ' ' {
                write!(f, "f{}", f.fill())?;
            }
            if let Some(w) = f.width() {
                write!(f, "w{w}")?;
            }
            if let Some(p) = f.precision() {
                write!(f, "p{p}")?;
            }
            f.write_str(":")?;
        }
        for c in &self.chunks {
            f.write_str(c)?;
        }
        if let Some(id) = self.hook {
            fire(id)
        }
        if self.fail {
            return Err(fmt::Error);
        }
        Ok(())
    }
}

impl fmt::Debug for Txt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write("D", f)
    }
}

impl fmt::Display for Txt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write("P", f)
    }
}

/// An error with a chain of causes.
#[derive(Clone, PartialEq)]
pub struct Er {
    pub msg: Txt,
    pub source: Option<Box<Er>>,
}

impl Er {
    pub fn new(msg: &str, source: Option<Er>) -> Self {
        Er {
            msg: Txt::raw([msg]),
            source: source.map(Box::new),
        }
    }

    pub fn chain(msgs: &[&str]) -> Self {
        let mut it = msgs.iter().rev();
        let mut e = Er::new(it.next().expect("at least one message"), None);
        for m in it {
            e = Er::new(m, Some(e));
        }
        e
    }
}

impl fmt::Debug for Er {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Er(")?;
        fmt::Debug::fmt(&self.msg, f)?;
        f.write_str(")")
    }
}

impl fmt::Display for Er {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.msg, f)
    }
}

impl StdError for Er {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        self.source.as_ref().map(|e| &**e as &(dyn StdError + 'static))
    }
}

/// How a bag is put into another one.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How {
    Debug,
    Display,
    CapDebug,
    CapDisplay,
    #[cfg(feature = "sval2")]
    Sval,
    #[cfg(feature = "sval2")]
    CapSval,
    #[cfg(feature = "sval2")]
    DynSval,
    #[cfg(feature = "serde1")]
    Serde,
    #[cfg(feature = "serde1")]
    CapSerde,
}

pub const HOWS: &[How] = &[
    How::Debug,
    How::Display,
    How::CapDebug,
    How::CapDisplay,
    #[cfg(feature = "sval2")]
    How::Sval,
    #[cfg(feature = "sval2")]
    How::CapSval,
    #[cfg(feature = "sval2")]
    How::DynSval,
    #[cfg(feature = "serde1")]
    How::Serde,
    #[cfg(feature = "serde1")]
    How::CapSerde,
];

/// A recipe for a bag.
pub enum Spec {
    Null,
    U64(u64),
    I64(i64),
    U128(u128),
    I128(i128),
    F64(f64),
    Bool(bool),
    Char(char),
    Str(String),
    Debug(Txt),
    Display(Txt),
    CapDebug(Txt),
    CapDisplay(Txt),
    DynDebug(Txt),
    DynDisplay(Txt),
    #[cfg(feature = "error")]
    CapError(Er),
    #[cfg(feature = "error")]
    DynError(Er),
    #[cfg(feature = "sval2")]
    Sval(Tree),
    #[cfg(feature = "sval2")]
    CapSval(Tree),
    #[cfg(feature = "sval2")]
    DynSval(Tree),
    #[cfg(feature = "serde1")]
    Serde(Tree),
    #[cfg(feature = "serde1")]
    CapSerde(Tree),
    #[cfg(feature = "seq")]
    Seq(Vec<Spec>),
    /// Filled on demand
    Fill(Deferred),
    /// Never filled
    Refuse(Refusal),
    /// A bag captured as a value of another bag
    Via(How, Box<Spec>),
    /// A bag of its own, and what it was made from
    #[cfg(feature = "owned")]
    Static(&'static str, ValueBag<'static>, Box<Spec>),
    /// A buffered bag, and what it was made from
    #[cfg(feature = "owned")]
    Owned(&'static str, OwnedValueBag, Box<Spec>),
}

/// Fills a slot with another recipe.
pub struct Deferred {
    pub native: bool,
    pub inner: &'static Spec,
    pub count: std::cell::Cell<u64>,
}

impl Fill for Deferred {
    fn fill(&self, slot: Slot) -> Result<(), Error> {
        self.count.set(self.count.get() + 1);
        if self.native {
            match self.inner {
                Spec::Debug(t) => return slot.fill_debug(t),
                Spec::Display(t) => return slot.fill_display(t),
                #[cfg(feature = "error")]
                Spec::CapError(e) => return slot.fill_error(e.clone()),
                #[cfg(feature = "error")]
                Spec::DynError(e) => return slot.fill_dyn_error(e),
                #[cfg(feature = "sval2")]
                Spec::Sval(t) => return slot.fill_sval2(t),
                #[cfg(feature = "serde1")]
                Spec::Serde(t) => return slot.fill_serde1(t),
                #[cfg(feature = "seq")]
                Spec::Seq(v) => return slot.fill_seq_slice::<Vec<Spec>, Spec>(v),
                _ => (),
            }
        }
        slot.fill_any(self.inner.bag())
    }
}

/// Fails to fill a slot.
#[derive(Clone, Copy, Debug)]
pub enum Refusal {
    Msg,
    #[cfg(feature = "std")]
    Boxed,
    #[cfg(not(feature = "std"))]
    Fmt,
}

pub const REFUSALS: &[Refusal] = &[
    Refusal::Msg,
    #[cfg(feature = "std")]
    Refusal::Boxed,
    #[cfg(not(feature = "std"))]
    Refusal::Fmt,
];

impl Fill for Refusal {
    fn fill(&self, _: Slot) -> Result<(), Error> {
        Err(match self {
            Refusal::Msg => Error::msg("refused"),
            #[cfg(feature = "std")]
            Refusal::Boxed => Error::boxed("refused"),
            #[cfg(not(feature = "std"))]
            Refusal::Fmt => fmt::Error.into(),
        })
    }
}

impl<'v> From<&'v Spec> for ValueBag<'v> {
    fn from(s: &'v Spec) -> Self {
        s.bag()
    }
}

impl fmt::Debug for Spec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&self.bag(), f)
    }
}

impl fmt::Display for Spec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.bag(), f)
    }
}

#[cfg(feature = "sval2")]
impl sval::Value for Spec {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        sval_ref::stream_ref(s, self.bag())
    }
}

#[cfg(feature = "serde1")]
impl serde::Serialize for Spec {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.bag().serialize(s)
    }
}

fn clip(s: &str) -> String {
    if s.chars().count() > 24 {
        format!("{:?}..{}", s.chars().take(12).collect::<String>(), s.len())
    } else {
        format!("{s:?}")
    }
}

/// The conversions of a reference, an optional and a reference to a reference.
macro_rules! references {
    ($f:expr, $t:ty, $v:expr) => {{
        let v: $t = $v;
        $f("from", &ValueBag::from(v));
        $f("option", &ValueBag::from(Some(v)));
        $f("ref", &ValueBag::from(&v));
        $f("from_option", &ValueBag::from_option(Some(v)));
        $f("from_option_ref", &ValueBag::from_option(Some(&v)));
    }};
}

/// Every other conversion that gives the bag of a recipe.
pub fn ways(s: &Spec, f: &mut dyn FnMut(&'static str, &ValueBag)) {
    match s {
        Spec::Null => {
            f("unit", &ValueBag::from(()));
            f("unit_ref", &ValueBag::from(&()));
            f("from_option", &ValueBag::from_option(None::<u8>));
            f("from_option_ref", &ValueBag::from_option(None::<&u128>));
            macro_rules! absent {
                ($($t:ty)*) => { $(f(stringify!($t), &ValueBag::from(None::<$t>));)* };
            }
            absent!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64 bool char &str &dyn fmt::Debug &dyn fmt::Display);
            #[cfg(feature = "error")]
            absent!(&(dyn std::error::Error + 'static));
            #[cfg(feature = "sval2")]
            absent!(&dyn sval_dynamic::Value);
            #[cfg(feature = "seq")]
            absent!(&[u8; 0] &[i64; 3] &[&str; 2] &&[bool] &&[&str]);
            #[cfg(all(feature = "seq", feature = "alloc"))]
            absent!(&Vec<u64> &Vec<char> &Vec<String>);
        }
        Spec::U64(v) => {
            references!(f, u64, *v);
            let v = *v;
            f("filled", &ValueBag::from_fill(&move |s: Slot| s.fill_any(v)));
        }
        Spec::I64(v) => {
            references!(f, i64, *v);
            let v = *v;
            f("filled", &ValueBag::from_fill(&move |s: Slot| s.fill_any(v)));
        }
        Spec::F64(v) => {
            references!(f, f64, *v);
            let v = *v;
            f("filled", &ValueBag::from_fill(&move |s: Slot| s.fill_any(v)));
        }
        Spec::Bool(v) => {
            references!(f, bool, *v);
            let v = *v;
            f("filled", &ValueBag::from_fill(&move |s: Slot| s.fill_any(v)));
        }
        Spec::Char(v) => {
            references!(f, char, *v);
            let v = *v;
            f("filled", &ValueBag::from_fill(&move |s: Slot| s.fill_any(v)));
        }
        Spec::U128(v) => {
            f("ref", &ValueBag::from(v));
            f("from_option_ref", &ValueBag::from_option(Some(v)));
            #[cfg(feature = "inline-i128")]
            f("from", &ValueBag::from(*v));
        }
        Spec::I128(v) => {
            f("ref", &ValueBag::from(v));
            f("from_option_ref", &ValueBag::from_option(Some(v)));
            #[cfg(feature = "inline-i128")]
            f("from", &ValueBag::from(*v));
        }
        Spec::Str(v) => {
            references!(f, &str, v.as_str());
            #[cfg(feature = "alloc")]
            {
                f("string", &ValueBag::from(v));
                f("cow", &ValueBag::from(&std::borrow::Cow::Borrowed(v.as_str())));
                f("owned_cow", &ValueBag::from(&std::borrow::Cow::<str>::Owned(v.clone())));
            }
        }
        Spec::DynDebug(v) => references!(f, &dyn fmt::Debug, v),
        Spec::DynDisplay(v) => references!(f, &dyn fmt::Display, v),
        #[cfg(feature = "error")]
        Spec::DynError(v) => references!(f, &(dyn std::error::Error + 'static), v),
        #[cfg(feature = "sval2")]
        Spec::DynSval(v) => references!(f, &dyn sval_dynamic::Value, v),
        #[cfg(feature = "owned")]
        Spec::Owned(_, v, _) => {
            f("from", &ValueBag::from(v));
            f("from_option", &ValueBag::from_option(Some(v)));
        }
        _ => (),
    }
}

impl Spec {
    pub fn fill(inner: Spec) -> Spec {
        Spec::deferred(false, Box::leak(Box::new(inner)))
    }

    pub fn fill_native(inner: Spec) -> Spec {
        Spec::deferred(true, Box::leak(Box::new(inner)))
    }

    pub fn deferred(native: bool, inner: &'static Spec) -> Spec {
        Spec::Fill(Deferred {
            native,
            inner,
            count: Default::default(),
        })
    }

    pub fn bag(&self) -> ValueBag<'_> {
        use Spec::*;
        match self {
            Null => ValueBag::empty(),
            U64(v) => ValueBag::from_u64(*v),
            I64(v) => ValueBag::from_i64(*v),
            U128(v) => ValueBag::from_u128_ref(v),
            I128(v) => ValueBag::from_i128_ref(v),
            F64(v) => ValueBag::from_f64(*v),
            Bool(v) => ValueBag::from_bool(*v),
            Char(v) => ValueBag::from_char(*v),
            Str(v) => ValueBag::from_str(v),
            Debug(v) => ValueBag::from_debug(v),
            Display(v) => ValueBag::from_display(v),
            CapDebug(v) => ValueBag::capture_debug(v),
            CapDisplay(v) => ValueBag::capture_display(v),
            DynDebug(v) => ValueBag::from_dyn_debug(v),
            DynDisplay(v) => ValueBag::from_dyn_display(v),
            #[cfg(feature = "error")]
            CapError(v) => ValueBag::capture_error(v),
            #[cfg(feature = "error")]
            DynError(v) => ValueBag::from_dyn_error(v),
            #[cfg(feature = "sval2")]
            Sval(v) => ValueBag::from_sval2(v),
            #[cfg(feature = "sval2")]
            CapSval(v) => ValueBag::capture_sval2(v),
            #[cfg(feature = "sval2")]
            DynSval(v) => ValueBag::from_dyn_sval2(v),
            #[cfg(feature = "serde1")]
            Serde(v) => ValueBag::from_serde1(v),
            #[cfg(feature = "serde1")]
            CapSerde(v) => ValueBag::capture_serde1(v),
            #[cfg(feature = "seq")]
            Seq(v) => ValueBag::from_seq_slice::<Vec<Spec>, Spec>(v),
            Fill(v) => ValueBag::from_fill(v),
            Refuse(v) => ValueBag::from_fill(v),
            Via(how, v) => match how {
                How::Debug => ValueBag::from_debug(&**v),
                How::Display => ValueBag::from_display(&**v),
                How::CapDebug => ValueBag::capture_debug(&**v),
                How::CapDisplay => ValueBag::capture_display(&**v),
                #[cfg(feature = "sval2")]
                How::Sval => ValueBag::from_sval2(&**v),
                #[cfg(feature = "sval2")]
                How::CapSval => ValueBag::capture_sval2(&**v),
                #[cfg(feature = "sval2")]
                How::DynSval => ValueBag::from_dyn_sval2(&**v),
                #[cfg(feature = "serde1")]
                How::Serde => ValueBag::from_serde1(&**v),
                #[cfg(feature = "serde1")]
                How::CapSerde => ValueBag::capture_serde1(&**v),
            },
            #[cfg(feature = "owned")]
            Static(_, v, _) => v.clone(),
            #[cfg(feature = "owned")]
            Owned(_, v, _) => v.by_ref(),
        }
    }

    pub fn name(&self) -> String {
        short(self.full_name())
    }

    /// The name with every part of the recipe in it.
    pub fn full_name(&self) -> String {
        use Spec::*;
        match self {
            Null => "null".into(),
            U64(v) => format!("u64({v})"),
            I64(v) => format!("i64({v})"),
            U128(v) => format!("u128({v})"),
            I128(v) => format!("i128({v})"),
            F64(v) => format!("f64({v:?})"),
            Bool(v) => format!("bool({v})"),
            Char(v) => format!("char({v:?})"),
            Str(v) => format!("str({})", clip(v)),
            Debug(v) => format!("debug({})", txt_name(v)),
            Display(v) => format!("display({})", txt_name(v)),
            CapDebug(v) => format!("cap_debug({})", txt_name(v)),
            CapDisplay(v) => format!("cap_display({})", txt_name(v)),
            DynDebug(v) => format!("dyn_debug({})", txt_name(v)),
            DynDisplay(v) => format!("dyn_display({})", txt_name(v)),
            #[cfg(feature = "error")]
            CapError(v) => format!("cap_error({})", er_name(v)),
            #[cfg(feature = "error")]
            DynError(v) => format!("dyn_error({})", er_name(v)),
            #[cfg(feature = "sval2")]
            Sval(v) => format!("sval({})", tree_name(v)),
            #[cfg(feature = "sval2")]
            CapSval(v) => format!("cap_sval({})", tree_name(v)),
            #[cfg(feature = "sval2")]
            DynSval(v) => format!("dyn_sval({})", tree_name(v)),
            #[cfg(feature = "serde1")]
            Serde(v) => format!("serde({})", tree_name(v)),
            #[cfg(feature = "serde1")]
            CapSerde(v) => format!("cap_serde({})", tree_name(v)),
            #[cfg(feature = "seq")]
            Seq(v) => format!("seq[{}]", v.iter().map(|s| s.full_name()).collect::<Vec<_>>().join(",")),
            Fill(d) => format!("fill{}({})", if d.native { "_native" } else { "" }, d.inner.full_name()),
            Refuse(v) => format!("refuse({v:?})"),
            Via(how, v) => format!("via_{how:?}({})", v.full_name()),
            #[cfg(feature = "owned")]
            Static(what, _, v) => format!("{what}({})", v.full_name()),
            #[cfg(feature = "owned")]
            Owned(what, _, v) => format!("{what}({})", v.full_name()),
        }
    }

    /// Whether the value has been buffered somewhere along the way.
    pub fn buffered(&self) -> bool {
        match self {
            #[cfg(feature = "owned")]
            Spec::Owned(..) => true,
            #[cfg(feature = "owned")]
            Spec::Static(_, _, v) => v.buffered(),
            Spec::Fill(d) => d.inner.buffered(),
            Spec::Via(_, v) => v.buffered(),
            #[cfg(feature = "seq")]
            Spec::Seq(v) => v.iter().any(|s| s.buffered()),
            _ => false,
        }
    }

    /// What casts make of it.
    pub fn cast(&self) -> Cast {
        use Spec::*;
        match self {
            Null => Cast::Null,
            U64(v) => Cast::Unsigned(*v as u128),
            I64(v) => Cast::Signed(*v as i128),
            U128(v) => Cast::Unsigned(*v),
            I128(v) => Cast::Signed(*v),
            F64(v) => Cast::Float(v.to_bits()),
            Bool(v) => Cast::Bool(*v),
            Char(v) => Cast::Char(*v),
            Str(v) => Cast::Text(v.clone()),
            Debug(_) | Display(_) | CapDebug(_) | CapDisplay(_) | DynDebug(_) | DynDisplay(_) => Cast::Nothing,
            #[cfg(feature = "error")]
            CapError(_) | DynError(_) => Cast::Nothing,
            #[cfg(feature = "sval2")]
            Sval(v) | CapSval(v) | DynSval(v) => v.sval_cast(),
            #[cfg(feature = "serde1")]
            Serde(v) | CapSerde(v) => v.serde_cast(),
            #[cfg(feature = "seq")]
            Seq(_) => Cast::Nothing,
            Fill(d) => d.inner.cast(),
            Refuse(_) => Cast::Nothing,
            Via(how, v) => match how {
                How::Debug | How::Display | How::CapDebug | How::CapDisplay => Cast::Nothing,
                #[cfg(feature = "sval2")]
                How::Sval | How::CapSval | How::DynSval => match v.as_tree() {
                    Some(t) => t.sval_cast(),
                    None => Cast::Unknown,
                },
                #[cfg(feature = "serde1")]
                How::Serde | How::CapSerde => match v.as_tree() {
                    Some(t) => t.serde_cast(),
                    None => Cast::Unknown,
                },
            },
            #[cfg(feature = "owned")]
            Static(_, _, v) | Owned(_, _, v) => v.cast(),
        }
    }

    /// The structured value either framework sees; `None` when it isn't specified.
    pub fn as_tree(&self) -> Option<Tree> {
        use Spec::*;
        fn text(v: &dyn fmt::Display) -> Tree {
            let mut s = String::new();
            match fmt::Write::write_fmt(&mut s, format_args!("{v}")) {
                Ok(()) => Tree::Collect(s),
                Err(_) => Tree::Fail,
            }
        }
        fn debug(v: &dyn fmt::Debug) -> Tree {
            let mut s = String::new();
            match fmt::Write::write_fmt(&mut s, format_args!("{v:?}")) {
                Ok(()) => Tree::Collect(s),
                Err(_) => Tree::Fail,
            }
        }
        Some(match self {
            Null => Tree::Null,
            U64(v) => Tree::U64(*v),
            I64(v) => Tree::I64(*v),
            U128(v) => Tree::U128(*v),
            I128(v) => Tree::I128(*v),
            F64(v) => Tree::F64(*v),
            Bool(v) => Tree::Bool(*v),
            Char(v) => Tree::Char(*v),
            Str(v) => Tree::Text(v.clone()),
            Debug(v) | CapDebug(v) | DynDebug(v) => debug(v),
            Display(v) | CapDisplay(v) | DynDisplay(v) => text(v),
            #[cfg(feature = "error")]
            CapError(v) | DynError(v) => text(v),
            #[cfg(feature = "sval2")]
            Sval(v) | CapSval(v) | DynSval(v) => v.charless(),
            #[cfg(feature = "serde1")]
            Serde(v) | CapSerde(v) => v.clone(),
            #[cfg(feature = "seq")]
            Seq(v) => Tree::Seq(false, v.iter().map(|s| s.as_tree()).collect::<Option<_>>()?),
            Fill(d) => return d.inner.as_tree(),
            Refuse(_) => Tree::Fail,
            Via(how, v) => match how {
                How::Debug | How::CapDebug => debug(&Model(v)),
                How::Display | How::CapDisplay => text(&Model(v)),
                #[allow(unreachable_patterns)]
                _ => return v.as_tree(),
            },
            #[cfg(feature = "owned")]
            Static(_, _, v) | Owned(_, _, v) => return v.as_tree(),
        })
    }

    /// The document both frameworks see; `None` when it can't be produced.
    pub fn doc(&self) -> Option<Doc> {
        self.as_tree()?.doc()
    }

    /// The elements of a sequence, each as what casts make of it. The outer option is
    /// `None` when that isn't specified.
    pub fn elements(&self) -> Option<Option<Vec<Cast>>> {
        use Spec::*;
        fn of_tree(v: &Tree, cast: fn(&Tree) -> Cast) -> Option<Option<Vec<Cast>>> {
            if v.has(&|t| matches!(t, Tree::Fail | Tree::Cut(..))) {
                return None;
            }
            Some(v.elements()?.map(|v| v.iter().map(cast).collect()))
        }
        match self {
            #[cfg(feature = "seq")]
            Seq(v) => Some(Some(v.iter().map(|s| s.cast()).collect())),
            #[cfg(feature = "sval2")]
            Sval(v) | CapSval(v) | DynSval(v) => of_tree(v, Tree::sval_cast),
            #[cfg(feature = "serde1")]
            Serde(v) | CapSerde(v) => of_tree(v, Tree::serde_cast),
            Fill(d) => d.inner.elements(),
            Via(how, v) => match how {
                How::Debug | How::Display | How::CapDebug | How::CapDisplay => Some(None),
                #[cfg(feature = "sval2")]
                How::Sval | How::CapSval | How::DynSval => of_tree(&v.as_tree()?, Tree::sval_cast),
                #[cfg(feature = "serde1")]
                How::Serde | How::CapSerde => of_tree(&v.as_tree()?, Tree::serde_cast),
            },
            #[cfg(feature = "owned")]
            Static(_, _, v) | Owned(_, _, v) => v.elements(),
            _ => Some(None),
        }
    }

    /// Whether any part of the value fails on its own account.
    pub fn fails(&self) -> bool {
        use Spec::*;
        match self {
            Debug(v) | Display(v) | CapDebug(v) | CapDisplay(v) | DynDebug(v) | DynDisplay(v) => v.fail,
            #[cfg(feature = "error")]
            CapError(v) | DynError(v) => {
                let mut e = Some(v);
                while let Some(v) = e {
                    if v.msg.fail {
                        return true;
                    }
                    e = v.source.as_deref();
                }
                false
            }
            #[cfg(feature = "sval2")]
            Sval(v) | CapSval(v) | DynSval(v) => v.has(&|t| matches!(t, Tree::Fail | Tree::Cut(..))),
            #[cfg(feature = "serde1")]
            Serde(v) | CapSerde(v) => v.has(&|t| matches!(t, Tree::Fail | Tree::Cut(..))),
            #[cfg(feature = "seq")]
            Seq(v) => v.iter().any(|s| s.fails()),
            Fill(d) => d.inner.fails(),
            Refuse(_) => true,
            Via(_, v) => v.fails(),
            #[cfg(feature = "owned")]
            Static(_, _, v) | Owned(_, _, v) => v.fails(),
            _ => false,
        }
    }
}

fn txt_name(t: &Txt) -> String {
    let s = if t.chunks.len() == 1 {
        clip(&t.chunks[0])
    } else {
        format!("{:?}", t.chunks.iter().map(|c| c.len()).collect::<Vec<_>>())
    };
    format!("{s}{}", if t.fail { "!" } else { "" })
}

#[allow(dead_code)]
fn er_name(e: &Er) -> String {
    match &e.source {
        None => txt_name(&e.msg),
        Some(s) => format!("{}<-{}", txt_name(&e.msg), er_name(s)),
    }
}

/// Keeps names of large recipes readable and different.
fn short(s: String) -> String {
    if s.len() > 1200 {
        format!("{}..{:x}", &s.chars().take(100).collect::<String>(), crate::engine::hash(s.as_bytes()))
    } else {
        s
    }
}

pub fn tree_name(t: &Tree) -> String {
    let s = format!("{t:?}");
    if s.len() > 160 {
        format!("{}..{:x}", &s.chars().take(100).collect::<String>(), crate::engine::hash(s.as_bytes()))
    } else {
        s
    }
}

/// Formats as the reference model says the bag should.
pub struct Model<'a>(pub &'a Spec);

impl<'a> Model<'a> {
    fn fmt(&self, f: &mut fmt::Formatter, display: bool) -> fmt::Result {
        use Spec::*;
        macro_rules! both {
            ($v:expr) => {
                if display {
                    fmt::Display::fmt($v, f)
                } else {
                    fmt::Debug::fmt($v, f)
                }
            };
        }
        match self.0 {
            Null => fmt::Display::fmt(&format_args!("None"), f),
            U64(v) => both!(v),
            I64(v) => both!(v),
            U128(v) => both!(v),
            I128(v) => both!(v),
            F64(v) => both!(v),
            Bool(v) => both!(v),
            Char(v) => both!(v),
            Str(v) => both!(v.as_str()),
            Debug(v) | CapDebug(v) | DynDebug(v) => fmt::Debug::fmt(v, f),
            Display(v) | CapDisplay(v) | DynDisplay(v) => fmt::Display::fmt(v, f),
            #[cfg(feature = "error")]
            CapError(v) | DynError(v) => both!(v),
            #[cfg(feature = "sval2")]
            Sval(v) | CapSval(v) | DynSval(v) => sval_fmt::stream_to_fmt(f, v),
            #[cfg(feature = "serde1")]
            Serde(v) | CapSerde(v) => fmt::Debug::fmt(&serde_fmt::to_debug(v), f),
            #[cfg(feature = "seq")]
            Seq(v) => {
                let mut l = f.debug_list();
                for s in v {
                    l.entry(&Model(s));
                }
                l.finish()
            }
            Fill(d) => Model(d.inner).fmt(f, display),
            Refuse(_) => Err(fmt::Error),
            Via(how, v) => match how {
                How::Debug | How::CapDebug => fmt::Debug::fmt(&Model(v), f),
                How::Display | How::CapDisplay => fmt::Display::fmt(&Model(v), f),
                #[cfg(feature = "sval2")]
                How::Sval | How::CapSval | How::DynSval => {
                    let t = v.as_tree().ok_or(fmt::Error)?;
                    sval_fmt::stream_to_fmt(f, &t)
                }
                #[cfg(feature = "serde1")]
                How::Serde | How::CapSerde => {
                    let t = v.as_tree().ok_or(fmt::Error)?;
                    fmt::Debug::fmt(&serde_fmt::to_debug(&t), f)
                }
            },
            #[cfg(feature = "owned")]
            Static(_, _, v) | Owned(_, _, v) => Model(v).fmt(f, display),
        }
    }
}

impl<'a> fmt::Debug for Model<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.fmt(f, false)
    }
}

impl<'a> fmt::Display for Model<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.fmt(f, true)
    }
}

/// Which recipes to enumerate.
#[derive(Clone, Copy)]
pub struct Space {
    /// Depth of structured values
    pub tree_depth: usize,
    /// Include sequences of recipes
    pub seqs: bool,
    /// Include deferred recipes
    pub fills: bool,
    /// Include bags within bags
    pub vias: bool,
    /// Include shared captures
    pub shared: bool,
}

impl Space {
    pub const SMALL: Space = Space {
        tree_depth: 1,
        seqs: true,
        fills: true,
        vias: true,
        shared: true,
    };

    pub const BASE: Space = Space {
        tree_depth: 1,
        seqs: false,
        fills: false,
        vias: false,
        shared: false,
    };
}

pub fn prims() -> Vec<Spec> {
    use Spec::*;
    let mut v = vec![
        Null,
        U64(0),
        U64(7),
        U64(u32::MAX as u64 + 1),
        U64(u64::MAX),
        I64(-1),
        I64(5),
        I64(i64::MIN),
        I64(i64::MAX),
        U128(3),
        U128(u64::MAX as u128 + 1),
        U128(u128::MAX),
        I128(-2),
        I128(i128::MIN),
        I128(i128::MAX),
        F64(0.0),
        F64(-0.0),
        F64(1.5),
        F64(1e300),
        F64(f64::INFINITY),
        Bool(true),
        Bool(false),
        Char('a'),
        Char('\u{10FFFF}'),
        Char('"'),
    ];
    for s in ["", "a", "text \u{e9}\"\n", "exactly twenty-two byte", "a longer string which has more than forty-six bytes in it"] {
        v.push(Str(s.to_owned()));
    }
    v
}

pub fn texts() -> Vec<Txt> {
    vec![
        Txt::new("v"),
        Txt::raw([""]),
        Txt::raw(["12"]),
        Txt::raw(["ab", "", "cdefghijklmnop", "qrstuvwxyz0123456789", "ABCDEFGHIJKLMNOPQRSTUV"]),
    ]
}

pub fn fmt_specs() -> Vec<Spec> {
    let mut v = Vec::new();
    for t in texts() {
        v.push(Spec::Debug(t.clone()));
        v.push(Spec::Display(t.clone()));
        v.push(Spec::CapDebug(t.clone()));
        v.push(Spec::CapDisplay(t.clone()));
        v.push(Spec::DynDebug(t.clone()));
        v.push(Spec::DynDisplay(t));
    }
    v
}

pub fn errors() -> Vec<Er> {
    vec![
        Er::chain(&["boom"]),
        Er::chain(&["outer error with a fairly long message, longer than inline storage", "inner"]),
        Er::chain(&["a", "", "c", "a"]),
    ]
}

#[allow(unused_mut)]
pub fn error_specs() -> Vec<Spec> {
    let mut v: Vec<Spec> = Vec::new();
    #[cfg(feature = "error")]
    for e in errors() {
        v.push(Spec::CapError(e.clone()));
        v.push(Spec::DynError(e));
    }
    v
}

#[allow(unused_mut, unused_variables)]
pub fn tree_specs(trees: &[Tree]) -> Vec<Spec> {
    let mut v: Vec<Spec> = Vec::new();
    for t in trees {
        #[cfg(feature = "sval2")]
        {
            v.push(Spec::Sval(t.clone()));
            v.push(Spec::CapSval(t.clone()));
            v.push(Spec::DynSval(t.clone()));
        }
        #[cfg(feature = "serde1")]
        {
            v.push(Spec::Serde(t.clone()));
            v.push(Spec::CapSerde(t.clone()));
        }
    }
    v
}

/// A recipe from scratch for the same bag.
pub fn again(s: &Spec) -> Spec {
    use Spec::*;
    match s {
        Null => Null,
        U64(v) => U64(*v),
        I64(v) => I64(*v),
        U128(v) => U128(*v),
        I128(v) => I128(*v),
        F64(v) => F64(*v),
        Bool(v) => Bool(*v),
        Char(v) => Char(*v),
        Str(v) => Str(v.clone()),
        Debug(v) => Debug(v.clone()),
        Display(v) => Display(v.clone()),
        CapDebug(v) => CapDebug(v.clone()),
        CapDisplay(v) => CapDisplay(v.clone()),
        DynDebug(v) => DynDebug(v.clone()),
        DynDisplay(v) => DynDisplay(v.clone()),
        #[cfg(feature = "error")]
        CapError(v) => CapError(v.clone()),
        #[cfg(feature = "error")]
        DynError(v) => DynError(v.clone()),
        #[cfg(feature = "sval2")]
        Sval(v) => Sval(v.clone()),
        #[cfg(feature = "sval2")]
        CapSval(v) => CapSval(v.clone()),
        #[cfg(feature = "sval2")]
        DynSval(v) => DynSval(v.clone()),
        #[cfg(feature = "serde1")]
        Serde(v) => Serde(v.clone()),
        #[cfg(feature = "serde1")]
        CapSerde(v) => CapSerde(v.clone()),
        #[cfg(feature = "seq")]
        Seq(v) => Seq(v.iter().map(again).collect()),
        Fill(d) => Spec::deferred(d.native, d.inner),
        Refuse(v) => Refuse(*v),
        Via(how, v) => Via(*how, Box::new(again(v))),
        #[cfg(feature = "owned")]
        Static(what, _, v) => shared(what, again(v)).expect("shared before"),
        #[cfg(feature = "owned")]
        Owned(what, _, v) => owned(what, again(v)),
    }
}

/// Capture what a recipe captures in shared storage.
#[cfg(feature = "owned")]
pub fn shared(what: &'static str, s: Spec) -> Option<Spec> {
    use Spec::*;
    let bag = match &s {
        Debug(v) | CapDebug(v) | DynDebug(v) => ValueBag::capture_shared_debug(v.clone()),
        Display(v) | CapDisplay(v) | DynDisplay(v) => ValueBag::capture_shared_display(v.clone()),
        #[cfg(feature = "error")]
        CapError(v) | DynError(v) => ValueBag::capture_shared_error(v.clone()),
        #[cfg(feature = "sval2")]
        Sval(v) | CapSval(v) | DynSval(v) => ValueBag::capture_shared_sval2(v.clone()),
        #[cfg(feature = "serde1")]
        Serde(v) | CapSerde(v) => ValueBag::capture_shared_serde1(v.clone()),
        U64(v) => ValueBag::capture_shared_debug(*v),
        I64(v) => ValueBag::capture_shared_display(*v),
        Bool(v) => ValueBag::capture_shared_debug(*v),
        Char(v) => ValueBag::capture_shared_display(*v),
        F64(v) => ValueBag::capture_shared_debug(*v),
        #[cfg(feature = "seq")]
        Seq(_) => {
            let Seq(v) = again(&s) else { unreachable!() };
            // Bags aren't shared between threads here, so recipes can stand in for data
            struct Elem(Spec);
            unsafe impl Send for Elem {}
            unsafe impl Sync for Elem {}
            impl<'v> From<&'v Elem> for ValueBag<'v> {
                fn from(v: &'v Elem) -> Self {
                    v.0.bag()
                }
            }
            ValueBag::capture_shared_seq_slice::<Vec<Elem>, Elem>(v.into_iter().map(Elem).collect())
        }
        _ => return None,
    };
    Some(Static(what, bag, Box::new(s)))
}

/// Buffer a recipe's bag.
#[cfg(feature = "owned")]
pub fn owned(what: &'static str, s: Spec) -> Spec {
    let o = match what {
        "to_shared" => s.bag().to_shared(),
        "into_shared" => s.bag().to_owned().into_shared(),
        _ => s.bag().to_owned(),
    };
    Spec::Owned(what, o, Box::new(s))
}

/// Values whose own code fails, at every point it can.
pub fn failing(depth: usize) -> Vec<Spec> {
    let mut out = Vec::new();
    let cut = |chunks: &[&str]| Txt {
        chunks: chunks.iter().map(|s| s.to_string()).collect(),
        marked: false,
        ..Txt::failing("")
    };
    for t in [cut(&[]), cut(&["12"]), cut(&["a", "b"]), Txt::failing("v")] {
        out.extend([Spec::Debug(t.clone()), Spec::Display(t.clone()), Spec::DynDebug(t.clone()), Spec::CapDisplay(t.clone())]);
        #[cfg(feature = "error")]
        out.push(Spec::CapError(Er { msg: t, source: None }));
    }
    for r in REFUSALS {
        out.extend([Spec::Refuse(*r), Spec::fill(Spec::Refuse(*r))]);
    }
    for t in crate::tree::trees(depth) {
        let _ = &t;
        #[cfg(feature = "sval2")]
        for n in 0..crate::tree::sval_steps(&t) {
            out.push(Spec::Sval(Tree::Cut(n, Box::new(t.clone()))));
        }
        #[cfg(feature = "serde1")]
        for n in 0..crate::tree::serde_steps(&t) {
            out.push(Spec::Serde(Tree::Cut(n, Box::new(t.clone()))));
        }
    }
    out
}

/// A recipe of every kind.
#[allow(unused_mut)]
pub fn small() -> Vec<Spec> {
    let mut v = vec![
        Spec::Null,
        Spec::U64(7),
        Spec::I64(-1),
        Spec::U128(u128::MAX),
        Spec::I128(i128::MIN),
        Spec::F64(1.5),
        Spec::Bool(true),
        Spec::Char('c'),
        Spec::Str("s".into()),
        Spec::Str("a string beyond the inline size of owned bags, both of them".into()),
        Spec::CapDebug(Txt::new("d")),
        Spec::Display(Txt::new("p")),
    ];
    #[cfg(feature = "error")]
    v.push(Spec::CapError(Er::chain(&["e", "cause"])));
    let trees = [
        Tree::U8(1),
        Tree::Char('x'),
        Tree::Null,
        Tree::Text("t".into()),
        Tree::Seq(true, vec![Tree::I64(1), Tree::Seq(true, vec![Tree::I64(2)])]),
        Tree::Struct(vec![("f", Tree::Bool(true))]),
        Tree::UnitVar(0, "A"),
    ];
    v.extend(tree_specs(&trees));
    v
}

/// Every recipe of the space.
#[allow(unused_mut, unused_variables)]
pub fn specs(space: Space) -> Vec<Spec> {
    let base = || {
        let mut v = prims();
        v.extend(fmt_specs());
        v.extend(error_specs());
        v.extend(tree_specs(&crate::tree::trees(space.tree_depth)));
        v
    };
    let mut out = base();
    #[cfg(feature = "seq")]
    if space.seqs {
        out.push(Spec::Seq(vec![]));
        for s in small() {
            out.push(Spec::Seq(vec![s]));
        }
        for s in small() {
            out.push(Spec::Seq(vec![Spec::U64(1), s, Spec::Str("z".into())]));
        }
        out.push(Spec::Seq(vec![Spec::Seq(vec![Spec::U64(1)]), Spec::Seq(vec![Spec::Seq(vec![])])]));
        out.push(Spec::Seq(small()));
    }
    if space.fills {
        for s in base() {
            out.push(Spec::fill(s));
        }
        for s in small() {
            out.push(Spec::fill_native(s));
        }
        for s in small() {
            out.push(Spec::fill(Spec::fill(s)));
        }
        #[cfg(feature = "seq")]
        {
            out.push(Spec::fill(Spec::Seq(small())));
            out.push(Spec::fill_native(Spec::Seq(small())));
            out.push(Spec::Seq(small().into_iter().map(Spec::fill).collect()));
        }
    }
    if space.vias {
        for how in HOWS {
            for s in small() {
                out.push(Spec::Via(*how, Box::new(s)));
            }
            #[cfg(feature = "seq")]
            out.push(Spec::Via(*how, Box::new(Spec::Seq(small()))));
        }
    }
    #[cfg(feature = "owned")]
    if space.shared {
        for s in base() {
            out.extend(shared("shared", s));
        }
        #[cfg(feature = "seq")]
        out.extend(shared("shared", Spec::Seq(small())));
        for s in small() {
            out.push(owned("owned", s));
        }
    }
    out
}

/// Recipes with many elements, of long texts, and of many levels.
pub fn large(wide: usize, deep: usize) -> Vec<Spec> {
    let text = "\u{e9}x".repeat(wide);
    let chunks = || Txt::raw((0..wide).map(|i| format!("{i},")));
    let mut out = vec![
        Spec::Str(text.clone()),
        Spec::Str("x".repeat(wide * 16)),
        Spec::Display(Txt::raw([text.clone()])),
        Spec::Debug(chunks()),
        Spec::CapDisplay(chunks()),
        Spec::CapDebug(Txt::raw([text.clone()])),
        Spec::fill_native(Spec::Display(chunks())),
    ];
    #[cfg(feature = "error")]
    {
        let msgs: Vec<String> = (0..deep).map(|i| format!("e{i}")).collect();
        let msgs: Vec<&str> = msgs.iter().map(|m| &**m).collect();
        out.push(Spec::CapError(Er::chain(&msgs)));
        out.push(Spec::DynError(Er::chain(&msgs)));
        out.push(Spec::CapError(Er::chain(&[&text, &text])));
    }
    let trees = crate::tree::large_trees(wide, deep);
    #[cfg(feature = "sval2")]
    for t in &trees {
        out.push(Spec::CapSval(t.clone()));
    }
    #[cfg(feature = "serde1")]
    for t in &trees {
        out.push(Spec::CapSerde(t.clone()));
    }
    out.extend(tree_specs(&trees[..1]));
    #[cfg(feature = "seq")]
    {
        let few = small();
        let mixed = || Spec::Seq((0..wide).map(|i| again(&few[i % few.len()])).collect());
        out.push(Spec::Seq((0..wide).map(|i| Spec::U64(i as u64)).collect()));
        out.push(Spec::Seq((0..wide).map(|i| Spec::Str(format!("s{i}"))).collect()));
        out.push(mixed());
        out.push(Spec::fill(mixed()));
        out.push((0..deep).fold(Spec::U64(7), |s, _| Spec::Seq(vec![s])));
        out.push((0..deep).fold(Spec::U64(7), |s, i| if i % 2 == 0 { Spec::fill(s) } else { Spec::Seq(vec![s, Spec::Null]) }));
    }
    for s in [Spec::U64(7), Spec::Str("text".into()), Spec::Display(Txt::raw(["ab", "c"])), Spec::Null] {
        out.push((0..deep).fold(s, |s, _| Spec::fill(s)));
    }
    for how in HOWS {
        for s in [Spec::I64(-7), Spec::Str("text".into())] {
            out.push((0..deep).fold(s, |s, _| Spec::Via(*how, Box::new(s))));
        }
    }
    // What one framework shows of the other isn't specified, and quotes double with every change
    let deep = deep.min(12);
    for other in ["Serde", "Sval"] {
        let hows: Vec<How> = HOWS.iter().filter(|h| !format!("{h:?}").contains(other)).copied().collect();
        for s in [Spec::I64(-7), Spec::Str("text".into())] {
            out.push((0..deep).fold(s, |s, i| Spec::Via(hows[i % hows.len()], Box::new(s))));
        }
        out.push((0..deep).fold(Spec::Bool(true), |s, i| {
            let s = Spec::Via(hows[i * 2 % hows.len()], Box::new(s));
            if i % 3 == 0 {
                Spec::fill(s)
            } else {
                s
            }
        }));
    }
    out
}
