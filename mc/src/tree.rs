//! Structured values that can be captured with either framework.
//!
//! A `Tree` drives the whole data model of `serde` and `sval` by hand, so that a
//! space of structured values can be enumerated.

use crate::record::Doc;
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Null,
    Unit,
    None,
    Some(Box<Tree>),
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    Char(char),
    Text(String),
    /// Text in fragments, which may be borrowed or computed
    Frags(Vec<(bool, String)>),
    /// Text produced by formatting
    Collect(String),
    Bytes(Vec<u8>),
    /// A number as text
    Number(String),
    UnitStruct,
    Newtype(Box<Tree>),
    /// A sequence, with or without its length upfront
    Seq(bool, Vec<Tree>),
    Tuple(Vec<Tree>),
    TupleStruct(Vec<Tree>),
    Map(bool, Vec<(Tree, Tree)>),
    Struct(Vec<(&'static str, Tree)>),
    /// Like `Struct`, with a skipped field
    Skipping(Vec<(&'static str, Tree)>),
    UnitVar(u32, &'static str),
    NewtypeVar(u32, &'static str, Box<Tree>),
    TupleVar(u32, &'static str, Vec<Tree>),
    StructVar(u32, &'static str, Vec<(&'static str, Tree)>),
    /// Text for people, a number otherwise
    Human(u64),
    /// A value that can't be serialized
    Fail,
    /// Calls the thread's hook, then is its content
    Hook(u32, Box<Tree>),
    /// Fails at the given step of its content
    Cut(usize, Box<Tree>),
}

thread_local! {
    static STEPS: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
    static HOOK: RefCell<Option<std::rc::Rc<dyn Fn(u32)>>> = const { RefCell::new(None) };
}

/// Run `f` with a callback that values make from within their own code.
pub fn with_hook<R>(hook: impl Fn(u32) + 'static, f: impl FnOnce() -> R) -> R {
    struct Reset(Option<std::rc::Rc<dyn Fn(u32)>>);
    impl Drop for Reset {
        fn drop(&mut self) {
            HOOK.with(|h| *h.borrow_mut() = self.0.take());
        }
    }
    let _reset = Reset(HOOK.with(|h| h.borrow_mut().replace(std::rc::Rc::new(hook))));
    f()
}

/// Called by values from within their own formatting and serialization code.
pub fn fire(id: u32) {
    let hook = HOOK.with(|h| h.borrow().clone());
    if let Some(hook) = hook {
        hook(id)
    }
}

/// Run `f` with a number of steps until values fail, and say how many are left.
#[allow(dead_code)]
fn with_steps<R>(steps: usize, f: impl FnOnce() -> R) -> (R, usize) {
    struct Reset(Option<usize>);
    impl Drop for Reset {
        fn drop(&mut self) {
            STEPS.with(|s| s.set(self.0));
        }
    }
    let _reset = Reset(STEPS.with(|s| s.replace(Some(steps))));
    let r = f();
    (r, STEPS.with(|s| s.get()).unwrap_or(0))
}

/// Whether there's a step left to take.
fn step() -> bool {
    STEPS.with(|s| match s.get() {
        None => true,
        Some(0) => false,
        Some(n) => {
            s.set(Some(n - 1));
            true
        }
    })
}

#[cfg(feature = "serde1")]
fn step_serde<E: serde::ser::Error>() -> Result<(), E> {
    if step() {
        Ok(())
    } else {
        Err(E::custom("refused"))
    }
}

/// What casts make of a value.
#[derive(Clone, Debug, PartialEq)]
pub enum Cast {
    Null,
    /// A signed or unsigned integer
    Signed(i128),
    Unsigned(u128),
    Float(u64),
    Bool(bool),
    Char(char),
    Text(String),
    /// Not a primitive
    Nothing,
    /// Not specified
    Unknown,
}

impl Tree {
    pub fn text(s: impl Into<String>) -> Tree {
        Tree::Text(s.into())
    }

    pub fn kind(&self) -> &'static str {
        use Tree::*;
        match self {
            Null => "null",
            Unit => "unit",
            None => "none",
            Some(_) => "some",
            Bool(_) => "bool",
            U8(_) => "u8",
            U16(_) => "u16",
            U32(_) => "u32",
            U64(_) => "u64",
            U128(_) => "u128",
            I8(_) => "i8",
            I16(_) => "i16",
            I32(_) => "i32",
            I64(_) => "i64",
            I128(_) => "i128",
            F32(_) => "f32",
            F64(_) => "f64",
            Char(_) => "char",
            Text(_) => "text",
            Frags(_) => "frags",
            Collect(_) => "collect",
            Bytes(_) => "bytes",
            Number(_) => "number",
            UnitStruct => "unit_struct",
            Newtype(_) => "newtype",
            Seq(..) => "seq",
            Tuple(_) => "tuple",
            TupleStruct(_) => "tuple_struct",
            Map(..) => "map",
            Struct(_) => "struct",
            Skipping(_) => "skipping",
            UnitVar(..) => "unit_var",
            NewtypeVar(..) => "newtype_var",
            TupleVar(..) => "tuple_var",
            StructVar(..) => "struct_var",
            Human(_) => "human",
            Fail => "fail",
            Hook(..) => "hook",
            Cut(..) => "cut",
        }
    }

    /// The document this value is, for someone reading text formats.
    pub fn doc(&self) -> Option<Doc> {
        use Tree::*;
        fn all(v: &[Tree]) -> Option<Doc> {
            v.iter().map(|t| t.doc()).collect::<Option<_>>().map(Doc::Seq)
        }
        fn fields(v: &[(&'static str, Tree)]) -> Option<Doc> {
            v.iter()
                .map(|(k, t)| t.doc().map(|t| (Doc::Text((*k).into()), t)))
                .collect::<Option<_>>()
                .map(Doc::Map)
        }
        fn var(v: &str, d: Option<Doc>) -> Option<Doc> {
            d.map(|d| Doc::Map(vec![(Doc::Text(v.into()), d)]))
        }
        Option::Some(match self {
            Null | Unit | None => Doc::Null,
            Some(t) | Newtype(t) | Hook(_, t) => return t.doc(),
            Bool(v) => Doc::Bool(*v),
            U8(v) => Doc::Int(v.to_string()),
            U16(v) => Doc::Int(v.to_string()),
            U32(v) => Doc::Int(v.to_string()),
            U64(v) => Doc::Int(v.to_string()),
            U128(v) => Doc::Int(v.to_string()),
            I8(v) => Doc::Int(v.to_string()),
            I16(v) => Doc::Int(v.to_string()),
            I32(v) => Doc::Int(v.to_string()),
            I64(v) => Doc::Int(v.to_string()),
            I128(v) => Doc::Int(v.to_string()),
            F32(v) => Doc::Float((*v as f64).to_bits()),
            F64(v) => Doc::Float(v.to_bits()),
            Char(v) => Doc::Text(v.to_string()),
            Text(v) | Collect(v) | Number(v) => Doc::Text(v.clone()),
            Frags(v) => Doc::Text(v.iter().map(|(_, s)| s.as_str()).collect()),
            Bytes(v) => Doc::Bytes(v.clone()),
            UnitStruct => Doc::Text("N".into()),
            Seq(_, v) | Tuple(v) | TupleStruct(v) => return all(v),
            Map(_, v) => Doc::Map(
                v.iter()
                    .map(|(k, v)| Option::Some((k.doc()?, v.doc()?)))
                    .collect::<Option<_>>()?,
            ),
            Struct(v) | Skipping(v) => return fields(v),
            UnitVar(_, v) => Doc::Text((*v).into()),
            NewtypeVar(_, n, v) => return var(n, v.doc()),
            TupleVar(_, n, v) => return var(n, all(v)),
            StructVar(_, n, v) => return var(n, fields(v)),
            Human(v) => Doc::Text(format!("h{v}")),
            Fail | Cut(..) => return Option::None,
        })
    }

    fn prim(&self) -> Cast {
        use Tree::*;
        match self {
            Null | Unit | None => Cast::Null,
            Some(t) | Hook(_, t) => t.prim(),
            Bool(v) => Cast::Bool(*v),
            U8(v) => Cast::Unsigned(*v as u128),
            U16(v) => Cast::Unsigned(*v as u128),
            U32(v) => Cast::Unsigned(*v as u128),
            U64(v) => Cast::Unsigned(*v as u128),
            U128(v) => Cast::Unsigned(*v),
            I8(v) => Cast::Signed(*v as i128),
            I16(v) => Cast::Signed(*v as i128),
            I32(v) => Cast::Signed(*v as i128),
            I64(v) => Cast::Signed(*v as i128),
            I128(v) => Cast::Signed(*v),
            F32(v) => Cast::Float((*v as f64).to_bits()),
            F64(v) => Cast::Float(v.to_bits()),
            Char(v) => Cast::Char(*v),
            Text(v) | Collect(v) | Number(v) => Cast::Text(v.clone()),
            Frags(v) => Cast::Text(v.iter().map(|(_, s)| s.as_str()).collect()),
            Human(v) => Cast::Text(format!("h{v}")),
            Seq(..) | Tuple(_) | TupleStruct(_) | Map(..) | Struct(_) | Skipping(_) | Fail | Cut(..) | Bytes(_) => {
                Cast::Nothing
            }
            // Whether wrappers count as what they wrap is up to the framework
            Newtype(_) | UnitStruct | UnitVar(..) | NewtypeVar(..) | TupleVar(..) | StructVar(..) => {
                Cast::Unknown
            }
        }
    }

    pub fn sval_cast(&self) -> Cast {
        match self.prim() {
            // There's no char in the `sval` data model
            Cast::Char(c) => Cast::Text(c.to_string()),
            c => c,
        }
    }

    pub fn serde_cast(&self) -> Cast {
        // Casting is for machines, so it isn't specified which form they use
        if self.has(&|t| matches!(t, Tree::Human(_))) {
            return Cast::Unknown;
        }
        self.prim()
    }

    /// The value with its chars as text, as `sval` has them.
    pub fn charless(&self) -> Tree {
        use Tree::*;
        let b = |t: &Tree| Box::new(t.charless());
        let all = |v: &[Tree]| v.iter().map(|t| t.charless()).collect::<Vec<_>>();
        let fields = |v: &[(&'static str, Tree)]| v.iter().map(|(k, t)| (*k, t.charless())).collect::<Vec<_>>();
        match self {
            Char(c) => Text(c.to_string()),
            Some(t) => Some(b(t)),
            Newtype(t) => Newtype(b(t)),
            Hook(id, t) => Hook(*id, b(t)),
            Cut(n, t) => Cut(*n, b(t)),
            NewtypeVar(i, n, t) => NewtypeVar(*i, n, b(t)),
            Seq(hint, v) => Seq(*hint, all(v)),
            Tuple(v) => Tuple(all(v)),
            TupleStruct(v) => TupleStruct(all(v)),
            TupleVar(i, n, v) => TupleVar(*i, n, all(v)),
            Map(hint, v) => Map(*hint, v.iter().map(|(k, v)| (k.charless(), v.charless())).collect()),
            Struct(v) => Struct(fields(v)),
            Skipping(v) => Skipping(fields(v)),
            StructVar(i, n, v) => StructVar(*i, n, fields(v)),
            t => t.clone(),
        }
    }

    /// Whether any part of the tree matches.
    pub fn has(&self, f: &dyn Fn(&Tree) -> bool) -> bool {
        use Tree::*;
        f(self)
            || match self {
                Some(t) | Newtype(t) | Hook(_, t) | Cut(_, t) | NewtypeVar(_, _, t) => t.has(f),
                Seq(_, v) | Tuple(v) | TupleStruct(v) | TupleVar(_, _, v) => v.iter().any(|t| t.has(f)),
                Map(_, v) => v.iter().any(|(k, v)| k.has(f) || v.has(f)),
                Struct(v) | Skipping(v) | StructVar(_, _, v) => v.iter().any(|(_, t)| t.has(f)),
                _ => false,
            }
    }

    /// The elements, if the value is a sequence: `None` when that isn't specified.
    pub fn elements(&self) -> Option<Option<Vec<Tree>>> {
        use Tree::*;
        Option::Some(match self {
            Seq(_, v) | Tuple(v) => {
                if v.iter().any(|t| t.has(&|t| matches!(t, Fail | Cut(..)))) {
                    return Option::None;
                }
                Option::Some(v.clone())
            }
            Some(t) | Hook(_, t) => return t.elements(),
            // Tuples with a name, byte strings and variants aren't specified
            TupleStruct(_) | Bytes(_) | Newtype(_) | NewtypeVar(..) | TupleVar(..) | StructVar(..) | UnitVar(..)
            | UnitStruct => return Option::None,
            _ => Option::None,
        })
    }
}

pub const NAME: &str = "N";

#[cfg(feature = "serde1")]
impl serde::Serialize for Tree {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{
            Error, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
            SerializeTupleStruct, SerializeTupleVariant,
        };
        use Tree::*;
        step_serde::<S::Error>()?;
        match self {
            Null | None => s.serialize_none(),
            Unit => s.serialize_unit(),
            Some(v) => s.serialize_some(&**v),
            Bool(v) => s.serialize_bool(*v),
            U8(v) => s.serialize_u8(*v),
            U16(v) => s.serialize_u16(*v),
            U32(v) => s.serialize_u32(*v),
            U64(v) => s.serialize_u64(*v),
            U128(v) => s.serialize_u128(*v),
            I8(v) => s.serialize_i8(*v),
            I16(v) => s.serialize_i16(*v),
            I32(v) => s.serialize_i32(*v),
            I64(v) => s.serialize_i64(*v),
            I128(v) => s.serialize_i128(*v),
            F32(v) => s.serialize_f32(*v),
            F64(v) => s.serialize_f64(*v),
            Char(v) => s.serialize_char(*v),
            Text(v) | Number(v) => s.serialize_str(v),
            Frags(v) => s.serialize_str(&v.iter().map(|(_, s)| s.as_str()).collect::<String>()),
            Collect(v) => s.collect_str(v),
            Bytes(v) => s.serialize_bytes(v),
            UnitStruct => s.serialize_unit_struct(NAME),
            Newtype(v) => s.serialize_newtype_struct(NAME, &**v),
            Seq(hint, v) => {
                let mut s = s.serialize_seq(hint.then_some(v.len()))?;
                for t in v {
                    s.serialize_element(t)?;
                }
                step_serde::<S::Error>()?;
                s.end()
            }
            Tuple(v) => {
                let mut s = s.serialize_tuple(v.len())?;
                for t in v {
                    s.serialize_element(t)?;
                }
                step_serde::<S::Error>()?;
                s.end()
            }
            TupleStruct(v) => {
                let mut s = s.serialize_tuple_struct(NAME, v.len())?;
                for t in v {
                    s.serialize_field(t)?;
                }
                step_serde::<S::Error>()?;
                s.end()
            }
            Map(hint, v) => {
                let mut s = s.serialize_map(hint.then_some(v.len()))?;
                for (i, (k, t)) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        s.serialize_entry(k, t)?;
                    } else {
                        s.serialize_key(k)?;
                        s.serialize_value(t)?;
                    }
                }
                step_serde::<S::Error>()?;
                s.end()
            }
            Struct(v) => {
                let mut s = s.serialize_struct(NAME, v.len())?;
                for (k, t) in v {
                    s.serialize_field(k, t)?;
                }
                step_serde::<S::Error>()?;
                s.end()
            }
            Skipping(v) => {
                let mut s = s.serialize_struct(NAME, v.len())?;
                s.skip_field("skipped")?;
                for (k, t) in v {
                    s.serialize_field(k, t)?;
                }
                step_serde::<S::Error>()?;
                s.end()
            }
            UnitVar(i, n) => s.serialize_unit_variant(NAME, *i, n),
            NewtypeVar(i, n, v) => s.serialize_newtype_variant(NAME, *i, n, &**v),
            TupleVar(i, n, v) => {
                let mut s = s.serialize_tuple_variant(NAME, *i, n, v.len())?;
                for t in v {
                    s.serialize_field(t)?;
                }
                step_serde::<S::Error>()?;
                s.end()
            }
            StructVar(i, n, v) => {
                let mut s = s.serialize_struct_variant(NAME, *i, n, v.len())?;
                for (k, t) in v {
                    s.serialize_field(k, t)?;
                }
                step_serde::<S::Error>()?;
                s.end()
            }
            Human(v) => {
                if s.is_human_readable() {
                    s.serialize_str(&format!("h{v}"))
                } else {
                    s.serialize_u64(*v)
                }
            }
            Fail => Err(S::Error::custom("refused")),
            Hook(id, v) => {
                fire(*id);
                v.serialize(s)
            }
            Cut(n, v) => with_steps(*n, || v.serialize(s)).0,
        }
    }
}

#[cfg(feature = "sval2")]
impl sval::Value for Tree {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        use sval::{tags, Index, Label};
        use Tree::*;

        fn field<'sval, S: sval::Stream<'sval> + ?Sized>(
            s: &mut S,
            v: &'sval [(&'static str, Tree)],
        ) -> sval::Result {
            for (k, t) in v {
                let l = Label::new(k).with_tag(&tags::VALUE_IDENT);
                s.record_value_begin(Option::None, &l)?;
                s.value(t)?;
                s.record_value_end(Option::None, &l)?;
            }
            Ok(())
        }

        fn elems<'sval, S: sval::Stream<'sval> + ?Sized>(s: &mut S, v: &'sval [Tree]) -> sval::Result {
            for (i, t) in v.iter().enumerate() {
                let i = Index::new(i).with_tag(&tags::VALUE_OFFSET);
                s.tuple_value_begin(Option::None, &i)?;
                s.value(t)?;
                s.tuple_value_end(Option::None, &i)?;
            }
            Ok(())
        }

        let name = Label::new(NAME).with_tag(&tags::VALUE_IDENT);
        let name = Option::Some(&name);
        let variant = |i: u32, n: &'static str| {
            (
                Label::new(n).with_tag(&tags::VALUE_IDENT),
                Index::new(i as usize).with_tag(&tags::VALUE_OFFSET),
            )
        };

        match self {
            Null => s.null(),
            Unit => s.value(&()),
            None => s.value(&Option::<bool>::None),
            Some(v) => {
                let l = Label::new("Some").with_tag(&tags::VALUE_IDENT);
                let i = Index::new(1).with_tag(&tags::VALUE_OFFSET);
                s.tagged_begin(Option::Some(&tags::RUST_OPTION_SOME), Option::Some(&l), Option::Some(&i))?;
                s.value(&**v)?;
                s.tagged_end(Option::Some(&tags::RUST_OPTION_SOME), Option::Some(&l), Option::Some(&i))
            }
            Bool(v) => s.bool(*v),
            U8(v) => s.u8(*v),
            U16(v) => s.u16(*v),
            U32(v) => s.u32(*v),
            U64(v) => s.u64(*v),
            U128(v) => s.u128(*v),
            I8(v) => s.i8(*v),
            I16(v) => s.i16(*v),
            I32(v) => s.i32(*v),
            I64(v) => s.i64(*v),
            I128(v) => s.i128(*v),
            F32(v) => s.f32(*v),
            F64(v) => s.f64(*v),
            Char(v) => s.value_computed(v),
            Text(v) => s.value(v.as_str()),
            Frags(v) => {
                s.text_begin(Option::None)?;
                for (borrowed, f) in v {
                    if *borrowed {
                        s.text_fragment(f)?;
                    } else {
                        s.text_fragment_computed(f)?;
                    }
                }
                s.text_end()
            }
            Collect(v) => sval::stream_display(s, v),
            Number(v) => {
                s.tagged_begin(Option::Some(&tags::NUMBER), Option::None, Option::None)?;
                s.value(v.as_str())?;
                s.tagged_end(Option::Some(&tags::NUMBER), Option::None, Option::None)
            }
            Bytes(v) => {
                s.binary_begin(Option::Some(v.len()))?;
                s.binary_fragment(v)?;
                s.binary_end()
            }
            UnitStruct => s.tag(Option::None, name, Option::None),
            Newtype(v) => {
                s.tagged_begin(Option::None, name, Option::None)?;
                s.value(&**v)?;
                s.tagged_end(Option::None, name, Option::None)
            }
            Seq(hint, v) => {
                s.seq_begin(hint.then_some(v.len()))?;
                for t in v {
                    s.seq_value_begin()?;
                    s.value(t)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            Tuple(v) => {
                s.tuple_begin(Option::None, Option::None, Option::None, Option::Some(v.len()))?;
                elems(s, v)?;
                s.tuple_end(Option::None, Option::None, Option::None)
            }
            TupleStruct(v) => {
                s.tuple_begin(Option::None, name, Option::None, Option::Some(v.len()))?;
                elems(s, v)?;
                s.tuple_end(Option::None, name, Option::None)
            }
            Map(hint, v) => {
                s.map_begin(hint.then_some(v.len()))?;
                for (k, t) in v {
                    s.map_key_begin()?;
                    s.value(k)?;
                    s.map_key_end()?;
                    s.map_value_begin()?;
                    s.value(t)?;
                    s.map_value_end()?;
                }
                s.map_end()
            }
            Struct(v) | Skipping(v) => {
                s.record_begin(Option::None, name, Option::None, Option::Some(v.len()))?;
                field(s, v)?;
                s.record_end(Option::None, name, Option::None)
            }
            UnitVar(i, n) => {
                let (l, i) = variant(*i, n);
                s.enum_begin(Option::None, name, Option::None)?;
                s.tag(Option::None, Option::Some(&l), Option::Some(&i))?;
                s.enum_end(Option::None, name, Option::None)
            }
            NewtypeVar(i, n, v) => {
                let (l, i) = variant(*i, n);
                s.enum_begin(Option::None, name, Option::None)?;
                s.tagged_begin(Option::None, Option::Some(&l), Option::Some(&i))?;
                s.value(&**v)?;
                s.tagged_end(Option::None, Option::Some(&l), Option::Some(&i))?;
                s.enum_end(Option::None, name, Option::None)
            }
            TupleVar(i, n, v) => {
                let (l, i) = variant(*i, n);
                s.enum_begin(Option::None, name, Option::None)?;
                s.tuple_begin(Option::None, Option::Some(&l), Option::Some(&i), Option::Some(v.len()))?;
                elems(s, v)?;
                s.tuple_end(Option::None, Option::Some(&l), Option::Some(&i))?;
                s.enum_end(Option::None, name, Option::None)
            }
            StructVar(i, n, v) => {
                let (l, i) = variant(*i, n);
                s.enum_begin(Option::None, name, Option::None)?;
                s.record_begin(Option::None, Option::Some(&l), Option::Some(&i), Option::Some(v.len()))?;
                field(s, v)?;
                s.record_end(Option::None, Option::Some(&l), Option::Some(&i))?;
                s.enum_end(Option::None, name, Option::None)
            }
            Human(v) => s.value_computed(format!("h{v}").as_str()),
            Fail => sval::error(),
            Hook(id, v) => {
                fire(*id);
                s.value(&**v)
            }
            Cut(n, v) => {
                let mut s = s;
                v.stream(&mut Limit { stream: &mut s, left: *n })
            }
        }
    }
}

/// Fails after a number of calls.
#[cfg(feature = "sval2")]
struct Limit<'a, 'sval> {
    stream: &'a mut dyn sval_dynamic::Stream<'sval>,
    left: usize,
}

#[cfg(feature = "sval2")]
macro_rules! limit {
    ($($f:ident($($v:ident: $t:ty),*);)*) => { $(
        fn $f(&mut self, $($v: $t),*) -> sval::Result {
            self.left = self.left.checked_sub(1).ok_or_else(sval::Error::new)?;
            sval::Stream::$f(&mut *self.stream, $($v),*)
        }
    )* };
}

#[cfg(feature = "sval2")]
impl<'a, 'sval> sval::Stream<'sval> for Limit<'a, 'sval> {
    limit! {
        null();
        bool(v: bool);
        u8(v: u8);
        u16(v: u16);
        u32(v: u32);
        u64(v: u64);
        u128(v: u128);
        i8(v: i8);
        i16(v: i16);
        i32(v: i32);
        i64(v: i64);
        i128(v: i128);
        f32(v: f32);
        f64(v: f64);
        text_begin(n: Option<usize>);
        text_fragment(v: &'sval str);
        text_fragment_computed(v: &str);
        text_end();
        binary_begin(n: Option<usize>);
        binary_fragment(v: &'sval [u8]);
        binary_fragment_computed(v: &[u8]);
        binary_end();
        map_begin(n: Option<usize>);
        map_key_begin();
        map_key_end();
        map_value_begin();
        map_value_end();
        map_end();
        seq_begin(n: Option<usize>);
        seq_value_begin();
        seq_value_end();
        seq_end();
        enum_begin(t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>);
        enum_end(t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>);
        tagged_begin(t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>);
        tagged_end(t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>);
        tag(t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>);
        record_begin(t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>, n: Option<usize>);
        record_value_begin(t: Option<&sval::Tag>, l: &sval::Label);
        record_value_end(t: Option<&sval::Tag>, l: &sval::Label);
        record_end(t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>);
        tuple_begin(t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>, n: Option<usize>);
        tuple_value_begin(t: Option<&sval::Tag>, i: &sval::Index);
        tuple_value_end(t: Option<&sval::Tag>, i: &sval::Index);
        tuple_end(t: Option<&sval::Tag>, l: Option<&sval::Label>, i: Option<&sval::Index>);
    }
}

/// How many steps a value takes until it's complete.
#[cfg(feature = "sval2")]
pub fn sval_steps(t: &Tree) -> usize {
    struct Any;
    impl<'sval> sval::Stream<'sval> for Any {
        fn null(&mut self) -> sval::Result {
            Ok(())
        }
        fn bool(&mut self, _: bool) -> sval::Result {
            Ok(())
        }
        fn i64(&mut self, _: i64) -> sval::Result {
            Ok(())
        }
        fn f64(&mut self, _: f64) -> sval::Result {
            Ok(())
        }
        fn text_begin(&mut self, _: Option<usize>) -> sval::Result {
            Ok(())
        }
        fn text_fragment_computed(&mut self, _: &str) -> sval::Result {
            Ok(())
        }
        fn text_end(&mut self) -> sval::Result {
            Ok(())
        }
        fn seq_begin(&mut self, _: Option<usize>) -> sval::Result {
            Ok(())
        }
        fn seq_value_begin(&mut self) -> sval::Result {
            Ok(())
        }
        fn seq_value_end(&mut self) -> sval::Result {
            Ok(())
        }
        fn seq_end(&mut self) -> sval::Result {
            Ok(())
        }
    }
    let mut s = Limit {
        stream: &mut Any,
        left: usize::MAX,
    };
    sval::Value::stream(t, &mut s).expect("doesn't fail by itself");
    usize::MAX - s.left
}

/// How many steps a value takes until it's complete.
#[cfg(feature = "serde1")]
pub fn serde_steps(t: &Tree) -> usize {
    let (r, left) = with_steps(usize::MAX, || {
        serde::Serialize::serialize(t, &mut crate::record::ser::SerRec::new(true))
    });
    r.expect("doesn't fail by itself");
    usize::MAX - left
}

/// Leaves of the enumerated trees.
pub fn leaves(full: bool) -> Vec<Tree> {
    use Tree::*;
    let mut v = vec![Null, Bool(true), U64(7), I64(-3), F64(1.5), Text("t\u{e9}".into())];
    if full {
        v.extend([
            Unit,
            None,
            Bool(false),
            U8(u8::MAX),
            U16(u16::MAX),
            U32(u32::MAX),
            U64(u64::MAX),
            U128(u128::MAX),
            U128(1),
            I8(i8::MIN),
            I16(i16::MIN),
            I32(i32::MIN),
            I64(i64::MIN),
            I128(i128::MIN),
            I128(1),
            F32(0.25),
            F64(-0.0),
            F64(f64::INFINITY),
            Char('\u{1F600}'),
            Char('c'),
            Text(String::new()),
            Text("a\"b\\\n".into()),
            Text("x".repeat(70)),
            Frags(vec![(true, "ab".into()), (false, "cd".into()), (true, "".into()), (true, "ef".into())]),
            Frags(vec![(false, "q".into())]),
            Frags(vec![]),
            Frags(vec![(true, "ab".into()), (true, "cd".into())]),
            Collect("co\"l".into()),
            Bytes(vec![]),
            Bytes(vec![0, 255, 1]),
            Number("1e400".into()),
            UnitStruct,
            UnitVar(0, "A"),
            UnitVar(3, "D"),
        ]);
    }
    v
}

/// Trees made of one constructor over every choice of children.
pub fn wrap(children: &[Tree], pairs: bool, out: &mut Vec<Tree>) {
    use Tree::*;
    for hint in [true, false] {
        out.push(Seq(hint, vec![]));
        out.push(Map(hint, vec![]));
    }
    out.push(Tuple(vec![]));
    out.push(Struct(vec![]));
    for a in children {
        let b = || Box::new(a.clone());
        let s = || vec![a.clone()];
        out.push(Some(b()));
        out.push(Newtype(b()));
        out.push(NewtypeVar(1, "B", b()));
        out.push(Seq(true, s()));
        out.push(Seq(false, s()));
        out.push(Tuple(s()));
        out.push(TupleStruct(s()));
        out.push(TupleVar(2, "C", s()));
        out.push(Map(true, vec![(Text("k".into()), a.clone())]));
        out.push(Map(false, vec![(a.clone(), Text("v".into()))]));
        out.push(Struct(vec![("f", a.clone())]));
        out.push(Skipping(vec![("f", a.clone())]));
        out.push(StructVar(4, "E", vec![("f", a.clone())]));
    }
    if pairs {
        for a in children {
            for c in children {
                let s = || vec![a.clone(), c.clone()];
                out.push(Seq(true, s()));
                out.push(Tuple(s()));
                out.push(TupleStruct(s()));
                out.push(TupleVar(0, "A", s()));
                out.push(Map(true, vec![(Text("k".into()), a.clone()), (Text("l".into()), c.clone())]));
                out.push(Struct(vec![("f", a.clone()), ("g", c.clone())]));
                out.push(StructVar(0, "A", vec![("f", a.clone()), ("g", c.clone())]));
            }
        }
    }
}

/// All trees of the given depth; `2` has every leaf under every constructor.
pub fn trees(depth: usize) -> Vec<Tree> {
    let mut out = leaves(true);
    if depth >= 2 {
        wrap(&leaves(true), false, &mut out);
        wrap(&leaves(false), true, &mut out);
    }
    if depth >= 3 {
        let mut level = vec![Tree::U64(7), Tree::Text("t".into())];
        wrap(&[Tree::U64(7), Tree::Null], false, &mut level);
        wrap(&level.clone(), depth >= 4, &mut out);
        if depth >= 4 {
            let mut next = Vec::new();
            wrap(&level, false, &mut next);
            wrap(&next, false, &mut out);
        }
    }
    out
}

/// Trees with many children and of many levels.
pub fn large_trees(wide: usize, deep: usize) -> Vec<Tree> {
    let leaf = |i: usize| match i % 5 {
        0 => Tree::U64(i as u64),
        1 => Tree::Text(format!("t{i}")),
        2 => Tree::Null,
        3 => Tree::I32(-(i as i32)),
        _ => Tree::Seq(true, vec![Tree::Bool(true)]),
    };
    let mut out = vec![
        Tree::Seq(true, (0..wide).map(leaf).collect()),
        Tree::Seq(false, (0..wide).map(|i| Tree::U64(i as u64)).collect()),
        Tree::Map(true, (0..wide).map(|i| (Tree::Text(format!("k{i}")), leaf(i))).collect()),
        Tree::Tuple((0..wide).map(leaf).collect()),
        Tree::Text("\u{e9}x".repeat(wide)),
        Tree::Frags((0..wide).map(|i| (i % 3 != 0, format!("{i},"))).collect()),
        Tree::Struct((0..wide).map(|i| (&*Box::leak(format!("f{i}").into_boxed_str()), leaf(i))).collect()),
    ];
    for wrap in [
        |t| Tree::Seq(true, vec![t]),
        |t| Tree::Map(true, vec![(Tree::Text("k".into()), t)]),
        |t| Tree::Some(Box::new(t)),
        |t| Tree::Newtype(Box::new(t)),
        |t| Tree::Struct(vec![("a", Tree::U8(1)), ("b", t), ("c", Tree::Null)]),
        |t| Tree::NewtypeVar(1, "V", Box::new(t)),
    ] as [fn(Tree) -> Tree; 6]
    {
        out.push((0..deep).fold(Tree::U64(7), |t, _| wrap(t)));
    }
    out
}
