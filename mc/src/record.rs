//! Consumers that record every call made on them, and can fail at a chosen call.

/// A document as either framework sees it, without framework-specific detail.
#[derive(Clone, Debug, PartialEq)]
pub enum Doc {
    Null,
    Bool(bool),
    /// An integer of any width, in decimal
    Int(String),
    /// The bits of a float, widened to 64 bits
    Float(u64),
    Text(String),
    Bytes(Vec<u8>),
    Seq(Vec<Doc>),
    Map(Vec<(Doc, Doc)>),
}

/// Decides when an injected failure happens and watches for calls made after it.
#[derive(Clone, Debug, Default)]
pub struct Fault {
    pub fail_at: Option<usize>,
    pub calls: usize,
    pub failed: bool,
    /// Calls made after the failure was reported
    pub after: usize,
    /// Call the thread's hook on every call
    pub hook: Option<u32>,
}

impl Fault {
    pub fn never() -> Self {
        Fault::default()
    }

    pub fn at(n: usize) -> Self {
        Fault {
            fail_at: Some(n),
            ..Default::default()
        }
    }

    pub fn hooked(id: u32) -> Self {
        Fault {
            hook: Some(id),
            ..Default::default()
        }
    }

    /// Count one call; false if it has to fail.
    pub fn call(&mut self) -> bool {
        if let Some(id) = self.hook {
            crate::tree::fire(id)
        }
        if self.failed {
            self.after += 1;
            return false;
        }
        let n = self.calls;
        self.calls += 1;
        if self.fail_at == Some(n) {
            self.failed = true;
            return false;
        }
        true
    }
}

/// A writer that records its calls.
#[derive(Default, Debug)]
pub struct FmtRec {
    pub fault: Fault,
    pub out: Vec<String>,
}

impl std::fmt::Write for FmtRec {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if !self.fault.call() {
            return Err(std::fmt::Error);
        }
        self.out.push(s.to_owned());
        Ok(())
    }
}

#[cfg(feature = "serde1")]
pub mod ser {
    use super::{Doc, Fault};
    use serde::{ser, Serialize};
    use std::fmt;

    #[derive(Debug, Clone, PartialEq)]
    pub struct SerErr(pub String);

    impl fmt::Display for SerErr {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(&self.0)
        }
    }

    impl std::error::Error for SerErr {}

    impl ser::Error for SerErr {
        fn custom<T: fmt::Display>(msg: T) -> Self {
            SerErr(msg.to_string())
        }
    }

    /// Records every call on a serializer.
    #[derive(Debug)]
    pub struct SerRec {
        pub fault: Fault,
        pub human: bool,
        pub toks: Vec<String>,
    }

    pub fn tokens(v: &(impl Serialize + ?Sized), human: bool) -> Result<Vec<String>, SerErr> {
        let mut rec = SerRec::new(human);
        v.serialize(&mut rec)?;
        Ok(rec.toks)
    }

    impl SerRec {
        pub fn new(human: bool) -> Self {
            SerRec {
                fault: Fault::never(),
                human,
                toks: Vec::new(),
            }
        }

        fn call(&mut self, tok: impl FnOnce() -> String) -> Result<(), SerErr> {
            if !self.fault.call() {
                return Err(SerErr("injected".into()));
            }
            self.toks.push(tok());
            Ok(())
        }
    }

    pub struct Comp<'a>(&'a mut SerRec, &'static str);

    macro_rules! prims {
        ($($f:ident $t:ty,)*) => { $(
            fn $f(self, v: $t) -> Result<(), SerErr> {
                self.call(|| format!("{}({v:?})", &stringify!($f)[10..]))
            }
        )* };
    }

    impl<'a> ser::Serializer for &'a mut SerRec {
        type Ok = ();
        type Error = SerErr;
        type SerializeSeq = Comp<'a>;
        type SerializeTuple = Comp<'a>;
        type SerializeTupleStruct = Comp<'a>;
        type SerializeTupleVariant = Comp<'a>;
        type SerializeMap = Comp<'a>;
        type SerializeStruct = Comp<'a>;
        type SerializeStructVariant = Comp<'a>;

        prims!(
            serialize_bool bool,
            serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
            serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128,
            serialize_char char, serialize_str &str, serialize_bytes &[u8],
        );

        fn serialize_f32(self, v: f32) -> Result<(), SerErr> {
            self.call(|| format!("f32({:x})", v.to_bits()))
        }
        fn serialize_f64(self, v: f64) -> Result<(), SerErr> {
            self.call(|| format!("f64({:x})", v.to_bits()))
        }
        fn serialize_none(self) -> Result<(), SerErr> {
            self.call(|| "none".into())
        }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), SerErr> {
            self.call(|| "some".into())?;
            v.serialize(self)
        }
        fn serialize_unit(self) -> Result<(), SerErr> {
            self.call(|| "unit".into())
        }
        fn serialize_unit_struct(self, name: &'static str) -> Result<(), SerErr> {
            self.call(|| format!("unit_struct({name})"))
        }
        fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), SerErr> {
            self.call(|| format!("unit_variant({n},{i},{v})"))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<(), SerErr> {
            self.call(|| format!("newtype_struct({n})"))?;
            v.serialize(self)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self,
            n: &'static str,
            i: u32,
            var: &'static str,
            v: &T,
        ) -> Result<(), SerErr> {
            self.call(|| format!("newtype_variant({n},{i},{var})"))?;
            v.serialize(self)
        }
        fn serialize_seq(self, len: Option<usize>) -> Result<Comp<'a>, SerErr> {
            self.call(|| format!("seq({len:?})"))?;
            Ok(Comp(self, "seq"))
        }
        fn serialize_tuple(self, len: usize) -> Result<Comp<'a>, SerErr> {
            self.call(|| format!("tuple({len})"))?;
            Ok(Comp(self, "tuple"))
        }
        fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<Comp<'a>, SerErr> {
            self.call(|| format!("tuple_struct({n},{len})"))?;
            Ok(Comp(self, "tuple_struct"))
        }
        fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Comp<'a>, SerErr> {
            self.call(|| format!("tuple_variant({n},{i},{v},{len})"))?;
            Ok(Comp(self, "tuple_variant"))
        }
        fn serialize_map(self, len: Option<usize>) -> Result<Comp<'a>, SerErr> {
            self.call(|| format!("map({len:?})"))?;
            Ok(Comp(self, "map"))
        }
        fn serialize_struct(self, n: &'static str, len: usize) -> Result<Comp<'a>, SerErr> {
            self.call(|| format!("struct({n},{len})"))?;
            Ok(Comp(self, "struct"))
        }
        fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Comp<'a>, SerErr> {
            self.call(|| format!("struct_variant({n},{i},{v},{len})"))?;
            Ok(Comp(self, "struct_variant"))
        }
        // A failing `Display` is an error here, not a panic
        fn collect_str<T: ?Sized + fmt::Display>(self, value: &T) -> Result<(), SerErr> {
            let mut s = String::new();
            fmt::Write::write_fmt(&mut s, format_args!("{value}"))
                .map_err(|_| SerErr("formatting failed".into()))?;
            self.serialize_str(&s)
        }
        fn is_human_readable(&self) -> bool {
            self.human
        }
    }

    impl<'a> Comp<'a> {
        fn elem<T: ?Sized + Serialize>(&mut self, what: &'static str, v: &T) -> Result<(), SerErr> {
            self.0.call(|| what.to_owned())?;
            v.serialize(&mut *self.0)
        }
        fn field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SerErr> {
            self.0.call(|| format!("field({k})"))?;
            v.serialize(&mut *self.0)
        }
        fn finish(self) -> Result<(), SerErr> {
            let end = self.1;
            self.0.call(|| format!("end_{end}"))
        }
    }

    impl<'a> ser::SerializeSeq for Comp<'a> {
        type Ok = ();
        type Error = SerErr;
        fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> {
            self.elem("element", v)
        }
        fn end(self) -> Result<(), SerErr> {
            self.finish()
        }
    }
    impl<'a> ser::SerializeTuple for Comp<'a> {
        type Ok = ();
        type Error = SerErr;
        fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> {
            self.elem("element", v)
        }
        fn end(self) -> Result<(), SerErr> {
            self.finish()
        }
    }
    impl<'a> ser::SerializeTupleStruct for Comp<'a> {
        type Ok = ();
        type Error = SerErr;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> {
            self.elem("element", v)
        }
        fn end(self) -> Result<(), SerErr> {
            self.finish()
        }
    }
    impl<'a> ser::SerializeTupleVariant for Comp<'a> {
        type Ok = ();
        type Error = SerErr;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> {
            self.elem("element", v)
        }
        fn end(self) -> Result<(), SerErr> {
            self.finish()
        }
    }
    impl<'a> ser::SerializeMap for Comp<'a> {
        type Ok = ();
        type Error = SerErr;
        fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> {
            self.elem("key", v)
        }
        fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> {
            self.elem("value", v)
        }
        fn end(self) -> Result<(), SerErr> {
            self.finish()
        }
    }
    impl<'a> ser::SerializeStruct for Comp<'a> {
        type Ok = ();
        type Error = SerErr;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SerErr> {
            self.field(k, v)
        }
        fn skip_field(&mut self, k: &'static str) -> Result<(), SerErr> {
            self.0.call(|| format!("skip({k})"))
        }
        fn end(self) -> Result<(), SerErr> {
            self.finish()
        }
    }
    impl<'a> ser::SerializeStructVariant for Comp<'a> {
        type Ok = ();
        type Error = SerErr;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SerErr> {
            self.field(k, v)
        }
        fn skip_field(&mut self, k: &'static str) -> Result<(), SerErr> {
            self.0.call(|| format!("skip({k})"))
        }
        fn end(self) -> Result<(), SerErr> {
            self.finish()
        }
    }

    /// Builds the document a serializer sees.
    pub struct ToDoc;

    pub fn doc(v: &(impl Serialize + ?Sized)) -> Result<Doc, SerErr> {
        v.serialize(ToDoc)
    }

    pub struct DocSeq(Option<&'static str>, Vec<Doc>);
    pub struct DocMap(Option<&'static str>, Vec<(Doc, Doc)>, Option<Doc>);

    fn wrap(variant: Option<&'static str>, d: Doc) -> Doc {
        match variant {
            Some(v) => Doc::Map(vec![(Doc::Text(v.into()), d)]),
            None => d,
        }
    }

    macro_rules! ints {
        ($($f:ident $t:ty,)*) => { $(
            fn $f(self, v: $t) -> Result<Doc, SerErr> { Ok(Doc::Int(v.to_string())) }
        )* };
    }

    impl ser::Serializer for ToDoc {
        type Ok = Doc;
        type Error = SerErr;
        type SerializeSeq = DocSeq;
        type SerializeTuple = DocSeq;
        type SerializeTupleStruct = DocSeq;
        type SerializeTupleVariant = DocSeq;
        type SerializeMap = DocMap;
        type SerializeStruct = DocMap;
        type SerializeStructVariant = DocMap;

        ints!(
            serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
            serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128,
        );
        fn serialize_bool(self, v: bool) -> Result<Doc, SerErr> {
            Ok(Doc::Bool(v))
        }
        fn serialize_f32(self, v: f32) -> Result<Doc, SerErr> {
            Ok(Doc::Float((v as f64).to_bits()))
        }
        fn serialize_f64(self, v: f64) -> Result<Doc, SerErr> {
            Ok(Doc::Float(v.to_bits()))
        }
        fn serialize_char(self, v: char) -> Result<Doc, SerErr> {
            Ok(Doc::Text(v.to_string()))
        }
        fn serialize_str(self, v: &str) -> Result<Doc, SerErr> {
            Ok(Doc::Text(v.to_owned()))
        }
        fn serialize_bytes(self, v: &[u8]) -> Result<Doc, SerErr> {
            Ok(Doc::Bytes(v.to_owned()))
        }
        fn serialize_none(self) -> Result<Doc, SerErr> {
            Ok(Doc::Null)
        }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Doc, SerErr> {
            v.serialize(ToDoc)
        }
        fn serialize_unit(self) -> Result<Doc, SerErr> {
            Ok(Doc::Null)
        }
        fn serialize_unit_struct(self, name: &'static str) -> Result<Doc, SerErr> {
            Ok(Doc::Text(name.into()))
        }
        fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Doc, SerErr> {
            Ok(Doc::Text(v.into()))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Doc, SerErr> {
            v.serialize(ToDoc)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            _: u32,
            var: &'static str,
            v: &T,
        ) -> Result<Doc, SerErr> {
            Ok(wrap(Some(var), v.serialize(ToDoc)?))
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<DocSeq, SerErr> {
            Ok(DocSeq(None, vec![]))
        }
        fn serialize_tuple(self, _: usize) -> Result<DocSeq, SerErr> {
            Ok(DocSeq(None, vec![]))
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<DocSeq, SerErr> {
            Ok(DocSeq(None, vec![]))
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<DocSeq, SerErr> {
            Ok(DocSeq(Some(v), vec![]))
        }
        fn serialize_map(self, _: Option<usize>) -> Result<DocMap, SerErr> {
            Ok(DocMap(None, vec![], None))
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<DocMap, SerErr> {
            Ok(DocMap(None, vec![], None))
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<DocMap, SerErr> {
            Ok(DocMap(Some(v), vec![], None))
        }
        fn collect_str<T: ?Sized + fmt::Display>(self, value: &T) -> Result<Doc, SerErr> {
            let mut s = String::new();
            fmt::Write::write_fmt(&mut s, format_args!("{value}"))
                .map_err(|_| SerErr("formatting failed".into()))?;
            Ok(Doc::Text(s))
        }
    }

    macro_rules! doc_seq {
        ($($t:ident $f:ident,)*) => { $(
            impl ser::$t for DocSeq {
                type Ok = Doc;
                type Error = SerErr;
                fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> {
                    self.1.push(v.serialize(ToDoc)?);
                    Ok(())
                }
                fn end(self) -> Result<Doc, SerErr> { Ok(wrap(self.0, Doc::Seq(self.1))) }
            }
        )* };
    }
    doc_seq!(
        SerializeSeq serialize_element, SerializeTuple serialize_element,
        SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field,
    );

    macro_rules! doc_struct {
        ($($t:ident,)*) => { $(
            impl ser::$t for DocMap {
                type Ok = Doc;
                type Error = SerErr;
                fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SerErr> {
                    self.1.push((Doc::Text(k.into()), v.serialize(ToDoc)?));
                    Ok(())
                }
                fn end(self) -> Result<Doc, SerErr> { Ok(wrap(self.0, Doc::Map(self.1))) }
            }
        )* };
    }
    doc_struct!(SerializeStruct, SerializeStructVariant,);

    impl ser::SerializeMap for DocMap {
        type Ok = Doc;
        type Error = SerErr;
        fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> {
            self.2 = Some(v.serialize(ToDoc)?);
            Ok(())
        }
        fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SerErr> {
            let k = self.2.take().ok_or_else(|| SerErr("value without key".into()))?;
            self.1.push((k, v.serialize(ToDoc)?));
            Ok(())
        }
        fn end(self) -> Result<Doc, SerErr> {
            if self.2.is_some() {
                return Err(SerErr("key without value".into()));
            }
            Ok(wrap(self.0, Doc::Map(self.1)))
        }
    }
}

#[cfg(feature = "sval2")]
pub mod sv {
    use super::{Doc, Fault};
    use sval::{Index, Label, Result, Stream, Tag, Value};

    /// Records every call on a stream.
    #[derive(Debug, Default)]
    pub struct SvalRec {
        pub fault: Fault,
        pub toks: Vec<String>,
        /// Address and length of every borrowed text fragment
        pub borrowed: Vec<(usize, usize)>,
        /// Record maximal texts rather than fragments, and not whether they're borrowed
        pub merge: bool,
        text: String,
    }

    pub fn tokens(v: &(impl Value + ?Sized)) -> std::result::Result<Vec<String>, ()> {
        let mut rec = SvalRec::default();
        v.stream(&mut rec).map_err(|_| ())?;
        Ok(rec.toks)
    }

    /// Tokens without the parts buffering may change: fragmentation and borrows of text.
    pub fn merged(v: &(impl Value + ?Sized)) -> std::result::Result<Vec<String>, ()> {
        let mut rec = SvalRec {
            merge: true,
            ..Default::default()
        };
        v.stream(&mut rec).map_err(|_| ())?;
        Ok(rec.toks)
    }

    impl SvalRec {
        fn call(&mut self, tok: impl FnOnce() -> String) -> Result {
            if !self.fault.call() {
                return sval::error();
            }
            self.toks.push(tok());
            Ok(())
        }
    }

    fn t(t: Option<&Tag>) -> String {
        match t {
            Some(t) => format!("{t:?}"),
            None => "-".into(),
        }
    }
    fn l(l: Option<&Label>) -> String {
        match l {
            Some(l) => format!("{:?}:{}", l.as_str(), t(l.tag())),
            None => "-".into(),
        }
    }
    fn i(i: Option<&Index>) -> String {
        match i {
            Some(i) => format!("{:?}:{}", i.to_isize(), t(i.tag())),
            None => "-".into(),
        }
    }

    macro_rules! prims {
        ($($f:ident $t:ty,)*) => { $(
            fn $f(&mut self, v: $t) -> Result { self.call(|| format!("{}({v:?})", stringify!($f))) }
        )* };
    }
    macro_rules! marks {
        ($($f:ident,)*) => { $(
            fn $f(&mut self) -> Result { self.call(|| stringify!($f).into()) }
        )* };
    }
    macro_rules! hinted {
        ($($f:ident,)*) => { $(
            fn $f(&mut self, n: Option<usize>) -> Result { self.call(|| format!("{}({n:?})", stringify!($f))) }
        )* };
    }
    macro_rules! tagged {
        ($($f:ident,)*) => { $(
            fn $f(&mut self, a: Option<&Tag>, b: Option<&Label>, c: Option<&Index>) -> Result {
                self.call(|| format!("{}({},{},{})", stringify!($f), t(a), l(b), i(c)))
            }
        )* };
    }
    macro_rules! tagged_hinted {
        ($($f:ident,)*) => { $(
            fn $f(&mut self, a: Option<&Tag>, b: Option<&Label>, c: Option<&Index>, n: Option<usize>) -> Result {
                self.call(|| format!("{}({},{},{},{n:?})", stringify!($f), t(a), l(b), i(c)))
            }
        )* };
    }

    impl<'sval> Stream<'sval> for SvalRec {
        prims!(
            bool bool,
            u8 u8, u16 u16, u32 u32, u64 u64, u128 u128,
            i8 i8, i16 i16, i32 i32, i64 i64, i128 i128,
        );
        fn f32(&mut self, v: f32) -> Result {
            self.call(|| format!("f32({:x})", v.to_bits()))
        }
        fn f64(&mut self, v: f64) -> Result {
            self.call(|| format!("f64({:x})", v.to_bits()))
        }
        marks!(
            null, binary_end, map_key_begin, map_key_end, map_value_begin, map_value_end, map_end,
            seq_value_begin, seq_value_end, seq_end,
        );
        hinted!(binary_begin, map_begin, seq_begin,);
        tagged!(enum_begin, enum_end, tagged_begin, tagged_end, tag, record_end, tuple_end, record_tuple_end,);
        tagged_hinted!(record_begin, tuple_begin, record_tuple_begin,);

        fn text_begin(&mut self, n: Option<usize>) -> Result {
            if self.merge {
                self.text.clear();
                return Ok(());
            }
            self.call(|| format!("text_begin({n:?})"))
        }
        fn text_fragment(&mut self, f: &'sval str) -> Result {
            if self.merge {
                self.text.push_str(f);
                return Ok(());
            }
            self.borrowed.push((f.as_ptr() as usize, f.len()));
            self.call(|| format!("text_fragment({f:?})"))
        }
        fn text_fragment_computed(&mut self, f: &str) -> Result {
            if self.merge {
                self.text.push_str(f);
                return Ok(());
            }
            self.call(|| format!("text_fragment_computed({f:?})"))
        }
        fn text_end(&mut self) -> Result {
            if self.merge {
                let text = std::mem::take(&mut self.text);
                return self.call(|| format!("text({text:?})"));
            }
            self.call(|| "text_end".into())
        }
        fn binary_fragment(&mut self, f: &'sval [u8]) -> Result {
            let merge = self.merge;
            self.call(|| format!("binary_fragment{}({f:?})", if merge { "_computed" } else { "" }))
        }
        fn binary_fragment_computed(&mut self, f: &[u8]) -> Result {
            self.call(|| format!("binary_fragment_computed({f:?})"))
        }
        fn tag_hint(&mut self, a: &Tag) -> Result {
            self.call(|| format!("tag_hint({a:?})"))
        }
        fn record_value_begin(&mut self, a: Option<&Tag>, b: &Label) -> Result {
            self.call(|| format!("record_value_begin({},{})", t(a), l(Some(b))))
        }
        fn record_value_end(&mut self, a: Option<&Tag>, b: &Label) -> Result {
            self.call(|| format!("record_value_end({},{})", t(a), l(Some(b))))
        }
        fn tuple_value_begin(&mut self, a: Option<&Tag>, b: &Index) -> Result {
            self.call(|| format!("tuple_value_begin({},{})", t(a), i(Some(b))))
        }
        fn tuple_value_end(&mut self, a: Option<&Tag>, b: &Index) -> Result {
            self.call(|| format!("tuple_value_end({},{})", t(a), i(Some(b))))
        }
        fn record_tuple_value_begin(&mut self, a: Option<&Tag>, b: &Label, c: &Index) -> Result {
            self.call(|| format!("record_tuple_value_begin({},{},{})", t(a), l(Some(b)), i(Some(c))))
        }
        fn record_tuple_value_end(&mut self, a: Option<&Tag>, b: &Label, c: &Index) -> Result {
            self.call(|| format!("record_tuple_value_end({},{},{})", t(a), l(Some(b)), i(Some(c))))
        }
    }

    enum Frame {
        Seq(Vec<Doc>),
        Map(Vec<(Doc, Doc)>, Option<Doc>),
        /// A value wrapped as the variant of an enum
        Variant(String),
        /// An enum whose variant hasn't started yet
        Enum,
        /// A tag that doesn't show in the document
        Plain,
    }

    /// Builds the document a stream sees, rejecting ill-formed streams.
    #[derive(Default)]
    pub struct ToDoc {
        stack: Vec<Frame>,
        text: Option<String>,
        bytes: Option<Vec<u8>>,
        done: Option<Doc>,
    }

    pub fn doc(v: &(impl Value + ?Sized)) -> std::result::Result<Doc, &'static str> {
        let mut d = ToDoc::default();
        v.stream(&mut d).map_err(|_| "stream failed")?;
        if !d.stack.is_empty() {
            return Err("unbalanced stream");
        }
        d.done.ok_or("no value streamed")
    }

    impl ToDoc {
        fn emit(&mut self, d: Doc) -> Result {
            match self.stack.last_mut() {
                None => {
                    if self.done.is_some() {
                        return sval::error();
                    }
                    self.done = Some(d);
                }
                Some(Frame::Seq(s)) => s.push(d),
                Some(Frame::Map(m, k)) => match k.take() {
                    None => *k = Some(d),
                    Some(key) => m.push((key, d)),
                },
                Some(Frame::Variant(_)) => {
                    let Some(Frame::Variant(v)) = self.stack.pop() else { unreachable!() };
                    self.stack.push(Frame::Plain);
                    // Replace the pending wrapper: emit below it
                    let plain = self.stack.pop().unwrap();
                    let r = self.emit(Doc::Map(vec![(Doc::Text(v), d)]));
                    self.stack.push(plain);
                    return r;
                }
                Some(Frame::Enum) | Some(Frame::Plain) => {
                    let f = self.stack.pop().unwrap();
                    let r = self.emit(d);
                    self.stack.push(f);
                    return r;
                }
            }
            Ok(())
        }

        fn open(&mut self, label: Option<&Label>) {
            let f = match (self.stack.last(), label) {
                (Some(Frame::Enum), Some(label)) => Frame::Variant(label.as_str().to_owned()),
                _ => Frame::Plain,
            };
            self.stack.push(f);
        }

        fn close(&mut self) -> Result {
            match self.stack.pop() {
                Some(Frame::Plain) => Ok(()),
                _ => sval::error(),
            }
        }

        fn close_seq(&mut self) -> Result {
            match self.stack.pop() {
                Some(Frame::Seq(s)) => self.emit(Doc::Seq(s)),
                _ => sval::error(),
            }
        }

        fn close_map(&mut self) -> Result {
            match self.stack.pop() {
                Some(Frame::Map(m, None)) => self.emit(Doc::Map(m)),
                _ => sval::error(),
            }
        }
    }

    macro_rules! ints {
        ($($f:ident $t:ty,)*) => { $(
            fn $f(&mut self, v: $t) -> Result { self.emit(Doc::Int(v.to_string())) }
        )* };
    }

    impl<'sval> Stream<'sval> for ToDoc {
        ints!(
            u8 u8, u16 u16, u32 u32, u64 u64, u128 u128,
            i8 i8, i16 i16, i32 i32, i64 i64, i128 i128,
        );
        fn null(&mut self) -> Result {
            self.emit(Doc::Null)
        }
        fn bool(&mut self, v: bool) -> Result {
            self.emit(Doc::Bool(v))
        }
        fn f32(&mut self, v: f32) -> Result {
            self.emit(Doc::Float((v as f64).to_bits()))
        }
        fn f64(&mut self, v: f64) -> Result {
            self.emit(Doc::Float(v.to_bits()))
        }
        fn text_begin(&mut self, _: Option<usize>) -> Result {
            if self.text.is_some() {
                return sval::error();
            }
            self.text = Some(String::new());
            Ok(())
        }
        fn text_fragment_computed(&mut self, f: &str) -> Result {
            match &mut self.text {
                Some(t) => t.push_str(f),
                None => return sval::error(),
            }
            Ok(())
        }
        fn text_end(&mut self) -> Result {
            match self.text.take() {
                Some(t) => self.emit(Doc::Text(t)),
                None => sval::error(),
            }
        }
        fn binary_begin(&mut self, _: Option<usize>) -> Result {
            self.bytes = Some(vec![]);
            Ok(())
        }
        fn binary_fragment_computed(&mut self, f: &[u8]) -> Result {
            match &mut self.bytes {
                Some(t) => t.extend_from_slice(f),
                None => return sval::error(),
            }
            Ok(())
        }
        fn binary_end(&mut self) -> Result {
            match self.bytes.take() {
                Some(t) => self.emit(Doc::Bytes(t)),
                None => sval::error(),
            }
        }
        fn seq_begin(&mut self, _: Option<usize>) -> Result {
            self.stack.push(Frame::Seq(vec![]));
            Ok(())
        }
        fn seq_value_begin(&mut self) -> Result {
            Ok(())
        }
        fn seq_value_end(&mut self) -> Result {
            Ok(())
        }
        fn seq_end(&mut self) -> Result {
            self.close_seq()
        }
        fn map_begin(&mut self, _: Option<usize>) -> Result {
            self.stack.push(Frame::Map(vec![], None));
            Ok(())
        }
        fn map_key_begin(&mut self) -> Result {
            Ok(())
        }
        fn map_key_end(&mut self) -> Result {
            Ok(())
        }
        fn map_value_begin(&mut self) -> Result {
            Ok(())
        }
        fn map_value_end(&mut self) -> Result {
            Ok(())
        }
        fn map_end(&mut self) -> Result {
            self.close_map()
        }
        fn enum_begin(&mut self, _: Option<&Tag>, label: Option<&Label>, _: Option<&Index>) -> Result {
            // An enum inside an enum is a variant itself
            if let (Some(Frame::Enum), Some(label)) = (self.stack.last(), label) {
                let v = Frame::Variant(label.as_str().to_owned());
                self.stack.push(v);
            }
            self.stack.push(Frame::Enum);
            Ok(())
        }
        fn enum_end(&mut self, _: Option<&Tag>, label: Option<&Label>, _: Option<&Index>) -> Result {
            let _ = label;
            match self.stack.pop() {
                Some(Frame::Enum) => {}
                _ => return sval::error(),
            }
            Ok(())
        }
        fn tagged_begin(&mut self, _: Option<&Tag>, label: Option<&Label>, _: Option<&Index>) -> Result {
            self.open(label);
            Ok(())
        }
        fn tagged_end(&mut self, _: Option<&Tag>, _: Option<&Label>, _: Option<&Index>) -> Result {
            match self.stack.pop() {
                Some(Frame::Plain) | Some(Frame::Variant(_)) => Ok(()),
                _ => sval::error(),
            }
        }
        fn tag(&mut self, tag: Option<&Tag>, label: Option<&Label>, _: Option<&Index>) -> Result {
            if tag == Some(&sval::tags::RUST_OPTION_NONE) {
                return self.emit(Doc::Null);
            }
            match label {
                Some(label) => self.emit(Doc::Text(label.as_str().to_owned())),
                None => self.emit(Doc::Null),
            }
        }
        fn record_begin(
            &mut self,
            _: Option<&Tag>,
            label: Option<&Label>,
            _: Option<&Index>,
            _: Option<usize>,
        ) -> Result {
            self.open(label);
            self.stack.push(Frame::Map(vec![], None));
            Ok(())
        }
        fn record_value_begin(&mut self, _: Option<&Tag>, label: &Label) -> Result {
            self.emit(Doc::Text(label.as_str().to_owned()))
        }
        fn record_value_end(&mut self, _: Option<&Tag>, _: &Label) -> Result {
            Ok(())
        }
        fn record_end(&mut self, _: Option<&Tag>, _: Option<&Label>, _: Option<&Index>) -> Result {
            let Some(Frame::Map(m, None)) = self.stack.pop() else {
                return sval::error();
            };
            self.finish_open(Doc::Map(m))
        }
        fn tuple_begin(
            &mut self,
            _: Option<&Tag>,
            label: Option<&Label>,
            _: Option<&Index>,
            _: Option<usize>,
        ) -> Result {
            self.open(label);
            self.stack.push(Frame::Seq(vec![]));
            Ok(())
        }
        fn tuple_value_begin(&mut self, _: Option<&Tag>, _: &Index) -> Result {
            Ok(())
        }
        fn tuple_value_end(&mut self, _: Option<&Tag>, _: &Index) -> Result {
            Ok(())
        }
        fn tuple_end(&mut self, _: Option<&Tag>, _: Option<&Label>, _: Option<&Index>) -> Result {
            let Some(Frame::Seq(s)) = self.stack.pop() else {
                return sval::error();
            };
            self.finish_open(Doc::Seq(s))
        }
        fn record_tuple_begin(
            &mut self,
            a: Option<&Tag>,
            b: Option<&Label>,
            c: Option<&Index>,
            n: Option<usize>,
        ) -> Result {
            self.record_begin(a, b, c, n)
        }
        fn record_tuple_value_begin(&mut self, a: Option<&Tag>, b: &Label, _: &Index) -> Result {
            self.record_value_begin(a, b)
        }
        fn record_tuple_value_end(&mut self, a: Option<&Tag>, b: &Label, _: &Index) -> Result {
            self.record_value_end(a, b)
        }
        fn record_tuple_end(&mut self, a: Option<&Tag>, b: Option<&Label>, c: Option<&Index>) -> Result {
            self.record_end(a, b, c)
        }
    }

    impl ToDoc {
        fn finish_open(&mut self, d: Doc) -> Result {
            match self.stack.last() {
                Some(Frame::Variant(_)) => {
                    let Some(Frame::Variant(v)) = self.stack.pop() else { unreachable!() };
                    self.emit(Doc::Map(vec![(Doc::Text(v), d)]))
                }
                _ => {
                    self.close()?;
                    self.emit(d)
                }
            }
        }
    }
}
