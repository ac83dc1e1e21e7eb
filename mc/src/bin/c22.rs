//! No use of bags touches memory it shouldn't, or leaves memory behind.
//!
//! The walk is executed by an interpreter that stops at the first invalid access;
//! the walk itself watches what is allocated.

use mc::{
    engine::{run, Mc},
    routes::{Prim, With},
    spec::{small, specs, Space, Spec, Txt},
};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    fmt::{self, Write as _},
    num::Wrapping,
    sync::atomic::{AtomicI64, Ordering},
};
use value_bag::{fill::Slot, visit::Visit, Error, ValueBag};

/// What was read.
type Sum = Wrapping<u64>;

/// Counts what isn't freed.
struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// One process explores a part of the cases.
struct Shard {
    index: usize,
    of: usize,
    at: usize,
}

impl Shard {
    fn mine(&mut self) -> bool {
        self.at += 1;
        self.at % self.of == self.index
    }
}

/// Whether the bounds are the wide ones.
fn deep(mc: &Mc) -> bool {
    mc.thorough() || cfg!(not(miri))
}

/// Read text for what it is.
fn add(sum: Sum, s: &str) -> Sum {
    assert!(std::str::from_utf8(s.as_bytes()).is_ok(), "text that isn't text");
    let ends = s.as_bytes().first().map_or(0, |b| *b as u64) + s.as_bytes().last().map_or(0, |b| *b as u64);
    sum * Wrapping(31) + Wrapping(s.len() as u64 * 7 + ends)
}

/// Reads whatever it's given, and little else: every instruction counts here.
#[derive(Default)]
struct Reader {
    sum: Sum,
    stops: bool,
}

impl Reader {
    fn number(&mut self, v: u64) {
        self.sum = self.sum * Wrapping(31) + Wrapping(v);
    }

    fn text(&mut self, v: &str) {
        self.sum = add(self.sum, v);
    }
}

impl fmt::Write for Reader {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.text(s);
        if self.stops {
            return Err(fmt::Error);
        }
        Ok(())
    }
}

impl<'v> Visit<'v> for Reader {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        write!(self, "{v}").map_err(|_| Error::msg("stopped"))
    }
    fn visit_u128(&mut self, v: u128) -> Result<(), Error> {
        self.number(v as u64);
        Ok(())
    }
    fn visit_i128(&mut self, v: i128) -> Result<(), Error> {
        self.number(v as u64);
        Ok(())
    }
    fn visit_f64(&mut self, v: f64) -> Result<(), Error> {
        self.number(v.to_bits());
        Ok(())
    }
    fn visit_bool(&mut self, v: bool) -> Result<(), Error> {
        self.number(v as u64);
        Ok(())
    }
    fn visit_char(&mut self, v: char) -> Result<(), Error> {
        self.number(v as u64);
        Ok(())
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        self.text(v);
        Ok(())
    }
    #[cfg(feature = "error")]
    fn visit_error(&mut self, e: &(dyn std::error::Error + 'static)) -> Result<(), Error> {
        self.error(e);
        Ok(())
    }
}

#[cfg(feature = "error")]
impl Reader {
    fn error(&mut self, e: &(dyn std::error::Error + 'static)) {
        let mut next = Some(e);
        while let Some(e) = next {
            let _ = write!(self, "{e}");
            next = e.source();
        }
    }
}

#[cfg(feature = "sval2")]
impl<'sval> sval::Stream<'sval> for Reader {
    fn null(&mut self) -> sval::Result {
        self.number(1);
        Ok(())
    }
    fn bool(&mut self, v: bool) -> sval::Result {
        self.number(v as u64);
        Ok(())
    }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }
    fn text_fragment_computed(&mut self, v: &str) -> sval::Result {
        self.text(v);
        Ok(())
    }
    fn text_end(&mut self) -> sval::Result {
        Ok(())
    }
    fn u64(&mut self, v: u64) -> sval::Result {
        self.number(v);
        Ok(())
    }
    fn i64(&mut self, v: i64) -> sval::Result {
        self.number(v as u64);
        Ok(())
    }
    fn u128(&mut self, v: u128) -> sval::Result {
        self.number(v as u64);
        Ok(())
    }
    fn i128(&mut self, v: i128) -> sval::Result {
        self.number(v as u64);
        Ok(())
    }
    fn f64(&mut self, v: f64) -> sval::Result {
        self.number(v.to_bits());
        Ok(())
    }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        self.number(2);
        Ok(())
    }
    fn seq_value_end(&mut self) -> sval::Result {
        Ok(())
    }
    fn seq_end(&mut self) -> sval::Result {
        self.number(3);
        Ok(())
    }
}

#[cfg(feature = "serde1")]
mod ser {
    use super::Reader;
    use serde::ser::*;

    type Done = Result<(), super::Stopped>;

    macro_rules! leaves {
        ($($f:ident($t:ty) $v:ident => $e:expr;)*) => { $(
            fn $f(self, $v: $t) -> Done {
                self.number($e);
                Ok(())
            }
        )* };
    }

    impl Serializer for &mut Reader {
        type Ok = ();
        type Error = super::Stopped;
        type SerializeSeq = Self;
        type SerializeTuple = Self;
        type SerializeTupleStruct = Self;
        type SerializeTupleVariant = Self;
        type SerializeMap = Self;
        type SerializeStruct = Self;
        type SerializeStructVariant = Self;

        leaves! {
            serialize_bool(bool) v => v as u64;
            serialize_i8(i8) v => v as u64;
            serialize_i16(i16) v => v as u64;
            serialize_i32(i32) v => v as u64;
            serialize_i64(i64) v => v as u64;
            serialize_i128(i128) v => v as u64;
            serialize_u8(u8) v => v as u64;
            serialize_u16(u16) v => v as u64;
            serialize_u32(u32) v => v as u64;
            serialize_u64(u64) v => v;
            serialize_u128(u128) v => v as u64;
            serialize_f32(f32) v => v.to_bits() as u64;
            serialize_f64(f64) v => v.to_bits();
            serialize_char(char) v => v as u64;
            serialize_bytes(&[u8]) v => v.iter().map(|b| *b as u64).sum();
            serialize_unit_struct(&'static str) v => v.len() as u64;
        }

        fn serialize_str(self, v: &str) -> Done {
            self.text(v);
            Ok(())
        }
        fn serialize_none(self) -> Done {
            Ok(())
        }
        fn serialize_unit(self) -> Done {
            Ok(())
        }
        fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Done {
            v.serialize(self)
        }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Done {
            v.serialize(self)
        }
        fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Done {
            self.text(n);
            Ok(())
        }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Done {
            self.text(n);
            v.serialize(self)
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self, super::Stopped> {
            Ok(self)
        }
        fn serialize_tuple(self, _: usize) -> Result<Self, super::Stopped> {
            Ok(self)
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, super::Stopped> {
            Ok(self)
        }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, super::Stopped> {
            Ok(self)
        }
        fn serialize_map(self, _: Option<usize>) -> Result<Self, super::Stopped> {
            Ok(self)
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, super::Stopped> {
            Ok(self)
        }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, super::Stopped> {
            Ok(self)
        }
        fn collect_str<T: std::fmt::Display + ?Sized>(self, v: &T) -> Done {
            use std::fmt::Write as _;
            write!(self, "{v}").map_err(|_| super::Stopped)
        }
    }

    macro_rules! compound {
        ($($t:ident $f:ident($($a:ident: $at:ty),*);)*) => { $(
            impl $t for &mut Reader {
                type Ok = ();
                type Error = super::Stopped;
                fn $f<T: Serialize + ?Sized>(&mut self, $($a: $at,)* v: &T) -> Done {
                    $(self.text($a);)*
                    v.serialize(&mut **self)
                }
                fn end(self) -> Done {
                    Ok(())
                }
            }
        )* };
    }

    compound! {
        SerializeSeq serialize_element();
        SerializeTuple serialize_element();
        SerializeTupleStruct serialize_field();
        SerializeTupleVariant serialize_field();
        SerializeStruct serialize_field(n: &'static str);
        SerializeStructVariant serialize_field(n: &'static str);
    }

    impl SerializeMap for &mut Reader {
        type Ok = ();
        type Error = super::Stopped;
        fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Done {
            v.serialize(&mut **self)
        }
        fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Done {
            v.serialize(&mut **self)
        }
        fn end(self) -> Done {
            Ok(())
        }
    }
}

#[cfg(feature = "serde1")]
#[derive(Debug)]
struct Stopped;

#[cfg(feature = "serde1")]
impl fmt::Display for Stopped {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("stopped")
    }
}

#[cfg(feature = "serde1")]
impl std::error::Error for Stopped {}

#[cfg(feature = "serde1")]
impl serde::ser::Error for Stopped {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Stopped
    }
}

/// A way of reading a bag.
type Lens = for<'a, 'b> fn(&'a ValueBag<'b>, &mut Reader);

const LENSES: &[(&str, Lens)] = &[
    ("casts", |b, r| {
        r.number(b.to_u64().unwrap_or(1));
        r.number(b.to_i128().unwrap_or(2) as u64);
        r.number(b.as_f64().to_bits());
        r.number(b.to_bool().map_or(3, |v| v as u64));
        r.number(b.to_char().map_or(4, |v| v as u64));
    }),
    #[cfg(feature = "alloc")]
    ("text", |b, r| r.text(&b.to_str().unwrap_or_default())),
    ("borrowed", |b, r| r.text(b.to_borrowed_str().unwrap_or(""))),
    ("display", |b, r| write!(r, "{b}").unwrap_or(())),
    ("debug", |b, r| write!(r, "{b:?}").unwrap_or(())),
    ("visit", |b, r| drop(b.visit(r))),
    #[cfg(feature = "sval2")]
    ("sval", |b, r| drop(sval::Value::stream(b, r))),
    #[cfg(feature = "sval2")]
    ("sval_ref", |b, r| drop(sval_ref::stream_ref(r, b))),
    #[cfg(feature = "serde1")]
    ("serde", |b, r| drop(serde::Serialize::serialize(b, r))),
    #[cfg(feature = "seq")]
    ("numbers", |b, r| {
        for v in b.to_u64_seq::<Vec<_>>().iter().flatten() {
            r.number(v.unwrap_or(5));
        }
    }),
    #[cfg(all(feature = "seq", feature = "alloc"))]
    ("texts", |b, r| {
        for v in b.to_str_seq::<Vec<_>>().iter().flatten().flatten() {
            r.text(v);
        }
    }),
    #[cfg(feature = "seq")]
    ("borrowed_texts", |b, r| {
        for v in b.to_borrowed_str_seq::<Vec<_>>().iter().flatten().flatten() {
            r.text(v);
        }
    }),
    #[cfg(feature = "error")]
    ("error", |b, r| {
        if let Some(e) = b.to_borrowed_error() {
            r.error(e);
        }
    }),
];

/// Read a bag in all ways.
fn look(bag: &ValueBag) -> Sum {
    let mut r = Reader::default();
    for (_, f) in LENSES {
        f(bag, &mut r);
    }
    r.sum
}

/// Read a bag in one way.
fn glance(bag: &ValueBag, how: &str) -> Sum {
    let mut r = Reader::default();
    for (_, f) in LENSES.iter().filter(|l| l.0 == how) {
        f(bag, &mut r);
    }
    r.sum
}

/// Consumes text that is expected, without keeping it.
struct Expects<'a>(&'a str);

impl fmt::Write for Expects<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 = self.0.strip_prefix(s).ok_or(fmt::Error)?;
        Ok(())
    }
}

/// Run a case, which may be done more than once, and see that it leaves nothing.
fn case(mc: &mut Mc, name: impl Into<mc::engine::Seg>, mut f: impl FnMut() -> Sum) {
    mc.guard_at(name, |mc| {
        mc.state();
        mc.step();
        let mut left = 0;
        let mut sum = Wrapping(0);
        // What is set up once isn't left behind
        for _ in 0..3 {
            let before = LIVE.load(Ordering::Relaxed);
            sum = f();
            left = LIVE.load(Ordering::Relaxed) - before;
            if left == 0 {
                break;
            }
        }
        mc.eq("left", &left, &0);
        mc.outcome(&sum.0.to_le_bytes());
        mc.trace();
    });
}

/// Every recipe, looked at in every kind of storage.
fn values(mc: &mut Mc, sh: &mut Shard, all: &[Spec]) {
    for s in all {
        if !sh.mine() {
            continue;
        }
        if mc.expired() {
            return;
        }
        mc.enter(s.name());
        case(mc, "borrowed", || {
            let bag = s.bag();
            let c = bag.clone();
            let mut sum = look(&bag);
            sum += glance(&c.by_ref(), "display");
            drop(bag);
            // What is borrowed is used when the bag is gone
            let mut kept = Keeps::default();
            let _ = c.visit(&mut kept);
            let text = c.to_borrowed_str();
            drop(c);
            sum = add(sum, kept.0.unwrap_or(""));
            add(sum, text.unwrap_or(""))
        });
        #[cfg(feature = "owned")]
        {
            case(mc, "owned", || {
                let o = s.bag().to_owned();
                let c = o.clone();
                let h = o.by_ref().to_shared();
                drop(o);
                let sum = glance(&c.by_ref(), "display");
                let h = h.into_shared();
                drop(c);
                sum + glance(&h.clone().by_ref(), "borrowed")
            });
            // Outliving what it comes from
            mc.guard_at("outlives", |mc| {
                let s = mc::spec::again(s);
                let o = s.bag().to_owned();
                let h = s.bag().to_shared();
                drop(s);
                let sum = look(&o.by_ref()) + glance(&h.by_ref(), "display");
                mc.step();
                mc.outcome(&sum.0.to_le_bytes());
            });
        }
        mc.leave();
    }
}

/// Text of a length, made of characters of a width as far as they fit.
fn text(len: usize, width: usize) -> String {
    let c = ['a', 'é', '€', '😀'][width - 1];
    let mut s: String = (0..len / width).map(|_| c).collect();
    while s.len() < len {
        s.push('z');
    }
    s
}

/// Text of every length, in every storage, written at once and in parts.
fn texts(mc: &mut Mc, sh: &mut Shard) {
    let near = |n: usize| [0usize, 22, 46, 64].iter().any(|l| n.abs_diff(*l) <= 2);
    let deep = deep(mc);
    for len in 0..=if deep { 140 } else { 70 } {
        if !near(len) && !deep && len % 8 != 0 {
            continue;
        }
        for width in 1..=4 {
            if !sh.mine() {
                continue;
            }
            if mc.expired() {
                return;
            }
            let t = text(len, width);
            // What is read beside a buffer, but not outside of any, is other text
            let look = |b: &ValueBag| {
                let mut rest = Expects(&t);
                assert!(write!(rest, "{b}").is_ok() && rest.0.is_empty(), "other text than what was put in");
                glance(b, "borrowed") + glance(b, "text")
            };
            mc.enter(format!("{len}x{width}"));
            case(mc, "whole", || {
                let mut sum = look(&ValueBag::from(t.as_str()));
                let shown = Txt::raw([t.as_str()]);
                for bag in [ValueBag::from(t.as_str()), ValueBag::capture_display(&shown), ValueBag::capture_display(&t)] {
                    sum += look(&bag);
                    #[cfg(feature = "owned")]
                    {
                        let o = bag.to_owned();
                        let c = o.clone();
                        let s = o.clone().into_shared();
                        drop(o);
                        sum += look(&c.by_ref()) + look(&s.by_ref());
                        sum += look(&c.by_ref().to_shared().by_ref());
                    }
                }
                sum
            });
            #[cfg(feature = "owned")]
            for cut in 0..=len {
                if !t.is_char_boundary(cut) || !(deep || near(cut) || near(len - cut)) {
                    continue;
                }
                case(mc, format!("cut{cut}"), || {
                    let parts = Txt::raw([&t[..cut], &t[cut..]]);
                    let mut sum = look(&ValueBag::from_display(&parts).to_owned().by_ref());
                    sum += look(&ValueBag::from_fill(&|s: Slot| s.fill_display(&parts)).to_shared().by_ref());
                    sum
                });
            }
            mc.leave();
        }
    }
}

/// Something that isn't a primitive, laid out like one.
#[derive(Clone, Debug)]
struct Like<T>(T);

impl<T: fmt::Debug> fmt::Display for Like<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

#[cfg(feature = "sval2")]
impl<T> sval::Value for Like<T> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.u64(1)
    }
}

#[cfg(feature = "serde1")]
impl<T> serde::Serialize for Like<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(1)
    }
}

/// Ask for an object at every type, and read what is given.
fn downcasts(bag: &ValueBag) -> Sum {
    let mut sum = Wrapping(0);
    macro_rules! at {
        ($($t:ty)*) => { $(
            if let Some(v) = bag.downcast_ref::<$t>() {
                sum = add(sum, &format!("{v:?}"));
            }
            if let Some(v) = bag.downcast_ref::<Like<$t>>() {
                sum = add(sum, &format!("{v:?}"));
            }
            if let Some(v) = bag.downcast_ref::<Option<$t>>() {
                sum = add(sum, &format!("{v:?}"));
            }
        )* };
    }
    at!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 bool char &'static str String Box<u64> (u32, u32) [u8; 8]);
    sum
}

/// Every primitive through every way in, and what looks like one.
fn captures(mc: &mut Mc, sh: &mut Shard) {
    macro_rules! values {
        ($($t:ident [$($v:expr),*];)*) => { $( for v in [$($v),*] {
            let v: $t = v;
            if sh.mine() {
                mc.enter(format!("{}/{v:?}", stringify!($t)));
                case(mc, "routes", || {
                    let mut sum = Wrapping(0);
                    let f: With = &mut |_, bag| sum += glance(bag, "casts") + glance(bag, "display") + downcasts(bag);
                    v.routes(f);
                    sum
                });
                like(mc, Like(v));
                like(mc, Like(Some(Like(v))));
                for o in [Some(v), None] {
                    optional(mc, o);
                }
                mc.leave();
            }
        } )* };
    }
    values!(
        u8 [0, u8::MAX];
        u16 [1, u16::MAX];
        u32 [1, u32::MAX];
        u64 [0, u64::MAX];
        usize [1, usize::MAX];
        u128 [1, u128::MAX];
        i8 [i8::MIN, 1];
        i16 [i16::MIN, 1];
        i32 [i32::MIN, 1];
        i64 [i64::MIN, 1];
        isize [isize::MIN, 1];
        i128 [i128::MIN, 1];
        f32 [1.5, f32::NAN];
        f64 [-0.0, f64::MAX];
        bool [true, false];
        char ['\0', '\u{10ffff}'];
    );
    if sh.mine() {
        like(mc, Like("text"));
        like(mc, Like(String::from("a string of its own")));
        like(mc, Like([1u8; 8]));
        like(mc, Like((1u32, 2u32)));
        like(mc, Like(Box::new(1u64)));
    }
}

/// An optional primitive, also one that has no room for a tag.
fn optional<T: fmt::Debug + Copy + Send + Sync + 'static>(mc: &mut Mc, v: Option<T>) {
    case(mc, format!("optional {v:?}"), || {
        let mut bags = vec![ValueBag::capture_debug(&v)];
        bags.extend(ValueBag::try_capture(&v));
        #[cfg(feature = "owned")]
        {
            bags.push(ValueBag::capture_shared_debug(v));
            bags.extend(ValueBag::try_capture_owned(&v));
        }
        let mut sum = Wrapping(0);
        for b in &bags {
            sum += look(b) + downcasts(b);
            #[cfg(feature = "owned")]
            {
                sum += look(&b.to_owned().into_shared().by_ref());
            }
        }
        sum
    });
}

fn like<T: fmt::Debug + Clone + Send + Sync + 'static>(mc: &mut Mc, v: Like<T>) {
    case(mc, format!("like {v:?} {}", std::any::type_name::<T>()), || {
        let mut bags = vec![ValueBag::capture_debug(&v), ValueBag::capture_display(&v)];
        bags.extend(ValueBag::try_capture(&v));
        #[cfg(feature = "sval2")]
        bags.push(ValueBag::capture_sval2(&v));
        #[cfg(feature = "serde1")]
        bags.push(ValueBag::capture_serde1(&v));
        #[cfg(feature = "owned")]
        {
            bags.push(ValueBag::capture_shared_debug(v.clone()));
            bags.push(ValueBag::capture_shared_display(v.clone()));
            bags.extend(ValueBag::try_capture_owned(&v));
            #[cfg(feature = "sval2")]
            bags.push(ValueBag::capture_shared_sval2(v.clone()));
            #[cfg(feature = "serde1")]
            bags.push(ValueBag::capture_shared_serde1(v.clone()));
        }
        let mut sum = Wrapping(0);
        for b in &bags {
            sum += downcasts(b) + glance(&b.by_ref(), "visit");
            #[cfg(feature = "owned")]
            {
                let o = b.to_owned();
                sum += downcasts(&o.by_ref());
                sum += downcasts(&o.into_shared().by_ref());
            }
        }
        sum
    });
}

/// Slices of every primitive, in every form of them.
#[cfg(feature = "seq")]
fn slices(mc: &mut Mc, sh: &mut Shard) {
    macro_rules! slices {
        ($($t:ident [$($v:expr),*];)*) => { $( if sh.mine() {
            for n in 0..=3 {
                case(mc, format!("[{}; {n}]", stringify!($t)), || {
                    let v: Vec<$t> = [$($v),*][..n].to_vec();
                    let s: &[$t] = &v;
                    let mut sum = look(&ValueBag::from(&s)) + look(&ValueBag::from(Some(&s)));
                    sum += look(&ValueBag::from_seq_slice::<Vec<$t>, $t>(&v));
                    sum += look(&ValueBag::from_fill(&|s: Slot| s.fill_seq_slice::<[$t; 3], $t>(&[$($v),*])));
                    #[cfg(feature = "alloc")]
                    {
                        sum += look(&ValueBag::from(&v));
                    }
                    if n == 3 {
                        let a: [$t; 3] = [$($v),*];
                        let bag = ValueBag::from(&a);
                        sum += look(&bag);
                        #[cfg(feature = "owned")]
                        {
                            let (o, h) = (bag.to_owned(), bag.to_shared());
                            drop(bag);
                            sum += look(&o.clone().by_ref());
                            drop(o);
                            sum += look(&h.by_ref());
                        }
                    }
                    #[cfg(feature = "owned")]
                    {
                        let bag = ValueBag::capture_shared_seq_slice::<Vec<$t>, $t>(v);
                        let o = bag.to_owned();
                        sum += look(&bag);
                        drop(bag);
                        sum += look(&o.by_ref());
                    }
                    sum
                });
            }
        } )* };
    }
    slices!(
        u8 [1, 2, 3];
        u16 [1, 2, 3];
        u32 [1, 2, 3];
        u64 [1, 2, 3];
        usize [1, 2, 3];
        u128 [1, 2, 3];
        i8 [1, 2, 3];
        i16 [1, 2, 3];
        i32 [1, 2, 3];
        i64 [1, 2, 3];
        isize [1, 2, 3];
        i128 [1, 2, 3];
        f32 [1.0, 2.0, 3.0];
        f64 [1.0, 2.0, 3.0];
        bool [true, false, true];
        char ['a', 'é', '😀'];
    );
    if sh.mine() {
        case(mc, "borrowed texts", || {
            let owner = vec![String::from("first"), String::new(), String::from("a third one that is longer than the others")];
            let v: Vec<&str> = owner.iter().map(|s| s.as_str()).collect();
            let s: &[&str] = &v;
            // What is borrowed lives as long as the text does
            let texts = {
                let bag = ValueBag::from(&s);
                let c = bag.clone();
                drop(bag);
                c.to_borrowed_str_seq::<Vec<_>>()
            };
            let mut sum = Wrapping(0);
            for t in texts.iter().flatten().flatten() {
                sum = add(sum, t);
            }
            #[cfg(feature = "alloc")]
            {
                let texts = ValueBag::from(&owner).to_str_seq::<Vec<_>>();
                for t in texts.iter().flatten().flatten() {
                    sum = add(sum, t);
                }
            }
            let one = {
                let bag = ValueBag::from(owner[2].as_str());
                bag.clone().to_borrowed_str()
            };
            sum = add(sum, one.unwrap_or(""));
            sum + look(&ValueBag::from(&s))
        });
    }
}

#[cfg(feature = "owned")]
const HOWS: [(&str, for<'a, 'b> fn(&'a ValueBag<'b>) -> value_bag::OwnedValueBag); 2] =
    [("own", |b| b.to_owned()), ("share", |b| b.to_shared())];

/// Something for every kind of storage.
#[cfg(feature = "owned")]
fn storages() -> Vec<Spec> {
    let mut v = vec![
        Spec::Str("s".into()),
        Spec::Str("a string beyond the inline size of owned bags, both of them".into()),
        Spec::CapDebug(Txt::new("d")),
    ];
    let mut shared = vec![Spec::CapDebug(Txt::new("d")), Spec::CapDisplay(Txt::new("p"))];
    let list = [mc::tree::Tree::Seq(true, vec![mc::tree::Tree::Text("t".into())])];
    #[cfg(feature = "error")]
    shared.push(Spec::CapError(mc::spec::Er::chain(&["e", "cause"])));
    #[cfg(feature = "sval2")]
    shared.push(Spec::CapSval(list[0].clone()));
    #[cfg(feature = "serde1")]
    shared.push(Spec::CapSerde(list[0].clone()));
    #[cfg(feature = "seq")]
    shared.push(Spec::Seq(vec![Spec::Str("a".into()), Spec::U64(1)]));
    let _ = list;
    v.extend(shared.iter().skip(2).map(mc::spec::again));
    v.extend(shared.into_iter().filter_map(|s| mc::spec::shared("shared", s)));
    v
}

/// Handles of a value cloned, shared again and dropped in every order.
#[cfg(feature = "owned")]
fn handles(mc: &mut Mc, sh: &mut Shard) {
    use value_bag::OwnedValueBag;

    #[derive(Clone, Copy)]
    enum Op {
        Clone(usize),
        Own(usize),
        Share(usize),
        IntoShared(usize),
        Drop(usize),
    }

    fn walk(ops: &mut Vec<Op>, live: &mut Vec<bool>, depth: usize, f: &mut dyn FnMut(&[Op])) {
        if ops.len() == depth || live.iter().all(|l| !l) {
            f(ops);
            return;
        }
        for i in 0..live.len() {
            if !live[i] {
                continue;
            }
            for op in [Op::Clone, Op::Own, Op::Share, Op::IntoShared, Op::Drop] {
                let op = op(i);
                let grows = matches!(op, Op::Clone(_) | Op::Own(_) | Op::Share(_));
                if grows && live.iter().filter(|l| **l).count() >= 3 {
                    continue;
                }
                if grows {
                    live.push(true);
                }
                if let Op::Drop(_) = op {
                    live[i] = false;
                }
                ops.push(op);
                walk(ops, live, depth, f);
                ops.pop();
                live[i] = true;
                if grows {
                    live.pop();
                }
            }
        }
    }

    let depth = if deep(mc) { 4 } else { 3 };
    for s in storages() {
        mc.enter(s.name());
        walk(&mut Vec::new(), &mut vec![true], depth, &mut |ops| {
            if !sh.mine() || mc.expired() {
                return;
            }
            let mut name = String::new();
            for op in ops {
                let (c, i) = match op {
                    Op::Clone(i) => ('c', i),
                    Op::Own(i) => ('o', i),
                    Op::Share(i) => ('s', i),
                    Op::IntoShared(i) => ('i', i),
                    Op::Drop(i) => ('d', i),
                };
                name.push(c);
                name.push((b'0' + *i as u8) as char);
            }
            case(mc, name, || {
                let mut live: Vec<Option<OwnedValueBag>> = vec![Some(s.bag().to_owned())];
                for op in ops {
                    let at = |i: usize| live[i].as_ref().expect("live");
                    let new = match *op {
                        Op::Clone(i) => at(i).clone(),
                        Op::Own(i) => at(i).by_ref().to_owned(),
                        Op::Share(i) => at(i).by_ref().to_shared(),
                        Op::IntoShared(i) => {
                            live[i] = live[i].take().map(|o| o.into_shared());
                            continue;
                        }
                        Op::Drop(i) => {
                            live[i] = None;
                            continue;
                        }
                    };
                    live.push(Some(new));
                }
                let mut sum = Wrapping(0);
                for o in live.iter().flatten() {
                    sum += glance(&o.by_ref(), "display");
                }
                // The rest go one by one, each of what remains looked at
                while let Some(o) = live.pop() {
                    drop(o);
                    if let Some(Some(o)) = live.last() {
                        sum += glance(&o.by_ref(), "display");
                    }
                }
                sum
            });
        });
        mc.leave();
    }
}

/// Two threads using the same value at once, with nothing that orders them.
#[cfg(feature = "owned")]
fn threads(mc: &mut Mc, sh: &mut Shard) {
    use value_bag::OwnedValueBag;

    type Use = fn(&OwnedValueBag) -> Sum;
    const USES: &[(&str, Use)] = &[
        ("clone", |o| glance(&o.clone().by_ref(), "casts")),
        ("own", |o| glance(&o.by_ref().to_owned().by_ref(), "casts")),
        ("share", |o| glance(&o.clone().into_shared().by_ref().to_shared().by_ref(), "borrowed")),
        ("display", |o| glance(&o.by_ref(), "display")),
        ("visit", |o| glance(&o.by_ref(), "visit")),
        ("sval", |o| glance(&o.by_ref(), "sval")),
        ("serde", |o| glance(&o.by_ref(), "serde")),
        ("seq", |o| glance(&o.by_ref(), "texts")),
        ("downcast", |o| Wrapping(o.by_ref().downcast_ref::<Txt>().is_some() as u64)),
    ];

    for s in storages() {
        for (how, of) in HOWS {
            mc.enter(format!("{}/{how}", s.name()));
            for (i, a) in USES.iter().enumerate() {
                for b in &USES[i..] {
                    if !sh.mine() {
                        continue;
                    }
                    if mc.expired() {
                        return;
                    }
                    case(mc, format!("{}|{}", a.0, b.0), || {
                        let o = of(&s.bag());
                        let p = o.clone();
                        // One uses the handle itself, the other has its own
                        std::thread::scope(|t| {
                            let x = t.spawn(|| a.1(&o));
                            let y = t.spawn(move || {
                                let sum = b.1(&p);
                                drop(p);
                                sum
                            });
                            x.join().unwrap_or_default() + y.join().unwrap_or_default()
                        })
                    });
                }
            }
            mc.leave();
        }
    }
}

/// Something for every way of buffering, with text that fits some of the buffers.
fn buffered() -> Vec<Spec> {
    let mut v = small();
    for len in [23, 47, 65] {
        let t = text(len, 1);
        v.push(Spec::Display(Txt::raw([&t[..len / 2], &t[len / 2..]])));
        v.push(Spec::CapDebug(Txt::raw([t.as_str()])));
        v.push(Spec::Debug(Txt::failing(&t)));
        #[cfg(feature = "error")]
        v.push(Spec::CapError(mc::spec::Er::chain(&[&t, &t])));
        #[cfg(feature = "sval2")]
        v.push(Spec::CapSval(mc::tree::Tree::Seq(true, vec![mc::tree::Tree::Text(t.clone())])));
        #[cfg(feature = "serde1")]
        v.push(Spec::CapSerde(mc::tree::Tree::Seq(true, vec![mc::tree::Tree::Text(t.clone())])));
        #[cfg(feature = "seq")]
        v.push(Spec::Seq(vec![Spec::Str(t.clone()), Spec::CapDisplay(Txt::raw([t.as_str()]))]));
    }
    v
}

/// Two threads using values that have nothing to do with each other.
fn apart(mc: &mut Mc, sh: &mut Shard) {
    for i in 0..buffered().len() {
        if !sh.mine() {
            continue;
        }
        if mc.expired() {
            return;
        }
        mc.guard_at(i, |mc| {
            mc.state();
            let go = || {
                let s = buffered().swap_remove(i);
                let sum = look(&s.bag());
                let f = Spec::fill(s);
                #[cfg(feature = "owned")]
                let sum = sum + look(&f.bag().to_owned().by_ref()) + glance(&f.bag().to_shared().by_ref(), "display");
                sum + look(&f.bag())
            };
            let (x, y) = std::thread::scope(|t| {
                let (x, y) = (t.spawn(go), t.spawn(go));
                (x.join().unwrap_or_default(), y.join().unwrap_or_default())
            });
            mc.step();
            mc.eq("same", &x, &y);
            mc.trace();
        });
    }
}

/// A value that says something and then stops.
#[derive(Clone)]
struct Stops {
    panics: bool,
    says: String,
}

impl Stops {
    fn stop(&self) {
        if self.panics {
            std::panic::panic_any(7u8);
        }
    }
}

impl fmt::Debug for Stops {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.says)?;
        self.stop();
        Err(fmt::Error)
    }
}

impl fmt::Display for Stops {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}

impl std::error::Error for Stops {}

#[cfg(feature = "sval2")]
impl sval::Value for Stops {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.seq_begin(None)?;
        s.seq_value_begin()?;
        s.value(self.says.as_str())?;
        s.seq_value_end()?;
        s.seq_value_begin()?;
        s.value_computed(self.says.as_str())?;
        self.stop();
        sval::error()
    }
}

#[cfg(feature = "serde1")]
impl serde::Serialize for Stops {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error as _, SerializeSeq as _};
        let mut q = s.serialize_seq(None)?;
        q.serialize_element(self.says.as_str())?;
        self.stop();
        Err(S::Error::custom("stops"))
    }
}

#[cfg(feature = "seq")]
impl<'v> From<&'v Stops> for ValueBag<'v> {
    fn from(v: &'v Stops) -> Self {
        if v.says.is_empty() {
            v.stop();
        }
        ValueBag::capture_debug(v)
    }
}

/// Values that fail, and panic, while they're used; everything is looked at afterwards.
fn stopping(mc: &mut Mc, sh: &mut Shard) {
    use std::panic::{catch_unwind, AssertUnwindSafe};

    let look = |bag: &ValueBag| {
        let mut sum = Wrapping(0);
        for (_, f) in LENSES {
            for stops in [false, true] {
                let mut r = Reader { stops, ..Reader::default() };
                let _ = catch_unwind(AssertUnwindSafe(|| f(bag, &mut r)));
                sum += r.sum;
            }
        }
        #[cfg(feature = "owned")]
        for (_, how) in HOWS {
            if let Ok(b) = catch_unwind(AssertUnwindSafe(|| how(bag))) {
                for (_, f) in LENSES {
                    let mut r = Reader::default();
                    let _ = catch_unwind(AssertUnwindSafe(|| f(&b.by_ref(), &mut r)));
                    sum += r.sum;
                }
            }
        }
        sum
    };
    for panics in [false, true] {
        for len in [0, 1, 22, 46, 64, 65] {
            let v = Stops { panics, says: text(len, 1) };
            let mut go = |name: &'static str, bag: ValueBag| {
                if sh.mine() && !mc.expired() {
                    mc.guard_at(format!("{}{len}/{name}", if panics { "panics" } else { "fails" }), |mc| {
                        mc.state();
                        mc.step();
                        let mut left = 0;
                        let mut sum = Wrapping(0);
                        for _ in 0..3 {
                            let before = LIVE.load(Ordering::Relaxed);
                            sum = look(&bag);
                            left = LIVE.load(Ordering::Relaxed) - before;
                            if left == 0 {
                                break;
                            }
                        }
                        mc.eq("left", &left, &0);
                        mc.outcome(&sum.0.to_le_bytes());
                        mc.trace();
                    });
                }
            };
            go("capture_debug", ValueBag::capture_debug(&v));
            go("from_display", ValueBag::from_display(&v));
            go("fill", ValueBag::from_fill(&|s: Slot| s.fill_display(&v)));
            #[cfg(feature = "error")]
            go("capture_error", ValueBag::capture_error(&v));
            #[cfg(feature = "sval2")]
            go("capture_sval2", ValueBag::capture_sval2(&v));
            #[cfg(feature = "serde1")]
            go("capture_serde1", ValueBag::capture_serde1(&v));
            #[cfg(feature = "owned")]
            {
                go("capture_shared_debug", ValueBag::capture_shared_debug(v.clone()));
                #[cfg(feature = "sval2")]
                go("capture_shared_sval2", ValueBag::capture_shared_sval2(v.clone()));
                #[cfg(feature = "serde1")]
                go("capture_shared_serde1", ValueBag::capture_shared_serde1(v.clone()));
            }
            #[cfg(feature = "seq")]
            {
                let list = vec![Stops { panics: false, says: "ok".into() }, v.clone(), v.clone()];
                go("seq", ValueBag::from_seq_slice::<Vec<Stops>, Stops>(&list));
                #[cfg(feature = "owned")]
                go("shared_seq", ValueBag::capture_shared_seq_slice::<Vec<Stops>, Stops>(list.clone()));
            }
        }
    }
}

/// A visitor that keeps what outlives the visit.
#[derive(Default)]
struct Keeps<'v>(Option<&'v str>, Option<String>);

impl<'v> Visit<'v> for Keeps<'v> {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        self.1 = Some(v.to_string());
        Ok(())
    }
    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
        self.0 = Some(v);
        Ok(())
    }
    #[cfg(feature = "error")]
    fn visit_borrowed_error(&mut self, v: &'v (dyn std::error::Error + 'static)) -> Result<(), Error> {
        self.1 = Some(v.to_string());
        Ok(())
    }
}

fn main() {
    run("C22", |mc| {
        let (index, of) = match std::env::var("MC_SHARD") {
            Ok(s) => {
                let (i, n) = s.split_once('/').expect("a shard");
                (i.parse().expect("a number"), n.parse().expect("a number"))
            }
            Err(_) => (0, 1),
        };
        let sh = &mut Shard { index, of, at: 0 };
        let t = std::time::Instant::now();
        macro_rules! phase {
            ($name:literal, $e:expr) => {
                mc.enter($name);
                $e;
                mc.leave();
                mc.note($name, format!("{:.1} s", t.elapsed().as_secs_f64()));
            };
        }
        phase!("texts", texts(mc, sh));
        phase!("captures", captures(mc, sh));
        #[cfg(feature = "seq")]
        phase!("slices", slices(mc, sh));
        phase!("stopping", stopping(mc, sh));
        phase!("apart", apart(mc, sh));
        #[cfg(feature = "owned")]
        phase!("threads", threads(mc, sh));
        #[cfg(feature = "owned")]
        phase!("handles", handles(mc, sh));
        let tree_depth = if deep(mc) { 2 } else { 1 };
        let all = specs(Space { tree_depth, ..Space::SMALL });
        phase!("values", values(mc, sh, &all));
    });
}
