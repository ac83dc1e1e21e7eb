//! All conversions of a value into a bag, and out of one, agree.

use mc::{
    engine::{run, Mc},
    observe::{Class, OBSERVERS},
    spec::{large, specs, ways, Space, Spec},
};
use std::fmt;
use value_bag::ValueBag;

/// What a bag says, and what it says once buffered.
fn said(bag: &ValueBag) -> Vec<Vec<String>> {
    vec![
        mc::observe::all(bag),
        #[cfg(feature = "owned")]
        mc::observe::all(&bag.to_owned().by_ref()),
        #[cfg(feature = "owned")]
        mc::observe::all(&bag.to_shared().by_ref()),
    ]
}

const STAGES: [&str; 3] = ["itself", "owned", "shared"];

fn same(mc: &mut Mc, name: &'static str, bag: &ValueBag, direct: &[Vec<String>]) {
    mc.enter(name);
    mc.state();
    // What is filled isn't looked at by some, and lives as long as the callback
    let filled = name == "filled";
    for ((stage, got), expected) in STAGES.iter().zip(said(bag)).zip(direct) {
        mc.enter(*stage);
        for ((o, got), expected) in OBSERVERS.iter().zip(&got).zip(expected) {
            if filled && (["is_empty", "borrowed_error", "test_token"].contains(&o.name) || o.class == Class::Borrow || o.name == "visit") {
                continue;
            }
            mc.step();
            mc.outcome(got.as_bytes());
            mc.eq(o.name, got, expected);
        }
        mc.leave();
    }
    mc.leave();
}

/// Every way into a bag.
fn into(mc: &mut Mc, s: &Spec) {
    let direct = said(&s.bag());
    ways(s, &mut |name, bag| same(mc, name, bag, &direct));
}

/// Every way out of a bag, compared with the cast it corresponds to.
fn out(mc: &mut Mc, bag: &ValueBag) {
    macro_rules! agree {
        ($($t:ty: $cast:expr;)*) => { $(
            mc.step();
            let cast: Option<$t> = $cast;
            match (<$t>::try_from(bag.clone()), cast) {
                (Ok(got), Some(v)) => mc.eq(stringify!($t), &format!("{got:?}"), &format!("{v:?}")),
                (Err(e), None) => mc.ensure(stringify!($t), !e.to_string().is_empty(), || "no message".into(), "an error with a message"),
                (got, v) => mc.violate(stringify!($t), format!("{:?}", got.ok()), format!("{v:?}")),
            }
        )* };
    }
    mc.state();
    agree!(
        u8: bag.to_u64().and_then(|v| v.try_into().ok());
        u16: bag.to_u64().and_then(|v| v.try_into().ok());
        u32: bag.to_u64().and_then(|v| v.try_into().ok());
        u64: bag.to_u64();
        usize: bag.to_u64().and_then(|v| v.try_into().ok());
        u128: bag.to_u128();
        i8: bag.to_i64().and_then(|v| v.try_into().ok());
        i16: bag.to_i64().and_then(|v| v.try_into().ok());
        i32: bag.to_i64().and_then(|v| v.try_into().ok());
        i64: bag.to_i64();
        isize: bag.to_i64().and_then(|v| v.try_into().ok());
        i128: bag.to_i128();
        f64: bag.to_f64();
        bool: bag.to_bool();
        char: bag.to_char();
        &str: bag.to_borrowed_str();
    );
    #[cfg(feature = "alloc")]
    agree!(
        String: bag.to_str().map(|v| v.into_owned());
        std::borrow::Cow<str>: bag.to_str();
    );
    #[cfg(feature = "error")]
    agree!(
        &(dyn std::error::Error + 'static): bag.to_borrowed_error();
    );
}

/// Arrays, slices and vectors of a type, of a length.
#[cfg(feature = "seq")]
trait Elements: Sized {
    fn check(mc: &mut Mc, v: &[Self]);
}

#[cfg(feature = "seq")]
macro_rules! elements {
    ($($t:ty)*) => { $(
        impl Elements for $t {
            fn check(mc: &mut Mc, v: &[Self]) {
                let direct = said(&ValueBag::from_seq_slice::<&[$t], $t>(&v));
                same(mc, "slice", &ValueBag::from(&v), &direct);
                same(mc, "slice_option", &ValueBag::from(Some(&v)), &direct);
                same(mc, "slice_from_option", &ValueBag::from_option(Some(&v)), &direct);
                macro_rules! array {
                    ($n:literal) => {
                        if let Ok(a) = <&[$t; $n]>::try_from(v) {
                            same(mc, "array", &ValueBag::from(a), &direct);
                            same(mc, "array_option", &ValueBag::from(Some(a)), &direct);
                            same(mc, "array_from_option", &ValueBag::from_option(Some(a)), &direct);
                            same(mc, "array_seq_slice", &ValueBag::from_seq_slice::<[$t; $n], $t>(a), &direct);
                        }
                    };
                }
                array!(0);
                array!(1);
                array!(2);
                array!(3);
                array!(33);
            }
        }
    )* };
}

#[cfg(feature = "seq")]
elements!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128 f32 f64 bool char &'static str);

/// Vectors, of what there are vectors for.
#[cfg(feature = "seq")]
macro_rules! vectors {
    ($mc:expr, $($t:ty: $v:expr;)*) => { $(
        let all: Vec<$t> = $v.to_vec();
        for n in [0, 1, 2, 3, 33] {
            let v: Vec<$t> = all.iter().cloned().cycle().take(n).collect();
            $mc.guard_at(format!("[{}; {n}]", stringify!($t)), |mc| {
                Elements::check(mc, &v[..]);
                mc.trace();
                #[cfg(feature = "alloc")]
                {
                    let direct = said(&ValueBag::from_seq_slice::<&[$t], $t>(&&v[..]));
                    vector(mc, &v, &direct);
                }
            });
        }
    )* };
}

#[cfg(all(feature = "seq", feature = "alloc"))]
fn vector<T: 'static>(mc: &mut Mc, v: &Vec<T>, direct: &[Vec<String>])
where
    for<'v> &'v Vec<T>: MaybeBag<'v>,
{
    if let Some((plain, option)) = v.bags() {
        same(mc, "vec", &plain, direct);
        same(mc, "vec_option", &option, direct);
    }
}

/// Vectors that convert into bags.
#[cfg(all(feature = "seq", feature = "alloc"))]
trait MaybeBag<'v> {
    fn bags(self) -> Option<(ValueBag<'v>, ValueBag<'v>)>;
}

#[cfg(all(feature = "seq", feature = "alloc"))]
macro_rules! bags {
    ($($t:ty)*) => { $(
        impl<'v> MaybeBag<'v> for &'v Vec<$t> {
            fn bags(self) -> Option<(ValueBag<'v>, ValueBag<'v>)> {
                Some((ValueBag::from(self), ValueBag::from(Some(self))))
            }
        }
    )* };
}

#[cfg(all(feature = "seq", feature = "alloc"))]
bags!(u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128 f32 f64 bool char);

#[cfg(all(feature = "seq", feature = "alloc"))]
impl<'v> MaybeBag<'v> for &'v Vec<&'static str> {
    fn bags(self) -> Option<(ValueBag<'v>, ValueBag<'v>)> {
        None
    }
}

#[cfg(feature = "seq")]
fn sequences(mc: &mut Mc) {
    vectors!(mc,
        u8: [0, 7, u8::MAX];
        u16: [0, 7, u16::MAX];
        u32: [0, 7, u32::MAX];
        u64: [0, 7, u64::MAX];
        usize: [0, 7, usize::MAX];
        u128: [0, u64::MAX as u128 + 1, u128::MAX];
        i8: [i8::MIN, 0, 7];
        i16: [i16::MIN, 0, 7];
        i32: [i32::MIN, 0, 7];
        i64: [i64::MIN, 0, 7];
        isize: [isize::MIN, 0, 7];
        i128: [i128::MIN, i64::MIN as i128 - 1, 7];
        f32: [0.5, f32::NAN, f32::MIN];
        f64: [-0.0, 0.1, f64::INFINITY];
        bool: [true, false, false];
        char: ['a', '\0', '\u{10ffff}'];
        &'static str: ["", "text", "a string beyond the inline size of owned bags, both of them"];
    );
    #[cfg(feature = "alloc")]
    for n in [0, 1, 2, 3, 33] {
        let texts = ["", "text", "a string beyond the inline size of owned bags, both of them"];
        let v: Vec<&str> = texts.into_iter().cycle().take(n).collect();
        let owned: Vec<String> = v.iter().map(|s| s.to_string()).collect();
        mc.guard_at(format!("[String; {n}]"), |mc| {
            let direct = said(&ValueBag::from(&&v[..]));
            same(mc, "strings", &ValueBag::from(&owned), &direct);
            same(mc, "strings_option", &ValueBag::from(Some(&owned)), &direct);
            same(mc, "strings_seq_slice", &ValueBag::from_seq_slice::<Vec<String>, String>(&owned), &direct);
        });
    }
}

/// Small integers, which only exist until they're put into a bag.
fn narrow<T: Copy + fmt::Debug>(mc: &mut Mc, all: &[T], direct: fn(T) -> ValueBag<'static>, f: fn(T, &mut dyn FnMut(&'static str, &ValueBag))) {
    for v in all {
        mc.guard_at(format!("{}({v:?})", std::any::type_name::<T>()), |mc| {
            let direct = said(&direct(*v));
            f(*v, &mut |name, bag| same(mc, name, bag, &direct));
            mc.trace();
        });
    }
}

fn main() {
    run("C23", |mc| {
        macro_rules! narrow {
            ($mc:ident: $($t:ident $wide:ident $from:ident $as:ident;)*) => { $(
                narrow::<$t>(
                    $mc,
                    &[<$t>::MIN, <$t>::MIN + 1 as $t, 1 as $t, 7 as $t, <$t>::MAX],
                    |v| ValueBag::$from(v as $wide),
                    |v, f| {
                        f("from", &ValueBag::from(v));
                        f("ref", &ValueBag::from(&v));
                        f("ctor", &ValueBag::$as(v));
                        f("option", &ValueBag::from(Some(v)));
                        f("from_option", &ValueBag::from_option(Some(v)));
                        f("from_option_ref", &ValueBag::from_option(Some(&v)));
                        f("filled", &ValueBag::from_fill(&|s: value_bag::fill::Slot| s.fill_any(v)));
                    },
                );
            )* };
        }
        mc.at("narrow", |mc| {
            narrow!(mc:
                u8 u64 from_u64 from_u8;
                u16 u64 from_u64 from_u16;
                u32 u64 from_u64 from_u32;
                usize u64 from_u64 from_usize;
                i8 i64 from_i64 from_i8;
                i16 i64 from_i64 from_i16;
                i32 i64 from_i64 from_i32;
                isize i64 from_i64 from_isize;
                f32 f64 from_f64 from_f32;
            );
        });
        #[cfg(feature = "seq")]
        mc.at("sequences", |mc| sequences(mc));
        let tree_depth = if mc.thorough() { 3 } else { 2 };
        let (wide, deep) = if mc.thorough() { (1000, 150) } else { (300, 70) };
        for s in specs(Space { tree_depth, ..Space::SMALL }).into_iter().chain(large(wide, deep)) {
            if mc.expired() {
                return;
            }
            mc.guard_at(s.name(), |mc| {
                mc.at("in", |mc| into(mc, &s));
                mc.at("out", |mc| {
                    out(mc, &s.bag());
                    #[cfg(feature = "owned")]
                    {
                        mc.at("owned", |mc| out(mc, &s.bag().to_owned().by_ref()));
                        mc.at("shared", |mc| out(mc, &s.bag().to_shared().by_ref()));
                    }
                });
                mc.trace();
            });
        }
    });
}
