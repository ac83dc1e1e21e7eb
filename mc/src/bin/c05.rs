//! Downcasting returns the captured object itself and only at its type.

use mc::{
    engine::{run, Mc},
    routes::histories,
    spec::Txt,
    tree::Tree,
};
use std::fmt;
use value_bag::{fill::Slot, ValueBag};

macro_rules! prims_of {
    ($m:ident) => {
        $m!(() u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128 f32 f64 bool char &'static str String Option<u64>
            [u8; 8] Txt Tree ValueBag<'static>)
    };
}

trait Sample {
    fn sample() -> Self;
}

// The inner macro needs a `$` of its own
macro_rules! make_types {
    ($d:tt) => {
        types_with!($d
            A(u64) A(1);
            B(u64) B(1);
            #[repr(transparent)] C(String) C("c".into());
            #[repr(transparent)] D(A) D(A(2));
            E(u8) E(3);
            F() F();
            G() G();
            H(Vec<A>) H(vec![A(1), A(2)]);
            I([u64; 40]) I([7; 40]);
            J(char) J('j');
            K(bool) K(true);
            L(u128) L(9);
        );
    };
}

macro_rules! types_with {
    ($d:tt $($(#[$m:meta])* $t:ident $body:tt $make:expr;)*) => {
        $(
            $(#[$m])*
            #[derive(Debug, Clone)]
            #[allow(dead_code)]
            struct $t $body;

            impl fmt::Display for $t {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    f.write_str(stringify!($t))
                }
            }

            impl std::error::Error for $t {}

            #[cfg(feature = "sval2")]
            impl sval::Value for $t {
                fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                    s.u64(1)
                }
            }

            #[cfg(feature = "serde1")]
            impl serde::Serialize for $t {
                fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.serialize_u64(1)
                }
            }

            impl Sample for $t {
                fn sample() -> Self {
                    $make
                }
            }
        )*

        /// The types and addresses a bag downcasts to.
        fn downcasts(bag: &ValueBag) -> Vec<(&'static str, usize)> {
            let mut v = Vec::new();
            $(
                if let Some(p) = bag.downcast_ref::<$t>() {
                    v.push((stringify!($t), p as *const $t as usize));
                }
                if bag.is::<$t>() != bag.downcast_ref::<$t>().is_some() {
                    v.push((concat!("is ", stringify!($t)), 0));
                }
                if bag.is::<Option<$t>>() {
                    v.push((concat!("is Option ", stringify!($t)), 0));
                }
                if bag.downcast_ref::<Option<$t>>().is_some() {
                    v.push((concat!("Option ", stringify!($t)), 0));
                }
                if bag.downcast_ref::<&'static $t>().is_some() {
                    v.push((concat!("&", stringify!($t)), 0));
                }
                if bag.downcast_ref::<Box<$t>>().is_some() {
                    v.push((concat!("Box ", stringify!($t)), 0));
                }
                if bag.downcast_ref::<std::sync::Arc<$t>>().is_some() {
                    v.push((concat!("Arc ", stringify!($t)), 0));
                }
            )*
            macro_rules! prims {
                ($d($p:ty)*) => { $d(
                    if bag.downcast_ref::<$p>().is_some() || bag.is::<$p>() {
                        v.push((stringify!($p), 0));
                    }
                )* };
            }
            prims_of!(prims);
            v
        }

        fn all(mc: &mut Mc) {
            $( of_type::<$t>(mc, stringify!($t)); )*
        }
    };
}

make_types!($);

fn captured(mc: &mut Mc, how: &'static str, bag: &ValueBag, name: &'static str, at: usize) {
    let depth = if mc.thorough() { 4 } else { 3 };
    mc.guard_at(how, |mc| {
        mc.step();
        histories(mc, bag, depth, &mut |mc, bag, buffered| {
            mc.state();
            mc.step();
            let got = downcasts(bag);
            mc.outcome(format!("{name}{:?}", got.len()).as_bytes());
            if buffered == 0 {
                mc.eq("downcasts", &got, &vec![(name, at)]);
            } else {
                // The caller's object may be gone by now
                mc.eq("downcasts", &got, &vec![]);
            }
        });
    });
}

#[cfg(feature = "owned")]
fn shared(mc: &mut Mc, how: &'static str, bag: ValueBag<'static>, name: &'static str) {
    let depth = if mc.thorough() { 4 } else { 3 };
    mc.guard_at(how, |mc| {
        mc.step();
        let first = downcasts(&bag);
        mc.ensure(
            "downcasts",
            first.len() == 1 && first[0].0 == name,
            || format!("{first:?}"),
            "the shared object",
        );
        histories(mc, &bag, depth, &mut |mc, bag, _| {
            mc.state();
            mc.step();
            let got = downcasts(bag);
            mc.outcome(format!("{name}{:?}", got.len()).as_bytes());
            mc.eq("downcasts", &got, &first);
        });
        // Handles keep the object without the bag
        let o = bag.to_owned();
        let s = bag.to_shared();
        drop(bag);
        mc.eq("downcasts_alone", &downcasts(&o.by_ref()), &first);
        drop(o);
        mc.eq("downcasts_alone", &downcasts(&s.by_ref()), &first);
        let s = s.into_shared();
        mc.eq("downcasts_alone", &downcasts(&s.by_ref()), &first);
    });
}

fn never(mc: &mut Mc, how: &'static str, bag: &ValueBag) {
    mc.guard_at(how, |mc| {
        mc.step();
        histories(mc, bag, 2, &mut |mc, bag, _| {
            mc.state();
            mc.step();
            mc.eq("downcasts", &downcasts(bag), &vec![]);
        });
    });
}

/// What a type under test has.
trait Value: Sample + fmt::Debug + fmt::Display + std::error::Error + Clone + Send + Sync + 'static {}
impl<T: Sample + fmt::Debug + fmt::Display + std::error::Error + Clone + Send + Sync + 'static> Value for T {}

#[cfg(feature = "sval2")]
use sval::Value as Sval;
#[cfg(not(feature = "sval2"))]
trait Sval {}
#[cfg(not(feature = "sval2"))]
impl<T> Sval for T {}

#[cfg(feature = "serde1")]
use serde::Serialize as Serde;
#[cfg(not(feature = "serde1"))]
trait Serde {}
#[cfg(not(feature = "serde1"))]
impl<T> Serde for T {}

fn of_type<T: Value + Sval + Serde>(mc: &mut Mc, name: &'static str) {
    mc.enter(name);
    let v = T::sample();
    let at = &v as *const T as usize;
    captured(mc, "capture_debug", &ValueBag::capture_debug(&v), name, at);
    captured(mc, "capture_display", &ValueBag::capture_display(&v), name, at);
    #[cfg(feature = "error")]
    captured(mc, "capture_error", &ValueBag::capture_error(&v), name, at);
    #[cfg(feature = "sval2")]
    captured(mc, "capture_sval2", &ValueBag::capture_sval2(&v), name, at);
    #[cfg(feature = "serde1")]
    captured(mc, "capture_serde1", &ValueBag::capture_serde1(&v), name, at);
    #[cfg(feature = "owned")]
    {
        shared(mc, "capture_shared_debug", ValueBag::capture_shared_debug(v.clone()), name);
        shared(mc, "capture_shared_display", ValueBag::capture_shared_display(v.clone()), name);
        #[cfg(feature = "error")]
        shared(mc, "capture_shared_error", ValueBag::capture_shared_error(v.clone()), name);
        #[cfg(feature = "sval2")]
        shared(mc, "capture_shared_sval2", ValueBag::capture_shared_sval2(v.clone()), name);
        #[cfg(feature = "serde1")]
        shared(mc, "capture_shared_serde1", ValueBag::capture_shared_serde1(v.clone()), name);
    }
    never(mc, "from_debug", &ValueBag::from_debug(&v));
    never(mc, "from_display", &ValueBag::from_display(&v));
    never(mc, "from_dyn_debug", &ValueBag::from_dyn_debug(&v));
    never(mc, "from_dyn_display", &ValueBag::from_dyn_display(&v));
    never(mc, "fill_debug", &ValueBag::from_fill(&|s: Slot| s.fill_debug(&v)));
    never(mc, "fill_display", &ValueBag::from_fill(&|s: Slot| s.fill_display(&v)));
    #[cfg(feature = "sval2")]
    {
        never(mc, "from_sval2", &ValueBag::from_sval2(&v));
        never(mc, "from_dyn_sval2", &ValueBag::from_dyn_sval2(&v));
        never(mc, "fill_sval2", &ValueBag::from_fill(&|s: Slot| s.fill_sval2(&v)));
    }
    #[cfg(feature = "serde1")]
    {
        never(mc, "from_serde1", &ValueBag::from_serde1(&v));
        never(mc, "fill_serde1", &ValueBag::from_fill(&|s: Slot| s.fill_serde1(&v)));
    }
    mc.leave();
}

fn main() {
    run("C05", |mc| {
        all(mc);
        mc.enter("other");
        never(mc, "u64", &ValueBag::from(1u64));
        never(mc, "str", &ValueBag::from("1"));
        never(mc, "empty", &ValueBag::empty());
        #[cfg(feature = "seq")]
        never(mc, "seq", &ValueBag::from(&vec![1u64]));
        mc.leave();
    });
}
