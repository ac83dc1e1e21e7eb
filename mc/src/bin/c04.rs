//! Capturing recognises exactly the well-known primitives.

use mc::{
    engine::{run, Mc},
    observe::{Class, OBSERVERS},
    probe::Probe,
    routes::{Prim, With},
};
use std::{any::type_name, fmt};
use value_bag::ValueBag;

fn like(mc: &mut Mc, name: &'static str, bag: &ValueBag, direct: &[String]) {
    mc.enter(name);
    mc.step();
    mc.state();
    for (o, expected) in OBSERVERS.iter().zip(direct) {
        mc.step();
        // Shared captures aren't borrowed from anything
        if o.class == Class::Borrow && name.contains("shared") {
            continue;
        }
        let got = (o.f)(bag);
        mc.outcome(got.as_bytes());
        mc.eq(o.name, &got, expected);
    }
    mc.leave();
}

fn prim<T: Prim + fmt::Debug>(mc: &mut Mc, v: T) {
    mc.trace();
    mc.guard_at(format!("{}({v:?})", type_name::<T>()), |mc| {
        let mut direct = None;
        v.base(&mut |_, bag| direct = Some(mc::observe::all(bag)));
        let direct = direct.expect("a direct conversion");
        v.routes(&mut |name, bag| {
            if name.contains("capture") {
                like(mc, name, bag, &direct);
            }
        });
    });
}

fn text(mc: &mut Mc, s: &'static str) {
    mc.trace();
    mc.guard_at(format!("text({s:?})"), |mc| {
        let direct = mc::observe::all(&ValueBag::from(s));
        let missed = || ValueBag::from_debug(&"missed");
        let some = Some(s);
        like(mc, "try_capture_str", &ValueBag::try_capture(s).unwrap_or_else(missed), &direct);
        like(mc, "try_capture_static", &ValueBag::try_capture(&s).unwrap_or_else(missed), &direct);
        like(mc, "try_capture_option", &ValueBag::try_capture(&some).unwrap_or_else(missed), &direct);
        like(mc, "capture_debug", &ValueBag::capture_debug(&s), &direct);
        like(mc, "capture_display", &ValueBag::capture_display(&s), &direct);
        like(mc, "capture_debug_option", &ValueBag::capture_debug(&some), &direct);
        #[cfg(feature = "sval2")]
        {
            like(mc, "capture_sval2", &ValueBag::capture_sval2(&s), &direct);
            like(mc, "capture_sval2_option", &ValueBag::capture_sval2(&some), &direct);
        }
        #[cfg(feature = "serde1")]
        {
            like(mc, "capture_serde1", &ValueBag::capture_serde1(&s), &direct);
            like(mc, "capture_serde1_option", &ValueBag::capture_serde1(&some), &direct);
        }
        #[cfg(feature = "alloc")]
        {
            let owned = s.to_owned();
            let some = Some(owned.clone());
            like(mc, "try_capture_string", &ValueBag::try_capture(&owned).unwrap_or_else(missed), &direct);
            like(mc, "try_capture_string_option", &ValueBag::try_capture(&some).unwrap_or_else(missed), &direct);
            like(mc, "capture_debug_string", &ValueBag::capture_debug(&owned), &direct);
            like(mc, "capture_display_string", &ValueBag::capture_display(&owned), &direct);
            like(mc, "capture_debug_string_option", &ValueBag::capture_debug(&some), &direct);
            #[cfg(feature = "serde1")]
            {
                like(mc, "capture_serde1_string", &ValueBag::capture_serde1(&owned), &direct);
                like(mc, "capture_serde1_string_option", &ValueBag::capture_serde1(&some), &direct);
            }
        }
    });
}

fn absent<T: fmt::Debug + Clone + 'static>(mc: &mut Mc)
where
    Option<T>: Capturable,
{
    mc.trace();
    mc.guard_at(format!("None::<{}>", type_name::<T>()), |mc| {
        let direct = mc::observe::all(&ValueBag::empty());
        let none: Option<T> = None;
        let missed = || ValueBag::from_debug(&"missed");
        like(mc, "try_capture", &ValueBag::try_capture(&none).unwrap_or_else(missed), &direct);
        like(mc, "capture_debug", &ValueBag::capture_debug(&none), &direct);
        none.captures(&mut |name, bag| like(mc, name, bag, &direct));
    });
}

/// Captures with the frameworks a type has.
trait Capturable {
    fn captures(&self, f: With);
}

macro_rules! capturable {
    ($($t:ty)*) => { $(
        impl Capturable for $t {
            #[allow(unused_variables)]
            fn captures(&self, f: With) {
                #[cfg(feature = "sval2")]
                f("capture_sval2", &ValueBag::capture_sval2(self));
                #[cfg(feature = "serde1")]
                f("capture_serde1", &ValueBag::capture_serde1(self));
            }
        }
    )* };
}

macro_rules! capturable_serde {
    ($($t:ty)*) => { $(
        impl Capturable for $t {
            #[allow(unused_variables)]
            fn captures(&self, f: With) {
                #[cfg(feature = "serde1")]
                f("capture_serde1", &ValueBag::capture_serde1(self));
            }
        }
    )* };
}

capturable!(
    Option<u8> Option<u16> Option<u32> Option<u64> Option<u128> Option<i8> Option<i16> Option<i32> Option<i64>
    Option<i128> Option<f32> Option<f64> Option<bool> Option<char> Option<&'static str>
);
capturable_serde!(Option<usize> Option<isize> Option<String>);

/// Something else, whatever it looks like.
fn other<T: fmt::Debug + 'static>(mc: &mut Mc, v: T) {
    mc.trace();
    mc.guard_at(format!("other {}({v:?})", type_name::<T>()), |mc| {
        mc.eq("try_capture", &ValueBag::try_capture(&v).is_none(), &true);
        opaque(mc, "capture_debug", &ValueBag::capture_debug(&v), &v);
        #[cfg(feature = "owned")]
        mc.eq("try_capture_owned", &ValueBag::try_capture_owned(&v).is_none(), &true);
    });
}

#[cfg(feature = "owned")]
fn other_shared<T: fmt::Debug + Clone + Send + Sync + 'static>(mc: &mut Mc, v: T) {
    mc.trace();
    mc.guard_at(format!("shared {}({v:?})", type_name::<T>()), |mc| {
        let b = ValueBag::capture_shared_debug(v.clone());
        opaque(mc, "capture_shared_debug", &b, &v);
    });
}

fn opaque(mc: &mut Mc, name: &'static str, bag: &ValueBag, v: &dyn fmt::Debug) {
    mc.enter(name);
    mc.step();
    mc.state();
    for o in OBSERVERS {
        let none = match o.name {
            n if n.starts_with("to_") || n.starts_with("try_") || n == "borrowed_error" => Some("None"),
            "as_f64" => Some("nan"),
            n if n.ends_with("_seq") && !n.starts_with("as_") => Some("None"),
            "is_empty" => Some("false"),
            _ => None,
        };
        mc.step();
        if let Some(none) = none {
            mc.eq(o.name, &(o.f)(bag), &none.to_owned());
        }
    }
    mc.eq("debug", &format!("{bag:?}"), &format!("{v:?}"));
    mc.eq("display", &format!("{bag}"), &format!("{v:?}"));
    mc.leave();
}

/// Capturing doesn't look at the value.
fn untouched(mc: &mut Mc) {
    mc.guard_at("untouched", |mc| {
        macro_rules! quiet {
            ($name:literal $value:expr, $f:expr) => {{
                let (p, counts) = Probe::new($value);
                mc.enter($name);
                mc.state();
                mc.step();
                $f(p);
                mc.eq("evaluations", &counts.evals(), &0);
                mc.leave();
            }};
        }
        macro_rules! borrowed {
            ($name:literal $value:expr, $f:expr) => {
                quiet!($name $value, |p: Probe<_>| {
                    let bag = $f(&p);
                    let other = bag.clone();
                    let _ = bag.by_ref();
                    let _ = other.by_ref().clone();
                    drop(bag);
                    drop(other);
                });
            };
        }
        borrowed!("capture_debug" 1u64, |p| ValueBag::capture_debug(p));
        borrowed!("capture_display" 1u64, |p| ValueBag::capture_display(p));
        borrowed!("from_debug" "1", |p| ValueBag::from_debug(p));
        borrowed!("from_display" "1", |p| ValueBag::from_display(p));
        borrowed!("from_dyn_debug" "1", |p: &'_ _| { let _ = ValueBag::from_dyn_debug(p); ValueBag::empty() });
        borrowed!("from_dyn_display" "1", |p: &'_ _| { let _ = ValueBag::from_dyn_display(p); ValueBag::empty() });
        #[cfg(feature = "error")]
        borrowed!("capture_error" mc::spec::Er::chain(&["a", "b"]), |p| ValueBag::capture_error(p));
        #[cfg(feature = "error")]
        borrowed!("from_dyn_error" mc::spec::Er::chain(&["a", "b"]), |p: &'_ _| { let _ = ValueBag::from_dyn_error(p); ValueBag::empty() });
        #[cfg(feature = "sval2")]
        {
            borrowed!("capture_sval2" 1u64, |p| ValueBag::capture_sval2(p));
            borrowed!("from_sval2" 1u64, |p| ValueBag::from_sval2(p));
            borrowed!("from_dyn_sval2" 1u64, |p: &'_ _| { let _ = ValueBag::from_dyn_sval2(p); ValueBag::empty() });
        }
        #[cfg(feature = "serde1")]
        {
            borrowed!("capture_serde1" 1u64, |p| ValueBag::capture_serde1(p));
            borrowed!("from_serde1" 1u64, |p| ValueBag::from_serde1(p));
        }
        #[cfg(feature = "owned")]
        {
            quiet!("capture_shared_debug" 1u64, |p| ValueBag::capture_shared_debug(p).clone());
            quiet!("capture_shared_display" 1u64, |p| ValueBag::capture_shared_display(p).clone());
            #[cfg(feature = "error")]
            quiet!("capture_shared_error" mc::spec::Er::chain(&["a", "b"]), |p| ValueBag::capture_shared_error(p).clone());
            #[cfg(feature = "sval2")]
            quiet!("capture_shared_sval2" 1u64, |p| ValueBag::capture_shared_sval2(p).clone());
            #[cfg(feature = "serde1")]
            quiet!("capture_shared_serde1" 1u64, |p| ValueBag::capture_shared_serde1(p).clone());
        }
        #[cfg(feature = "seq")]
        borrowed!("from_seq_slice" vec![1u64], |p| ValueBag::from_seq_slice::<_, u64>(p));
        // Not even when it's tried
        let (p, counts) = Probe::new(1u64);
        mc.eq("try_capture", &ValueBag::try_capture(&p).is_none(), &true);
        #[cfg(feature = "owned")]
        mc.eq("try_capture_owned", &ValueBag::try_capture_owned(&p).is_none(), &true);
        mc.eq("try_capture evaluations", &counts.evals(), &0);
    });
}

#[derive(Debug, Clone, Copy, PartialEq)]
#[repr(transparent)]
struct W<T>(T);

fn main() {
    run("C04", |mc| {
        for v in 0..=u8::MAX {
            prim(mc, v);
            prim(mc, v as i8);
        }
        macro_rules! edges {
            ($($t:ident)*) => { $(
                let mut all = vec![0 as $t, 1 as $t, $t::MAX, $t::MIN, $t::MAX - 1, $t::MIN + 1];
                for k in 0..$t::BITS {
                    all.push((1 as $t) << k);
                    all.push(!((1 as $t) << k));
                }
                all.sort();
                all.dedup();
                for v in all {
                    prim(mc, v);
                }
            )* };
        }
        edges!(u16 u32 u64 usize u128 i16 i32 i64 isize i128);
        for v in [0.0, -0.0, 1.0, -1.5, 0.1, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::EPSILON, 5e-324, 1e15, 1e16, 1e-7] {
            prim(mc, v);
            prim(mc, v as f32);
        }
        prim(mc, true);
        prim(mc, false);
        for c in ['\0', 'a', '\'', '"', '\n', '\u{7f}', '\u{e9}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{301}'] {
            prim(mc, c);
        }
        let mut strs: Vec<String> = (0..70).map(|n| "\u{e9}a".repeat(n)[..].chars().take(n).collect()).collect();
        strs.extend(["", "1", "true", "\"q\"\n", "None", "\u{1F600}"].map(String::from));
        for s in strs {
            text(mc, Box::leak(s.into_boxed_str()));
        }

        absent::<u8>(mc);
        absent::<u16>(mc);
        absent::<u32>(mc);
        absent::<u64>(mc);
        absent::<usize>(mc);
        absent::<u128>(mc);
        absent::<i8>(mc);
        absent::<i16>(mc);
        absent::<i32>(mc);
        absent::<i64>(mc);
        absent::<isize>(mc);
        absent::<i128>(mc);
        absent::<f32>(mc);
        absent::<f64>(mc);
        absent::<bool>(mc);
        absent::<char>(mc);
        absent::<&'static str>(mc);
        #[cfg(feature = "alloc")]
        absent::<String>(mc);

        macro_rules! lookalikes {
            ($($v:expr),* $(,)?) => { $(
                other(mc, $v);
                #[cfg(feature = "owned")]
                other_shared(mc, $v);
            )* };
        }
        static N: u64 = 5;
        macro_rules! around {
            ($($v:expr),*) => { $(
                lookalikes!(
                    W($v),
                    Some(W($v)),
                    None::<W<&'static str>>,
                    Some(Some($v)),
                    [$v],
                    [$v, $v],
                    ($v,),
                    ($v, $v),
                    Box::new($v),
                    Some(Box::new($v)),
                    vec![$v],
                    Ok::<_, ()>($v),
                    std::sync::Arc::new($v),
                    std::mem::ManuallyDrop::new($v),
                    std::ops::Range { start: $v, end: $v },
                    std::cmp::Reverse($v),
                    std::num::Wrapping($v),
                );
            )* };
        }
        around!(
            1u8, 2u16, 3u32, 4u64, 5usize, 6u128, -1i8, -2i16, -3i32, -4i64, -5isize, -6i128, 1.5f32, 2.5f64, true, 'c', "str",
            String::from("string")
        );
        lookalikes!(
            &N as &'static u64,
            &"s" as &'static &'static str,
            Some(&N as &'static u64),
            (),
            Some(()),
            None::<()>,
            None::<Option<u64>>,
            None::<&'static u64>,
            None::<Box<u64>>,
            None::<[u8; 1]>,
            std::num::NonZeroU8::new(1).unwrap(),
            std::num::NonZeroU64::new(1).unwrap(),
            std::num::NonZeroI128::new(1).unwrap(),
            std::num::NonZeroU64::new(1),
            None::<std::num::NonZeroU64>,
            std::time::Duration::from_nanos(3),
            std::borrow::Cow::Borrowed("cow"),
            String::from("boxed").into_boxed_str(),
            Some(String::from("boxed").into_boxed_str()),
            std::sync::Arc::<str>::from("arc"),
            std::path::PathBuf::from("p"),
            std::cmp::Ordering::Less,
            [0u8; 4],
            *b"bytes",
            std::any::TypeId::of::<u64>(),
            std::marker::PhantomData::<u64>,
        );
        untouched(mc);
    });
}
