//! Float, bool, char and empty casts never coerce or lose bits.

use mc::{
    engine::{run, Mc, Seg},
    observe::visited_wide,
    routes::{derived, nested, Prim, With},
};
use value_bag::{fill::Slot, ValueBag};

#[derive(Clone, Debug, PartialEq)]
enum Is {
    Float(u64),
    Bool(bool),
    Char(char),
    /// Only the casts to integers apply
    Int,
    Empty,
    /// Characters are text to `sval`
    Text(char),
    /// Not a primitive
    Opaque,
}

macro_rules! nothing {
    ($mc:ident, $bag:ident: $($t:ident)*) => { $(
        $mc.eq(concat!("try_from_", stringify!($t)), &$t::try_from($bag.clone()).ok(), &None);
    )* };
}

fn check(mc: &mut Mc, bag: &ValueBag, is: &Is, sure: bool) {
    mc.state();
    let float = match is {
        Is::Float(bits) => Some(*bits),
        _ => None,
    };
    if *is != Is::Int {
        mc.eq("to_u64", &bag.to_u64(), &None);
        mc.eq("to_i64", &bag.to_i64(), &None);
        mc.eq("to_u128", &bag.to_u128(), &None);
        mc.eq("to_i128", &bag.to_i128(), &None);
        nothing!(mc, bag: u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);
        mc.eq("to_f64", &bag.to_f64().map(f64::to_bits), &float);
        mc.eq("try_from_f64", &f64::try_from(bag.clone()).ok().map(f64::to_bits), &float);
        let lossy = bag.as_f64();
        mc.ensure(
            "as_f64",
            match float {
                Some(bits) => lossy.to_bits() == bits,
                None => lossy.is_nan(),
            },
            || format!("{lossy:?} ({:x})", lossy.to_bits()),
            "the float, or NaN for anything else",
        );
        mc.transitions += 19;
    }
    let b = match is {
        Is::Bool(b) => Some(*b),
        _ => None,
    };
    mc.eq("to_bool", &bag.to_bool(), &b);
    mc.eq("try_from_bool", &bool::try_from(bag.clone()).ok(), &b);
    let c = match is {
        Is::Char(c) => Some(*c),
        _ => None,
    };
    mc.eq("to_char", &bag.to_char(), &c);
    mc.eq("try_from_char", &char::try_from(bag.clone()).ok(), &c);
    mc.transitions += 4;
    if let Is::Text(_) = is {
    } else {
        mc.eq("to_borrowed_str", &bag.to_borrowed_str(), &None);
        mc.eq("try_from_str", &<&str>::try_from(bag.clone()).ok(), &None);
        #[cfg(feature = "alloc")]
        {
            mc.eq("to_str", &bag.to_str(), &None);
            mc.eq("try_from_string", &String::try_from(bag.clone()).ok(), &None);
            mc.transitions += 2;
        }
        mc.transitions += 2;
    }
    match is {
        // Whether a null of a framework is empty isn't specified
        Is::Empty if !sure => (),
        Is::Empty => mc.eq("is_empty", &bag.is_empty(), &true),
        _ => mc.eq("is_empty", &bag.is_empty(), &false),
    }
    let kind = match is {
        Is::Float(bits) => Some(format!("[\"f64({bits:x})\"] Ok(())")),
        Is::Bool(b) => Some(format!("[\"bool({b})\"] Ok(())")),
        Is::Char(c) => Some(format!("{:?} Ok(())", [format!("char({c:?})")])),
        Is::Text(c) => Some(format!("{:?} Ok(())", [format!("str({:?})", c.to_string())])),
        Is::Empty => Some("[\"empty\"] Ok(())".to_owned()),
        Is::Int | Is::Opaque => None,
    };
    if let Some(kind) = kind {
        mc.eq("visit", &visited_wide(bag), &kind);
        mc.step();
    }
    mc.outcome(format!("{is:?}").as_bytes());
}

/// A lighter version for the big sweeps.
fn sweep(mc: &mut Mc, bag: &ValueBag, is: &Is) -> bool {
    mc.states += 1;
    mc.traces += 1;
    mc.transitions += 10;
    mc.checks += 10;
    let float = match is {
        Is::Float(bits) => Some(*bits),
        _ => None,
    };
    let c = match is {
        Is::Char(c) => Some(*c),
        _ => None,
    };
    bag.to_u64().is_none()
        && bag.to_i64().is_none()
        && bag.to_u128().is_none()
        && bag.to_i128().is_none()
        && bag.to_f64().map(f64::to_bits) == float
        && match float {
            Some(bits) => bag.as_f64().to_bits() == bits,
            None => bag.as_f64().is_nan(),
        }
        && bag.to_bool().is_none()
        && bag.to_char() == c
        && bag.to_borrowed_str().is_none()
        && !bag.is_empty()
}

fn derivations(mc: &mut Mc, bag: &ValueBag, is: &Is, sure: bool) {
    derived(bag, &mut |step, bag| {
        mc.enter(step);
        mc.step();
        check(mc, bag, is, sure);
        mc.leave();
    });
    nested(bag, &mut |step, bag| {
        mc.enter(step);
        mc.step();
        let is = match is {
            Is::Char(c) if step.contains("sval2") => Is::Text(*c),
            is => is.clone(),
        };
        check(mc, bag, &is, sure && step == "from_owned");
        mc.leave();
    });
    mc.trace();
}

fn value<T: Prim>(mc: &mut Mc, v: T, seg: Seg, is: Is) {
    mc.enter(seg);
    mc.guard(|mc| {
        v.routes(&mut |name, bag| {
            mc.enter(name);
            mc.step();
            let is = match &is {
                Is::Char(c)
                    if name.starts_with("from_sval2")
                        || name.starts_with("from_dyn_sval2")
                        || name.starts_with("fill_sval2") =>
                {
                    Is::Text(*c)
                }
                is => is.clone(),
            };
            derivations(mc, bag, &is, true);
            mc.leave();
        });
    });
    mc.leave();
}

/// The ways of having nothing of a type.
macro_rules! absent {
    ($mc:ident: $($t:ty, $kind:ident;)*) => { $(
        $mc.guard_at(concat!("none_", stringify!($t)), |mc| {
            let none: Option<$t> = None;
            let f: With = &mut |name, bag| {
                mc.enter(name);
                mc.step();
                let sure = name.starts_with("capture") || name == "option" || name.starts_with("try");
                derivations(mc, bag, &Is::Empty, sure);
                mc.leave();
            };
            f("option", &ValueBag::from_option(none.as_ref()));
            f("capture_debug", &ValueBag::capture_debug(&none));
            match ValueBag::try_capture(&none) {
                Some(b) => f("try_capture", &b),
                None => f("try_capture", &ValueBag::from_debug(&"missed")),
            }
            absent!(@$kind f none);
        });
    )* };
    (@all $f:ident $none:ident) => {
        $f("fill", &ValueBag::from_fill(&|s: Slot| s.fill_any(ValueBag::from_option($none))));
        absent!(@frameworks $f $none);
        absent!(@shared $f $none);
    };
    (@ptr $f:ident $none:ident) => {
        $f("option_into", &ValueBag::from($none));
        #[cfg(feature = "serde1")]
        {
            $f("capture_serde1", &ValueBag::capture_serde1(&$none));
            $f("from_serde1", &ValueBag::from_serde1(&$none));
        }
        absent!(@shared $f $none);
    };
    (@some $f:ident $none:ident) => {
        absent!(@frameworks $f $none);
    };
    (@shared $f:ident $none:ident) => {
        #[cfg(feature = "owned")]
        {
            $f("capture_shared_debug", &ValueBag::capture_shared_debug($none));
            match ValueBag::try_capture_owned(&$none) {
                Some(b) => $f("try_capture_owned", &b),
                None => $f("try_capture_owned", &ValueBag::from_debug(&"missed")),
            }
        }
    };
    (@frameworks $f:ident $none:ident) => {
        #[cfg(feature = "sval2")]
        {
            $f("capture_sval2", &ValueBag::capture_sval2(&$none));
            $f("from_sval2", &ValueBag::from_sval2(&$none));
            $f("from_dyn_sval2", &ValueBag::from_dyn_sval2(&$none));
            $f("fill_sval2", &ValueBag::from_fill(&|s: Slot| s.fill_sval2(&$none)));
        }
        #[cfg(feature = "serde1")]
        {
            $f("capture_serde1", &ValueBag::capture_serde1(&$none));
            $f("from_serde1", &ValueBag::from_serde1(&$none));
            $f("fill_serde1", &ValueBag::from_fill(&|s: Slot| s.fill_serde1(&$none)));
        }
    };
}

fn mantissas(bits: u32) -> Vec<u64> {
    let mut v = vec![0, (1 << bits) - 1, (1 << (bits - 1)) + 1, 0x5555_5555_5555_5555 & ((1 << bits) - 1)];
    v.extend((0..bits).map(|b| 1u64 << b));
    v
}

fn main() {
    run("C02", |mc| {
        mc.enter("bool");
        for b in [true, false] {
            value(mc, b, Seg::U(b as u128), Is::Bool(b));
        }
        mc.leave();

        mc.enter("f64");
        // Every sign and exponent
        for top in 0..4096u64 {
            let wide = top % 64 < 2 || top & 0x7ff == 0x7ff || top & 0x7ff == 0x3ff || mc.thorough();
            for (i, m) in mantissas(52).into_iter().enumerate() {
                let bits = top << 52 | m;
                let v = f64::from_bits(bits);
                if wide && (i < 6 || i % 17 == 0 || (mc.thorough() && top % 8 == 0)) {
                    value(mc, v, Seg::T(format!("{bits:016x}")), Is::Float(bits));
                } else {
                    let bag = ValueBag::from(v);
                    if !sweep(mc, &bag, &Is::Float(bits)) {
                        mc.at(format!("{bits:016x}"), |mc| check(mc, &bag, &Is::Float(bits), true));
                    }
                }
            }
        }
        mc.leave();

        mc.enter("f32");
        for top in 0..512u32 {
            for m in mantissas(23) {
                let v = f32::from_bits(top << 23 | m as u32);
                // Signalling NaNs may turn quiet in the conversion, which isn't ours
                let is = Is::Float((v as f64).to_bits());
                if (top % 32 < 2 || top & 0xff == 0xff || mc.thorough()) && (m < 2 || m % 3 == 0) {
                    value(mc, v, Seg::T(format!("{:08x}", v.to_bits())), is);
                } else {
                    let bag = ValueBag::from(v);
                    if !sweep(mc, &bag, &is) {
                        mc.at(format!("{:08x}", v.to_bits()), |mc| check(mc, &bag, &is, true));
                    }
                }
            }
        }
        if mc.thorough() {
            // Every one of them, in the plainest form
            for hi in 0..=u16::MAX as u32 {
                if mc.expired() {
                    break;
                }
                mc.guard(|mc| {
                    for lo in 0..=u16::MAX as u32 {
                        let v = f32::from_bits(hi << 16 | lo);
                        let bag = ValueBag::from(v);
                        let is = Is::Float((v as f64).to_bits());
                        if !sweep(mc, &bag, &is) {
                            mc.at(format!("{:08x}", v.to_bits()), |mc| check(mc, &bag, &is, true));
                        }
                    }
                });
            }
        }
        mc.leave();

        mc.enter("char");
        for c in '\0'..=char::MAX {
            let n = c as u32;
            let edge = n < 0x300
                || [0x800, 0xd800, 0xe000, 0xffff, 0x10000, 0x10ffff].iter().any(|e: &u32| n.abs_diff(*e) < 3)
                || (mc.thorough() && n % 61 == 0);
            if edge {
                value(mc, c, Seg::T(format!("{n:x}")), Is::Char(c));
            } else {
                let bag = ValueBag::from(c);
                if !sweep(mc, &bag, &Is::Char(c)) {
                    mc.at(format!("{n:x}"), |mc| check(mc, &bag, &Is::Char(c), true));
                }
            }
        }
        mc.leave();

        // Integers are none of these
        mc.enter("int");
        for b in [0u8, 1, 48, 97, 127, 128, 255] {
            value(mc, b, Seg::T(format!("u8_{b}")), Is::Int);
            value(mc, b as i8, Seg::T(format!("i8_{}", b as i8)), Is::Int);
            value(mc, b as u32, Seg::T(format!("u32_{b}")), Is::Int);
            value(mc, b as i64, Seg::T(format!("i64_{b}")), Is::Int);
            value(mc, b as usize, Seg::T(format!("usize_{b}")), Is::Int);
            value(mc, b as u128, Seg::T(format!("u128_{b}")), Is::Int);
            value(mc, b as i128, Seg::T(format!("i128_{b}")), Is::Int);
        }
        mc.leave();

        mc.guard_at("unit", |mc| {
            let f: With = &mut |name, bag| {
                mc.enter(name);
                mc.step();
                derivations(mc, bag, &Is::Empty, name == "empty" || name.starts_with("into") || name == "default");
                mc.leave();
            };
            f("empty", &ValueBag::empty());
            f("into", &ValueBag::from(()));
            f("into_ref", &ValueBag::from(&()));
            f("default", &ValueBag::from_option(None::<()>));
            f("fill", &ValueBag::from_fill(&|s: Slot| s.fill_any(())));
            #[cfg(feature = "sval2")]
            {
                f("from_sval2", &ValueBag::from_sval2(&()));
                f("from_dyn_sval2", &ValueBag::from_dyn_sval2(&()));
            }
            #[cfg(feature = "serde1")]
            f("from_serde1", &ValueBag::from_serde1(&()));
        });
        absent!(mc: u8, all; u16, all; u32, all; u64, all; i8, all; i16, all; i32, all; i64, all;
            usize, ptr; isize, ptr; f32, all; f64, all; bool, all; char, all; u128, some; i128, some;);

        // Values without a kind
        mc.guard_at("opaque", |mc| {
            for text in ["", "1", "1.5", "true", "a", "None"] {
                mc.enter(text);
                let f: With = &mut |name, bag| {
                    mc.enter(name);
                    mc.step();
                    derived(bag, &mut |step, bag| mc.at(step, |mc| check(mc, bag, &Is::Opaque, true)));
                    mc.trace();
                    mc.leave();
                };
                f("from_debug", &ValueBag::from_debug(&text));
                f("from_display", &ValueBag::from_display(&text));
                f("from_dyn_debug", &ValueBag::from_dyn_debug(&text));
                f("from_dyn_display", &ValueBag::from_dyn_display(&text));
                f("fill_debug", &ValueBag::from_fill(&|s: Slot| s.fill_debug(&text)));
                f("fill_display", &ValueBag::from_fill(&|s: Slot| s.fill_display(&text)));
                mc.leave();
            }
        });
    });
}
