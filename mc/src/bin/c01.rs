//! Integer casts return the exact value or nothing.

use mc::{
    engine::{run, Mc, Seg},
    routes::{derived, nested, Prim},
};
use value_bag::ValueBag;

/// An integer of any width.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Int {
    U(u128),
    I(i128),
}

impl Int {
    fn u(self) -> Option<u128> {
        match self {
            Int::U(v) => Some(v),
            Int::I(v) => u128::try_from(v).ok(),
        }
    }

    fn i(self) -> Option<i128> {
        match self {
            Int::U(v) => i128::try_from(v).ok(),
            Int::I(v) => Some(v),
        }
    }

    /// Whether a float is this very integer.
    fn is(self, f: f64) -> bool {
        // The widest integers don't saturate to something that could be equal
        match self {
            Int::U(v) => f >= 0.0 && f < 340282366920938463463374607431768211456.0 && f.fract() == 0.0 && f as u128 == v,
            Int::I(v) => {
                f >= -170141183460469231731687303715884105728.0
                    && f < 170141183460469231731687303715884105728.0
                    && f.fract() == 0.0
                    && f as i128 == v
            }
        }
    }

    fn nearest(self) -> f64 {
        match self {
            Int::U(v) => v as f64,
            Int::I(v) => v as f64,
        }
    }

    /// Has to have a float form.
    fn small(self) -> bool {
        match self {
            Int::U(v) => v <= u32::MAX as u128,
            Int::I(v) => i32::try_from(v).is_ok(),
        }
    }
}

macro_rules! narrow {
    ($mc:ident, $bag:ident, $v:ident: $($t:ident)*) => { $(
        $mc.eq(
            concat!("try_from_", stringify!($t)),
            &$t::try_from($bag.clone()).ok(),
            &match $v {
                Int::U(v) => $t::try_from(v).ok(),
                Int::I(v) => $t::try_from(v).ok(),
            },
        );
    )* };
}

fn check(mc: &mut Mc, bag: &ValueBag, v: Int) {
    mc.state();
    let (u64s, i64s, u128s, i128s) = (bag.to_u64(), bag.to_i64(), bag.to_u128(), bag.to_i128());
    mc.eq("to_u64", &u64s, &v.u().and_then(|v| u64::try_from(v).ok()));
    mc.eq("to_i64", &i64s, &v.i().and_then(|v| i64::try_from(v).ok()));
    mc.eq("to_u128", &u128s, &v.u());
    mc.eq("to_i128", &i128s, &v.i());
    narrow!(mc, bag, v: u8 u16 u32 u64 usize u128 i8 i16 i32 i64 isize i128);
    let exact = bag.to_f64();
    mc.ensure(
        "to_f64",
        exact.map(|f| v.is(f)).unwrap_or(!v.small()),
        || format!("{exact:?}"),
        "the exact value, or nothing if beyond 32 bits",
    );
    mc.eq("try_from_f64", &f64::try_from(bag.clone()).ok(), &exact);
    mc.eq("as_f64", &bag.as_f64(), &v.nearest());
    mc.transitions += 19;
    mc.outcome(&[
        u64s.is_some() as u8 | (i64s.is_some() as u8) << 1 | (u128s.is_some() as u8) << 2 | (i128s.is_some() as u8) << 3,
        exact.is_some() as u8,
    ]);
}

fn value<T: Prim + Copy>(mc: &mut Mc, v: T, seg: Seg, int: Int, all: bool) {
    mc.enter(seg);
    mc.guard(|mc| {
        if all {
            v.routes(&mut |name, bag| {
                mc.enter(name);
                mc.step();
                derived(bag, &mut |step, bag| {
                    mc.enter(step);
                    mc.step();
                    check(mc, bag, int);
                    mc.leave();
                });
                nested(bag, &mut |step, bag| {
                    mc.enter(step);
                    mc.step();
                    check(mc, bag, int);
                    mc.leave();
                });
                mc.trace();
                mc.leave();
            });
        } else {
            v.base(&mut |name, bag| {
                mc.enter(name);
                mc.step();
                check(mc, bag, int);
                mc.trace();
                mc.leave();
            });
        }
    });
    mc.leave();
}

/// Around every power of two and ten.
fn edges() -> Vec<i128> {
    let mut v = vec![];
    let mut centers: Vec<u128> = (0..128).map(|k| 1u128 << k).collect();
    let mut t = 1u128;
    while let Some(n) = t.checked_mul(10) {
        t = n;
        centers.push(t);
    }
    // Where floats stop having all integers
    centers.extend([(1 << 53) + (1 << 20), (1 << 24) + (1 << 10)]);
    for c in centers {
        for d in -2i128..=2 {
            if let Ok(c) = i128::try_from(c) {
                v.push(c.wrapping_add(d));
                v.push((-c).wrapping_add(d));
            }
        }
    }
    v.push(i128::MIN);
    v.push(i128::MAX);
    v.sort();
    v.dedup();
    v
}

#[allow(irrefutable_let_patterns)]
fn main() {
    run("C01", |mc| {
        macro_rules! signed {
            ($($t:ident)*) => { $(
                mc.enter(stringify!($t));
                for e in edges() {
                    if let Ok(v) = $t::try_from(e) {
                        value(mc, v, Seg::I(e), Int::I(e), true);
                    }
                }
                mc.leave();
            )* };
        }
        macro_rules! unsigned {
            ($($t:ident)*) => { $(
                mc.enter(stringify!($t));
                for e in edges() {
                    if let Ok(v) = $t::try_from(e) {
                        value(mc, v, Seg::I(e), Int::U(e as u128), true);
                    }
                }
                mc.leave();
            )* };
        }
        signed!(i16 i32 i64 isize i128);
        unsigned!(u16 u32 u64 usize u128);
        mc.enter("u128");
        for d in 0..3u128 {
            for v in [u128::MAX - d, (1 << 127) + d, (1 << 127) + (1 << 74) - 1 + d, (1u128 << 127) - 1 - d] {
                value(mc, v, Seg::U(v), Int::U(v), true);
            }
        }
        mc.leave();

        // Every 8 and 16 bit integer
        let all = mc.thorough();
        mc.enter("u8");
        for v in 0..=u8::MAX {
            value(mc, v, Seg::U(v as u128), Int::U(v as u128), true);
        }
        mc.leave();
        mc.enter("i8");
        for v in i8::MIN..=i8::MAX {
            value(mc, v, Seg::I(v as i128), Int::I(v as i128), true);
        }
        mc.leave();
        mc.enter("u16");
        for v in 0..=u16::MAX {
            value(mc, v, Seg::U(v as u128), Int::U(v as u128), all);
        }
        mc.leave();
        mc.enter("i16");
        for v in i16::MIN..=i16::MAX {
            value(mc, v, Seg::I(v as i128), Int::I(v as i128), all);
        }
        mc.leave();

        // Every 32 bit integer, in the plainest form
        if mc.thorough() {
            for (name, signed) in [("u32", false), ("i32", true)] {
                mc.enter(name);
                for hi in 0..=u16::MAX as u32 {
                    if mc.expired() {
                        break;
                    }
                    mc.guard(|mc| {
                        for lo in 0..=u16::MAX as u32 {
                            let v = hi << 16 | lo;
                            let (bag, int) = if signed {
                                (ValueBag::from(v as i32), Int::I(v as i32 as i128))
                            } else {
                                (ValueBag::from(v), Int::U(v as u128))
                            };
                            let ok = bag.to_u64() == int.u().map(|v| v as u64)
                                && bag.to_i64() == int.i().map(|v| v as i64)
                                && bag.to_f64() == Some(int.nearest());
                            mc.states += 1;
                            mc.transitions += 3;
                            mc.traces += 1;
                            mc.checks += 3;
                            if !ok {
                                mc.enter(v as usize);
                                check(mc, &bag, int);
                                mc.leave();
                            }
                        }
                    });
                }
                mc.leave();
            }
        }
    });
}
