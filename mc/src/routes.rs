//! Every way of putting a primitive into a bag, and every way of deriving a bag from another.

use value_bag::{fill::Slot, ValueBag};

#[cfg(feature = "owned")]
use value_bag::OwnedValueBag;

/// Receives a route by name and the bag it gave.
pub type With<'a> = &'a mut dyn FnMut(&'static str, &ValueBag);

/// A primitive that can be put into a bag.
pub trait Prim: 'static {
    /// All the ways of constructing a bag of it.
    fn routes(&self, f: With);
    /// The plainest one.
    fn base(&self, f: With);
}

/// `sval` doesn't have integers of an unknown width.
macro_rules! sval_only {
    (sval { $($t:tt)* }) => {
        #[cfg(feature = "sval2")]
        {
            $($t)*
        }
    };
    (other { $($t:tt)* }) => {};
}

/// Capturing methods for any value.
macro_rules! captures {
    ($v:expr, $f:expr, $t:ty, $kind:ident) => {{
        let v: &$t = $v;
        let f: With = $f;
        if let Some(b) = ValueBag::try_capture(v) {
            f("try_capture", &b);
        } else {
            f("try_capture", &ValueBag::from_debug(&Missed));
        }
        f("capture_debug", &ValueBag::capture_debug(v));
        let o: Option<$t> = Some(v.clone());
        f("capture_debug_option", &ValueBag::capture_debug(&o));
        if let Some(b) = ValueBag::try_capture(&o) {
            f("try_capture_option", &b);
        } else {
            f("try_capture_option", &ValueBag::from_debug(&Missed));
        }
        f("capture_display", &ValueBag::capture_display(v));
        sval_only!($kind {
            f("capture_sval2", &ValueBag::capture_sval2(v));
            f("capture_sval2_option", &ValueBag::capture_sval2(&o));
        });
        #[cfg(feature = "serde1")]
        {
            f("capture_serde1", &ValueBag::capture_serde1(v));
            f("capture_serde1_option", &ValueBag::capture_serde1(&o));
        }
    }};
}

/// Stands in for a capture that should have happened.
#[derive(Debug)]
pub struct Missed;

/// Going through one of the frameworks.
macro_rules! frameworks {
    ($v:expr, $f:expr, $t:ty, $kind:ident) => {{
        sval_only!($kind {
            let v: &$t = $v;
            let f: With = $f;
            let o: Option<$t> = Some(v.clone());
            f("from_sval2", &ValueBag::from_sval2(v));
            f("from_sval2_option", &ValueBag::from_sval2(&o));
            f("from_dyn_sval2", &ValueBag::from_dyn_sval2(v));
            f("fill_sval2", &ValueBag::from_fill(&|s: Slot| s.fill_sval2(v)));
            f("fill_sval2_temp", &ValueBag::from_fill(&|s: Slot| s.fill_sval2(&(v.clone()))));
        });
        #[cfg(feature = "serde1")]
        {
            let v: &$t = $v;
            let f: With = $f;
            let o: Option<$t> = Some(v.clone());
            f("from_serde1", &ValueBag::from_serde1(v));
            f("from_serde1_option", &ValueBag::from_serde1(&o));
            f("fill_serde1", &ValueBag::from_fill(&|s: Slot| s.fill_serde1(v)));
            f("fill_serde1_temp", &ValueBag::from_fill(&|s: Slot| s.fill_serde1(&(v.clone()))));
        }
    }};
}

/// Shared captures.
macro_rules! shared {
    ($v:expr, $f:expr, $t:ty, $kind:ident) => {{
        #[cfg(feature = "owned")]
        {
            let v: $t = $v.clone();
            let f: With = $f;
            let o: Option<$t> = Some(v.clone());
            f("capture_shared_debug", &ValueBag::capture_shared_debug(v.clone()));
            f("capture_shared_display", &ValueBag::capture_shared_display(v.clone()));
            f("capture_shared_debug_option", &ValueBag::capture_shared_debug(o));
            match ValueBag::try_capture_owned(&v) {
                Some(b) => f("try_capture_owned", &b),
                None => f("try_capture_owned", &ValueBag::from_debug(&Missed)),
            }
            match ValueBag::try_capture_owned(&o) {
                Some(b) => f("try_capture_owned_option", &b),
                None => f("try_capture_owned_option", &ValueBag::from_debug(&Missed)),
            }
            sval_only!($kind {
                f("capture_shared_sval2", &ValueBag::capture_shared_sval2(v.clone()));
                f("capture_shared_sval2_option", &ValueBag::capture_shared_sval2(o));
            });
            #[cfg(feature = "serde1")]
            {
                f("capture_shared_serde1", &ValueBag::capture_shared_serde1(v.clone()));
                f("capture_shared_serde1_option", &ValueBag::capture_shared_serde1(o));
            }
        }
    }};
}

macro_rules! prims {
    ($($t:ident $from:ident $kind:ident,)*) => { $(
        impl Prim for $t {
            fn base(&self, f: With) {
                f("from", &ValueBag::from(*self));
            }

            fn routes(&self, f: With) {
                let v = *self;
                f("from", &ValueBag::from(v));
                f("from_ref", &ValueBag::from(&v));
                f("ctor", &ValueBag::$from(v));
                f("option", &ValueBag::from(Some(v)));
                f("from_option", &ValueBag::from_option(Some(v)));
                f("from_option_ref", &ValueBag::from_option(Some(&v)));
                f("fill", &ValueBag::from_fill(&|s: Slot| s.fill_any(v)));
                f("fill_fill", &ValueBag::from_fill(&|s: Slot| {
                    s.fill_any(ValueBag::from_option(Some(v)))
                }));
                captures!(&v, f, $t, $kind);
                frameworks!(&v, f, $t, $kind);
                shared!(&v, f, $t, $kind);
            }
        }
    )* };
}

prims!(
    u8 from_u8 sval, u16 from_u16 sval, u32 from_u32 sval, u64 from_u64 sval, usize from_usize other,
    i8 from_i8 sval, i16 from_i16 sval, i32 from_i32 sval, i64 from_i64 sval, isize from_isize other,
    f32 from_f32 sval, f64 from_f64 sval, bool from_bool sval, char from_char sval,
);

macro_rules! wide {
    ($($t:ident $from:ident $from_ref:ident,)*) => { $(
        impl Prim for $t {
            fn base(&self, f: With) {
                f("from_ref", &ValueBag::from(self));
            }

            fn routes(&self, f: With) {
                let v = *self;
                f("from_ref", &ValueBag::from(&v));
                f("ctor_ref", &ValueBag::$from_ref(&v));
                f("from_option_ref", &ValueBag::from_option(Some(&v)));
                #[cfg(feature = "inline-i128")]
                {
                    f("from", &ValueBag::from(v));
                    f("ctor", &ValueBag::$from(v));
                    f("from_option", &ValueBag::from_option(Some(v)));
                    f("fill", &ValueBag::from_fill(&|s: Slot| s.fill_any(v)));
                    // There's nowhere to keep them in owned bags otherwise
                    shared!(&v, f, $t, sval);
                }
                captures!(&v, f, $t, sval);
                frameworks!(&v, f, $t, sval);
            }
        }
    )* };
}

wide!(u128 from_u128 from_u128_ref, i128 from_i128 from_i128_ref,);

/// A bag and everything derived from it by a few steps.
pub fn derived(bag: &ValueBag, f: With) {
    f("", bag);
    f("clone", &bag.clone());
    f("by_ref", &bag.by_ref());
    #[cfg(feature = "owned")]
    {
        let o = bag.to_owned();
        owned_views(["own", "own+clone", "own+into_shared"], o, f);
        let o = bag.to_shared();
        owned_views(["share", "share+clone", "share+into_shared"], o, f);
    }
}

#[cfg(feature = "owned")]
fn owned_views(names: [&'static str; 3], o: OwnedValueBag, f: With) {
    f(names[0], &o.by_ref());
    let c = o.clone();
    f(names[2], &o.into_shared().by_ref());
    f(names[1], &c.by_ref());
}

/// A bag within a bag.
#[allow(unused_variables)]
pub fn nested(bag: &ValueBag, f: With) {
    #[cfg(feature = "sval2")]
    {
        f("in_sval2", &ValueBag::from_sval2(bag));
        f("in_dyn_sval2", &ValueBag::from_dyn_sval2(bag));
    }
    #[cfg(feature = "serde1")]
    f("in_serde1", &ValueBag::from_serde1(bag));
    #[cfg(feature = "owned")]
    {
        let o = bag.to_owned();
        f("from_owned", &ValueBag::from(&o));
        #[cfg(feature = "sval2")]
        f("owned_in_sval2", &ValueBag::from_sval2(&o));
        #[cfg(feature = "serde1")]
        f("owned_in_serde1", &ValueBag::from_serde1(&o));
    }
}

/// Walk every sequence of at most `depth` derivation steps from a bag.
///
/// The second argument of the callback says how many steps buffered or shared the value.
pub fn histories(mc: &mut crate::engine::Mc, bag: &ValueBag, depth: usize, f: &mut dyn FnMut(&mut crate::engine::Mc, &ValueBag, usize)) {
    walk(mc, bag, depth, 0, f)
}

fn walk(
    mc: &mut crate::engine::Mc,
    bag: &ValueBag,
    depth: usize,
    buffered: usize,
    f: &mut dyn FnMut(&mut crate::engine::Mc, &ValueBag, usize),
) {
    f(mc, bag, buffered);
    if depth == 0 {
        mc.trace();
        return;
    }
    let depth = depth - 1;
    macro_rules! op {
        ($name:literal, $bag:expr, $buffered:expr) => {
            mc.enter($name);
            mc.step();
            walk(mc, $bag, depth, $buffered, f);
            mc.leave();
        };
    }
    op!("clone", &bag.clone(), buffered);
    op!("by_ref", &bag.by_ref(), buffered);
    #[cfg(feature = "owned")]
    {
        let n = buffered + 1;
        let o = bag.to_owned();
        op!("own", &o.by_ref(), n);
        let c = o.clone();
        // What's left has to do without the first handle
        drop(o);
        op!("own_clone", &ValueBag::from(&c), n);
        let s = c.into_shared();
        op!("own_share", &s.by_ref(), n);
        drop(s);
        let s = bag.to_shared();
        op!("share", &s.by_ref(), n);
        let c = s.clone();
        drop(s);
        let c = c.into_shared();
        op!("share_share", &c.by_ref(), n);
    }
}
