//! A deferred value is indistinguishable from the value it fills.

use mc::{
    engine::{run, Mc},
    observe::{visited, Class, Observer, OBSERVERS},
    routes::derived,
    spec::{again, large, specs, Space, Spec},
};
use std::cell::Cell;
use value_bag::{fill::Slot, ValueBag};

/// Observations that fills aren't transparent to.
fn excluded(o: &Observer, lent: bool) -> bool {
    // Questions about the bag itself, which has something to fill
    ["is_empty", "test_token", "borrowed_error"].contains(&o.name)
        // Questions about how long something can be borrowed
        || (lent && (o.class == Class::Borrow || o.name == "sval" || o.name == "visit"))
        // There's nowhere to put text that's only lent
        || (lent && cfg!(not(feature = "alloc")) && (o.name == "visit_wide" || o.name.ends_with("_seq")))
}

/// What a bag and everything derived from it say.
type Said = Vec<(&'static str, Vec<String>)>;

fn said(bag: &ValueBag) -> Said {
    let mut v = Vec::new();
    derived(bag, &mut |step, bag| v.push((step, mc::observe::all(bag))));
    v
}

fn compare(mc: &mut Mc, direct: &[String], fill: &ValueBag, count: &Cell<u64>, lent: bool) {
    mc.state();
    for (o, expected) in OBSERVERS.iter().zip(direct) {
        if excluded(o, lent) {
            continue;
        }
        mc.step();
        let before = count.get();
        let got = (o.f)(fill);
        mc.outcome(got.as_bytes());
        let fills = count.get() - before;
        if fills != 1 {
            mc.at(o.name, |mc| mc.eq("fills", &fills, &1));
        }
        mc.eq(o.name, &got, expected);
    }
    mc.trace();
}

/// What's derived from a fill is what's derived from the value.
fn derivations(mc: &mut Mc, direct: &Said, fill: &ValueBag, lent: bool) {
    let mut it = direct.iter();
    derived(fill, &mut |step, bag| {
        let (also, expected) = it.next().expect("the same derivations");
        assert_eq!(step, *also);
        mc.enter(step);
        mc.state();
        for (o, e) in OBSERVERS.iter().zip(expected) {
            if !excluded(o, lent) {
                mc.step();
                mc.eq(o.name, &(o.f)(bag), e);
            }
        }
        mc.leave();
    });
    mc.trace();
}

fn one(mc: &mut Mc, s: Spec) {
    let s: &'static Spec = Box::leak(Box::new(s));
    mc.guard_at(s.name(), |mc| {
        let direct = said(&s.bag());
        for (native, names) in [(false, ["", "fill1", "fill2", "fill3"]), (true, ["", "native_fill1", "native_fill2", "native_fill3"])] {
            if native && !has_slot_method(s) {
                continue;
            }
            let lent = native && lends(s);
            let mut f = Spec::deferred(native, s);
            for depth in 1..=3 {
                mc.enter(names[depth]);
                let Spec::Fill(d) = &f else { unreachable!() };
                compare(mc, &direct[0].1, &f.bag(), &d.count, lent);
                if depth != 2 {
                    derivations(mc, &direct, &f.bag(), lent);
                }
                f = Spec::fill(f);
                mc.leave();
            }
        }
        // Building, cloning and borrowing don't fill
        let runs = Cell::new(0);
        let fill = |slot: Slot| {
            runs.set(runs.get() + 1);
            slot.fill_any(s.bag())
        };
        let bag = ValueBag::from_fill(&fill);
        let c = bag.clone();
        let r = c.by_ref();
        let rc = r.clone();
        mc.state();
        mc.transitions += 4;
        mc.eq("fills_to_derive", &runs.get(), &0);
        visited(&rc);
        mc.eq("fills_to_visit", &runs.get(), &1);
        #[cfg(feature = "owned")]
        {
            let o = rc.to_owned();
            mc.eq("fills_to_own", &runs.get(), &2);
            visited(&o.by_ref());
            let s = bag.to_shared();
            mc.eq("fills_to_share", &runs.get(), &3);
            visited(&s.by_ref());
            let s = s.clone().into_shared();
            visited(&s.by_ref());
            mc.eq("fills_after_owning", &runs.get(), &3);
        }
    });
}

fn has_slot_method(s: &Spec) -> bool {
    match s {
        Spec::Debug(_) | Spec::Display(_) => true,
        #[cfg(feature = "serde1")]
        Spec::Serde(_) => true,
        _ => lends(s),
    }
}

/// Whether the value is filled as something that only lives as long as the callback.
fn lends(s: &Spec) -> bool {
    match s {
        #[cfg(feature = "sval2")]
        Spec::Sval(_) => true,
        #[cfg(feature = "error")]
        Spec::CapError(_) | Spec::DynError(_) => true,
        #[cfg(feature = "seq")]
        Spec::Seq(_) => true,
        _ => false,
    }
}

fn main() {
    run("C06", |mc| {
        let space = Space {
            tree_depth: if mc.thorough() { 3 } else { 2 },
            fills: false,
            ..Space::SMALL
        };
        for s in specs(space) {
            if mc.expired() {
                break;
            }
            one(mc, s);
        }
        let (wide, deep) = if mc.thorough() { (1000, 150) } else { (300, 70) };
        for s in large(wide, deep) {
            if mc.expired() {
                break;
            }
            one(mc, s);
        }
        // Fills as elements
        #[cfg(feature = "seq")]
        for s in specs(Space::BASE) {
            let s: &'static Spec = Box::leak(Box::new(s));
            let direct = Spec::Seq(vec![again(s), Spec::U64(1), again(s)]);
            let filled = Spec::Seq(vec![
                Spec::deferred(false, s),
                Spec::fill(Spec::U64(1)),
                Spec::fill(Spec::deferred(false, s)),
            ]);
            mc.guard_at(direct.name(), |mc| {
                mc.at("elements", |mc| derivations(mc, &said(&direct.bag()), &filled.bag(), false));
            });
        }
        let _ = again;
    });
}
