//! What is observed doesn't depend on storage and unrelated features.
//!
//! Every observation is written down; the driver compares them across configurations.

use mc::{
    engine::{run, Mc},
    observe::{Class, Observer, OBSERVERS},
    routes::{derived, histories, nested},
    spec::{prims, small, large, specs, Space, Spec, Txt},
};
use value_bag::ValueBag;

/// Whether the observation is about something other than borrows and storage.
fn visible(o: &Observer) -> bool {
    o.class != Class::Borrow && o.name != "test_token"
}

fn observe(mc: &mut Mc, bag: &ValueBag, only: impl Fn(&Observer) -> bool) {
    mc.state();
    let mut all = Vec::new();
    for o in OBSERVERS.iter().filter(|o| visible(o) && only(o)) {
        mc.step();
        mc.checks += 1;
        all.push((o.name, (o.f)(bag)));
    }
    mc.outcome(format!("{all:?}").as_bytes());
    mc.dump(&all);
    mc.trace();
}

/// Whether text has to be kept to be observed, which can't be done without an allocator.
fn kept(o: &Observer, spec: &Spec, step: &str) -> bool {
    cfg!(all(feature = "sval2", not(feature = "alloc")))
        && (o.name.starts_with("visit") || o.name.ends_with("_seq"))
        && (step.contains("sval") || spec.full_name().to_lowercase().contains("sval"))
}

fn look(mc: &mut Mc, spec: &Spec) {
    let bag = spec.bag();
    derived(&bag, &mut |step, bag| mc.at(step, |mc| observe(mc, bag, |o| !kept(o, spec, step))));
    nested(&bag, &mut |step, bag| mc.at(step, |mc| observe(mc, bag, |o| !kept(o, spec, step))));
}

fn main() {
    run("C20", |mc| {
        let depth = if mc.thorough() { 2 } else { 1 };
        mc.at("values", |mc| {
            for spec in specs(Space { tree_depth: depth, ..Space::SMALL }) {
                if mc.expired() {
                    return;
                }
                mc.guard_at(spec.name(), |mc| look(mc, &spec));
            }
        });
        mc.at("large", |mc| {
            let (wide, deep) = if mc.thorough() { (1000, 100) } else { (300, 40) };
            for spec in large(wide, deep) {
                mc.guard_at(spec.name(), |mc| look(mc, &spec));
            }
        });
        // Around the sizes of inline storage
        mc.at("texts", |mc| {
            for n in 0..60 {
                for c in ["x", "\u{e9}", "\u{1F600}"] {
                    let s = c.repeat(n);
                    for (i, spec) in [
                        Spec::Str(s.clone()),
                        Spec::CapDebug(Txt::new(&s)),
                        Spec::Display(Txt::new(&s)),
                        Spec::fill(Spec::Str(s.clone())),
                        Spec::Display(Txt::raw([s.clone(), "y".into()])),
                        Spec::Display(Txt::failing(&s)),
                    ]
                    .iter()
                    .enumerate()
                    {
                        mc.guard_at(format!("{c}*{n}:{i}"), |mc| look(mc, spec));
                    }
                }
            }
        });
        mc.at("histories", |mc| {
            let mut v = prims();
            v.extend(small());
            for spec in v {
                if mc.expired() {
                    return;
                }
                mc.guard_at(spec.name(), |mc| {
                    let bag = spec.bag();
                    histories(mc, &bag, depth + 2, &mut |mc, bag, _| observe(mc, bag, |o| o.class == Class::Value && !kept(o, &spec, "")));
                });
            }
        });
    });
}
