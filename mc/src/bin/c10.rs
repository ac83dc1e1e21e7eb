//! Both frameworks see the same document, whichever one captured the value.

use mc::{
    engine::{run, Mc},
    record::Doc,
    routes::{derived, nested},
    spec::{large, specs, tree_specs, Space, Spec},
    tree::{trees, Tree},
};
use value_bag::ValueBag;

/// The `serde` bridge of `sval` wants a name for anything with a tag.
fn unnamed(spec: &Spec) -> bool {
    match spec {
        #[cfg(feature = "sval2")]
        Spec::Sval(t) | Spec::CapSval(t) | Spec::DynSval(t) => t.has(&|t| matches!(t, Tree::Number(_))),
        Spec::Fill(d) => unnamed(d.inner),
        Spec::Via(_, s) => unnamed(s),
        #[cfg(feature = "owned")]
        Spec::Static(_, _, s) | Spec::Owned(_, _, s) => unnamed(s),
        #[cfg(feature = "seq")]
        Spec::Seq(v) => v.iter().any(unnamed),
        _ => false,
    }
}

fn look(mc: &mut Mc, step: &'static str, bag: &ValueBag, unnamed: bool, expected: &Doc) {
    mc.enter(step);
    mc.state();
    #[cfg(feature = "serde1")]
    if !unnamed {
        mc.step();
        let doc = mc::record::ser::doc(bag).map_err(|e| e.0);
        mc.outcome(format!("{doc:?}").as_bytes());
        mc.eq("serde", &doc, &Ok(expected.clone()));
    }
    #[cfg(feature = "sval2")]
    if !unnamed || !step.contains("serde") {
        mc.step();
        let doc = mc::record::sv::doc(bag);
        mc.outcome(format!("{doc:?}").as_bytes());
        mc.eq("sval", &doc, &Ok(expected.clone()));
    }
    mc.leave();
}

fn check(mc: &mut Mc, spec: &Spec, levels: usize) {
    let Some(expected) = spec.doc() else { return };
    let unnamed = unnamed(spec);
    let bag = spec.bag();
    derived(&bag, &mut |step, bag| look(mc, step, bag, unnamed, &expected));
    mc.trace();
    if !unnamed {
        within(mc, &bag, levels, &expected);
    }
}

/// Bags can be values of other bags.
fn within(mc: &mut Mc, bag: &ValueBag, levels: usize, expected: &Doc) {
    nested(bag, &mut |step, bag| {
        look(mc, step, bag, false, expected);
        mc.trace();
        if levels > 1 {
            mc.enter(step);
            within(mc, bag, levels - 1, expected);
            mc.leave();
        }
    });
}

fn main() {
    run("C10", |mc| {
        let depth = if mc.thorough() { 4 } else { 3 };
        let mut all = specs(Space { tree_depth: 2, ..Space::SMALL });
        let mut deep = trees(depth);
        deep.push(Tree::Human(5));
        deep.push(Tree::Seq(true, vec![Tree::Human(1), Tree::U64(1)]));
        all.extend(tree_specs(&deep));
        let (wide, deep) = if mc.thorough() { (1000, 120) } else { (300, 70) };
        for spec in &large(wide, deep) {
            mc.guard_at(spec.name(), |mc| check(mc, spec, 1));
        }
        for spec in &all {
            if mc.expired() {
                return;
            }
            mc.guard_at(spec.name(), |mc| check(mc, spec, if mc.thorough() { 3 } else { 2 }));
        }
    });
}
