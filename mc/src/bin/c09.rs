//! Structured values pass through their own framework unchanged.

use mc::{
    engine::{run, Mc},
    routes::derived,
    spec::tree_name,
    tree::{trees, Tree},
};
use value_bag::{fill::Slot, ValueBag};

/// Every way into a bag with `serde`, by name.
#[cfg(feature = "serde1")]
fn serde_routes(t: &'static Tree, f: mc::routes::With) {
    f("from_serde1", &ValueBag::from_serde1(t));
    f("capture_serde1", &ValueBag::capture_serde1(t));
    f("from_serde1_ref", &ValueBag::from_serde1(&t));
    f("fill_serde1", &ValueBag::from_fill(&|s: Slot| s.fill_serde1(t)));
    f("fill_any", &ValueBag::from_fill(&|s: Slot| s.fill_any(ValueBag::from_serde1(t))));
    f("in_serde1", &ValueBag::from_serde1(&ValueBag::from_serde1(t)));
    f("in_fill", &ValueBag::from_serde1(&ValueBag::from_fill(&|s: Slot| s.fill_serde1(t))));
    #[cfg(feature = "owned")]
    f("capture_shared_serde1", &ValueBag::capture_shared_serde1(t.clone()));
}

/// Every way into a bag with `sval`; the flag tells whether the value is borrowed all the way through.
#[cfg(feature = "sval2")]
fn sval_routes(t: &'static Tree, f: &mut dyn FnMut(&'static str, &ValueBag, bool)) {
    f("from_sval2", &ValueBag::from_sval2(t), true);
    f("capture_sval2", &ValueBag::capture_sval2(t), true);
    f("from_dyn_sval2", &ValueBag::from_dyn_sval2(t), true);
    f("from_sval2_ref", &ValueBag::from_sval2(&t), true);
    let d: &dyn sval_dynamic::Value = t;
    f("from", &ValueBag::from(d), true);
    f("from_ref", &ValueBag::from(&d), true);
    f("option", &ValueBag::from(Some(d)), true);
    f("fill_sval2", &ValueBag::from_fill(&|s: Slot| s.fill_sval2(t)), false);
    f("fill_any", &ValueBag::from_fill(&|s: Slot| s.fill_any(ValueBag::from_sval2(t))), false);
    f("in_sval2", &ValueBag::from_sval2(&ValueBag::from_sval2(t)), false);
    f("in_fill", &ValueBag::from_sval2(&ValueBag::from_fill(&|s: Slot| s.fill_sval2(t))), false);
    #[cfg(feature = "owned")]
    f("capture_shared_sval2", &ValueBag::capture_shared_sval2(t.clone()), false);
}

fn is_buffered(step: &str, route: &str) -> bool {
    (step.starts_with("own") || step.starts_with("share")) && !route.starts_with("capture_shared")
}

/// Tokens without the lengths `serde`'s buffers fill in and the skipped fields they don't keep.
#[cfg(feature = "serde1")]
fn counted(toks: Vec<String>) -> Vec<String> {
    let any = |t: String, what: &str| if t.starts_with(what) { what.to_owned() } else { t };
    toks.into_iter()
        .filter(|t| !t.starts_with("skip("))
        .map(|t| any(any(t, "seq("), "map("))
        .collect()
}

#[cfg(feature = "serde1")]
fn serde(mc: &mut Mc, t: &'static Tree) {
    use mc::record::ser::tokens;
    let expected: Vec<_> = [true, false].iter().map(|h| tokens(t, *h)).collect();
    serde_routes(t, &mut |route, bag| {
        mc.enter(route);
        derived(bag, &mut |step, bag| {
            mc.enter(step);
            mc.state();
            for (i, human) in [true, false].into_iter().enumerate() {
                mc.step();
                let got = tokens(bag, human);
                mc.outcome(format!("{got:?}").as_bytes());
                let field = if human { "human" } else { "compact" };
                if !is_buffered(step, route) {
                    mc.eq(field, &got, &expected[i]);
                } else {
                    let got = got.map(counted);
                    let expected: Vec<_> = expected.iter().cloned().map(|e| e.map(counted)).collect();
                    mc.ensure(field, expected.contains(&got), || format!("{got:?}"), &format!("{expected:?}"));
                }
            }
            mc.leave();
        });
        mc.trace();
        mc.leave();
    });
}

/// Tokens without the tags of labels, which `sval`'s buffers don't keep, and the lengths they fill in.
#[cfg(feature = "sval2")]
fn plain(toks: Vec<String>) -> Vec<String> {
    let any = |t: String, what: &str| if t.starts_with(what) { what.to_owned() } else { t };
    toks.into_iter()
        .map(|t| any(any(t.replace("\":Tag(\"VALUE_IDENT\")", "\":-"), "seq_begin("), "map_begin("))
        .collect()
}

#[cfg(feature = "sval2")]
fn sval(mc: &mut Mc, t: &'static Tree) {
    use mc::record::sv::{merged, tokens, SvalRec};
    let mut direct = SvalRec::default();
    let ok = sval::Value::stream(t, &mut direct).is_ok();
    let expected = if ok { Ok(direct.toks.clone()) } else { Err(()) };
    let expected_merged = merged(t);
    sval_routes(t, &mut |route, bag, borrowed| {
        mc.enter(route);
        derived(bag, &mut |step, bag| {
            mc.enter(step);
            mc.state();
            let buffered = is_buffered(step, route);
            mc.step();
            let got = tokens(bag);
            mc.outcome(format!("{got:?}").as_bytes());
            if !buffered && borrowed {
                mc.eq("stream", &got, &expected);
            }
            mc.step();
            let m = merged(bag);
            if buffered {
                mc.eq("merged", &m.map(plain), &expected_merged.clone().map(plain));
            } else {
                mc.eq("merged", &m, &expected_merged);
            }
            let mut rec = SvalRec::default();
            let r = sval_ref::stream_ref(&mut rec, bag).map_err(|_| ());
            mc.step();
            if !buffered && borrowed {
                mc.eq("stream_ref", &r.map(|_| rec.toks), &expected);
                mc.eq("borrowed", &rec.borrowed, &direct.borrowed);
            }
            mc.leave();
        });
        mc.trace();
        mc.leave();
    });
}

fn main() {
    run("C09", |mc| {
        let depth = if mc.thorough() { 4 } else { 3 };
        let mut all = trees(depth);
        for t in [Tree::Human(5), Tree::Seq(true, vec![Tree::Human(1), Tree::U64(1)]), Tree::Struct(vec![("f", Tree::Human(2))])] {
            all.push(t);
        }
        let (wide, deep) = if mc.thorough() { (1000, 150) } else { (300, 150) };
        all.extend(mc::tree::large_trees(wide, deep));
        let all: &'static [Tree] = all.leak();
        for t in all {
            if mc.expired() {
                return;
            }
            mc.guard_at(tree_name(t), |mc| {
                #[cfg(feature = "serde1")]
                mc.at("serde", |mc| serde(mc, t));
                #[cfg(feature = "sval2")]
                mc.at("sval", |mc| sval(mc, t));
            });
        }
    });
}
