//! Observing a bag is repeatable and leaves no trace.

use mc::{
    engine::{run, Mc},
    observe::OBSERVERS,
    record::{Fault, FmtRec},
    spec::{again, small, specs, tree_specs, Space, Spec, Txt},
    tree::{trees, with_hook, Tree},
};
use std::fmt::Write as _;
use value_bag::ValueBag;

/// A way of looking at a bag, including ones that are cut short.
struct Look {
    name: String,
    f: Box<dyn Fn(&ValueBag) -> String>,
}

/// Observations, and observations that fail or panic half way.
fn looks() -> Vec<Look> {
    let mut v: Vec<Look> = OBSERVERS
        .iter()
        .map(|o| Look {
            name: o.name.into(),
            f: Box::new(|b| (o.f)(b)),
        })
        .collect();
    v.push(Look {
        name: "display_cut".into(),
        f: Box::new(|b| {
            let mut w = FmtRec { fault: Fault::at(1), out: Vec::new() };
            let r = write!(w, "{b:?}");
            format!("{r:?} {:?}", w.out)
        }),
    });
    #[cfg(feature = "serde1")]
    v.push(Look {
        name: "serde_cut".into(),
        f: Box::new(|b| {
            let mut rec = mc::record::ser::SerRec::new(true);
            rec.fault = Fault::at(1);
            let r = serde::Serialize::serialize(b, &mut rec).map_err(|e| e.0);
            format!("{r:?} {:?}", rec.toks)
        }),
    });
    #[cfg(feature = "sval2")]
    v.push(Look {
        name: "sval_cut".into(),
        f: Box::new(|b| {
            let mut rec = mc::record::sv::SvalRec::default();
            rec.fault = Fault::at(1);
            let r = sval::Value::stream(b, &mut rec).is_ok();
            format!("{r:?} {:?}", rec.toks)
        }),
    });
    v.push(Look {
        name: "visit_cut".into(),
        f: Box::new(|b| {
            let mut v = mc::observe::VisitRec { fail: true, ..Default::default() };
            let r = b.visit(&mut v).map_err(|e| e.to_string());
            format!("{r:?} {:?}", v.calls)
        }),
    });
    #[cfg(feature = "owned")]
    {
        v.push(Look {
            name: "own".into(),
            f: Box::new(|b| b.to_owned().to_string()),
        });
        v.push(Look {
            name: "share".into(),
            f: Box::new(|b| b.to_shared().clone().into_shared().to_string()),
        });
    }
    v
}

/// A sequence of `0..k` in which every run of `n` occurs.
fn runs(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, out);
            }
        }
    }
    let mut out = Vec::new();
    db(1, 1, k, n, &mut vec![0; k * n + 1], &mut out);
    let wrap: Vec<_> = out[..n - 1].to_vec();
    out.extend(wrap);
    out
}

/// Every observation alone on a fresh bag.
fn alone(spec: &Spec, looks: &[Look]) -> Vec<String> {
    looks
        .iter()
        .map(|l| {
            let fresh = again(spec);
            (l.f)(&fresh.bag())
        })
        .collect()
}

fn compare(mc: &mut Mc, look: &Look, before: &str, got: &str, expected: &str) {
    mc.step();
    if got != expected {
        mc.at(format!("{}_after_{before}", look.name), |mc| mc.violate("result", got.to_owned(), expected.to_owned()));
    }
    mc.checks += 1;
}

/// All runs of observations of one bag.
fn repeat(mc: &mut Mc, spec: &Spec, looks: &[Look], seq: &[usize]) {
    let expected = alone(spec, looks);
    let bag = spec.bag();
    mc.state();
    mc.outcome(expected.concat().as_bytes());
    let mut before = "nothing";
    for i in seq {
        let l = &looks[*i];
        mc.state();
        compare(mc, l, before, &(l.f)(&bag), &expected[*i]);
        before = &l.name;
    }
    mc.trace();
}

/// Observe one handle, then another.
fn handles(mc: &mut Mc, spec: &Spec, looks: &[Look]) {
    let expected = alone(spec, looks);
    let bag = spec.bag();
    let clone = bag.clone();
    let by_ref = clone.by_ref();
    // Each handle of a buffered value has to be the same as well
    #[cfg(feature = "owned")]
    let (owned, shared) = (bag.to_owned(), bag.to_shared());
    #[cfg(feature = "owned")]
    let (o2, s2) = (owned.clone(), shared.clone());
    #[cfg(feature = "owned")]
    let (b_owned, b_o2, b_shared, b_s2) = (owned.by_ref(), o2.by_ref(), shared.by_ref(), s2.by_ref());
    #[allow(unused_mut)]
    let mut all: Vec<(&str, &ValueBag, Vec<String>)> = vec![
        ("bag", &bag, expected.clone()),
        ("clone", &clone, expected.clone()),
        ("by_ref", &by_ref, expected),
    ];
    #[cfg(feature = "owned")]
    {
        let e: Vec<String> = looks.iter().map(|l| (l.f)(&again(spec).bag().to_owned().by_ref())).collect();
        all.push(("owned", &b_owned, e.clone()));
        all.push(("owned2", &b_o2, e));
        let e: Vec<String> = looks.iter().map(|l| (l.f)(&again(spec).bag().to_shared().by_ref())).collect();
        all.push(("shared", &b_shared, e.clone()));
        all.push(("shared2", &b_s2, e));
    }
    for (first, a, _) in &all {
        for (second, b, expected) in &all {
            mc.enter(*first);
            mc.enter(*second);
            for la in looks {
                mc.state();
                let _ = (la.f)(a);
                for (i, lb) in looks.iter().enumerate().filter(|(i, _)| i % 7 == 0) {
                    compare(mc, lb, &la.name, &(lb.f)(b), &expected[i]);
                }
            }
            mc.trace();
            mc.leave();
            mc.leave();
        }
    }
}

/// Observe one bag, then another one.
fn others(mc: &mut Mc, all: &[Spec], looks: &[Look]) {
    let expected: Vec<Vec<String>> = all.iter().map(|s| alone(s, looks)).collect();
    for a in all {
        for (b, expected) in all.iter().zip(&expected) {
            if mc.expired() {
                return;
            }
            mc.guard_at(format!("{}+{}", a.name(), b.name()), |mc| {
                let (x, y) = (a.bag(), b.bag());
                for la in looks {
                    mc.state();
                    for (lb, expected) in looks.iter().zip(expected) {
                        let _ = (la.f)(&x);
                        compare(mc, lb, &la.name, &(lb.f)(&y), expected);
                    }
                }
                mc.trace();
            });
        }
    }
}

/// Panic in the middle of every observation, then make another.
fn panics(mc: &mut Mc, looks: &[Look]) {
    let hooked = Txt { hook: Some(1), ..Txt::raw(["a", "b"]) };
    let tree = Tree::Seq(true, vec![Tree::U64(1), Tree::Hook(1, Box::new(Tree::Text("x".into()))), Tree::U64(2)]);
    #[allow(unused_mut)]
    let mut all = vec![
        Spec::Debug(hooked.clone()),
        Spec::CapDisplay(hooked.clone()),
        Spec::fill(Spec::Debug(hooked.clone())),
    ];
    all.extend(tree_specs(&[tree, Tree::Hook(1, Box::new(Tree::U64(5)))]));
    #[cfg(feature = "seq")]
    all.push(Spec::Seq(vec![Spec::U64(1), Spec::Debug(hooked.clone()), Spec::Str("z".into())]));
    #[cfg(feature = "owned")]
    all.extend(mc::spec::shared("shared", Spec::Debug(hooked)));
    let rest = small();
    let rest_expected: Vec<Vec<String>> = rest.iter().map(|s| alone(s, looks)).collect();
    for spec in &all {
        let expected = alone(spec, looks);
        let bag = spec.bag();
        for la in looks {
            for nth in 0..3 {
                if mc.expired() {
                    return;
                }
                mc.guard_at(format!("{}/{}/{nth}", spec.name(), la.name), |mc| {
                    mc.state();
                    mc.step();
                    let left = std::cell::Cell::new(nth);
                    let hit = std::rc::Rc::new(std::cell::Cell::new(false));
                    let seen = hit.clone();
                    let hook = move |_| {
                        if left.get() == 0 {
                            seen.set(true);
                            std::panic::resume_unwind(Box::new("planned"));
                        }
                        left.set(left.get() - 1);
                    };
                    let r = with_hook(hook, || std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (la.f)(&bag))));
                    mc.outcome(if hit.get() { &b"panicked"[..] } else { &b"ran through"[..] });
                    mc.ensure("unwinds", r.is_err() == hit.get(), || format!("{r:?}"), "the panic of the value");
                    for (lb, expected) in looks.iter().zip(&expected) {
                        compare(mc, lb, &la.name, &(lb.f)(&bag), expected);
                    }
                    for (other, expected) in rest.iter().zip(&rest_expected) {
                        let b = other.bag();
                        for i in [0, 8, 28, 34, 40] {
                            if let (Some(l), Some(e)) = (looks.get(i), expected.get(i)) {
                                compare(mc, l, &la.name, &(l.f)(&b), e);
                            }
                        }
                    }
                    mc.trace();
                });
            }
        }
    }
}

/// Values that come in twos of a kind, so that they take the same place in memory.
fn twos() -> Vec<Spec> {
    let mut v = vec![
        Spec::Null,
        Spec::U64(7),
        Spec::U64(8),
        Spec::I64(-1),
        Spec::I64(-2),
        Spec::U128(u128::MAX),
        Spec::U128(u128::MAX - 1),
        Spec::F64(1.5),
        Spec::F64(2.5),
        Spec::Bool(true),
        Spec::Bool(false),
        Spec::Char('c'),
        Spec::Char('d'),
        Spec::Str("s".into()),
        Spec::Str("t".into()),
        Spec::Display(Txt::new("p")),
        Spec::Display(Txt::new("q")),
        Spec::CapDebug(Txt::new("p")),
        Spec::CapDebug(Txt::new("q")),
    ];
    #[cfg(feature = "error")]
    v.extend([
        Spec::CapError(mc::spec::Er::chain(&["e", "cause"])),
        Spec::CapError(mc::spec::Er::chain(&["f", "reason"])),
    ]);
    v.extend(tree_specs(&[
        Tree::U64(1),
        Tree::U64(2),
        Tree::Text("t".into()),
        Tree::Text("u".into()),
        Tree::Seq(true, vec![Tree::I64(1)]),
        Tree::Seq(true, vec![Tree::I64(2)]),
    ]));
    v
}

/// Observe a value, put another one in its place and observe that.
fn reuse(mc: &mut Mc, all: &[Spec], looks: &[Look]) {
    let expected: Vec<Vec<String>> = all.iter().map(|s| alone(s, looks)).collect();
    let mut place = Box::new(Spec::Null);
    for a in all {
        for (b, expected) in all.iter().zip(&expected) {
            if mc.expired() {
                return;
            }
            mc.guard_at(format!("{}+{}", a.name(), b.name()), |mc| {
                for (l, expected) in looks.iter().zip(expected) {
                    mc.state();
                    *place = again(a);
                    let _ = (l.f)(&place.bag());
                    *place = again(b);
                    compare(mc, l, &l.name, &(l.f)(&place.bag()), expected);
                }
                mc.trace();
            });
        }
    }
}

fn main() {
    run("C21", |mc| {
        let thorough = mc.thorough();
        let looks = looks();
        let pairs = runs(looks.len(), 2);
        let mut all = specs(Space { tree_depth: 1, ..Space::SMALL });
        if thorough {
            all.extend(tree_specs(&trees(2)));
        }
        mc.at("pairs", |mc| {
            for spec in &all {
                if mc.expired() {
                    return;
                }
                mc.guard_at(spec.name(), |mc| repeat(mc, spec, &looks, &pairs));
            }
        });
        let few = small();
        mc.at("triples", |mc| {
            let triples = runs(looks.len(), 3);
            for spec in few.iter().step_by(if thorough { 1 } else { 3 }) {
                if mc.expired() {
                    return;
                }
                mc.guard_at(spec.name(), |mc| repeat(mc, spec, &looks, &triples));
            }
        });
        mc.at("handles", |mc| {
            for spec in few.iter() {
                if mc.expired() {
                    return;
                }
                mc.guard_at(spec.name(), |mc| handles(mc, spec, &looks));
            }
        });
        mc.at("others", |mc| {
            let some: Vec<Spec> = few.iter().enumerate().filter(|(i, _)| thorough || i % 3 == 0).map(|(_, s)| again(s)).collect();
            others(mc, &some, &looks)
        });
        mc.at("reuse", |mc| {
            let forms: [(&str, fn(Spec) -> Spec); 5] = [
                ("plain", |s| s),
                ("fill", Spec::fill),
                ("fill_native", Spec::fill_native),
                ("fill2", |s| Spec::fill(Spec::fill(s))),
                #[cfg(feature = "seq")]
                ("seq", |s| Spec::Seq(vec![s])),
                #[cfg(not(feature = "seq"))]
                ("fill3", |s| Spec::fill(Spec::fill(Spec::fill(s)))),
            ];
            for (name, form) in forms {
                let all: Vec<Spec> = twos().into_iter().map(form).collect();
                mc.at(name, |mc| reuse(mc, &all, &looks));
            }
        });
        mc.at("panics", |mc| panics(mc, &looks));
    });
}
