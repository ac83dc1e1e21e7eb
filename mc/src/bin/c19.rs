//! Concurrent and re-entrant use behaves as if each operation ran alone.

use mc::{
    engine::{run, Mc},
    observe::{by_name, VisitRec},
    record::{Fault, FmtRec},
    sched::{following, Job, Pool},
    spec::Txt,
    tree::{fire, with_hook, Tree},
};
use std::{cell::Cell, fmt::Write as _, rc::Rc};
use value_bag::{fill::Slot, visit::Visit, Error, ValueBag};

/// Something to make a bag of, whose own code has scheduling points.
struct Site {
    name: &'static str,
    with: fn(&mut dyn FnMut(&ValueBag)),
}

fn txt() -> Txt {
    Txt { hook: Some(0), ..Txt::raw(["ab", "c"]) }
}

macro_rules! leaked {
    ($t:ty, $v:expr) => {{
        static V: std::sync::OnceLock<$t> = std::sync::OnceLock::new();
        V.get_or_init(|| $v)
    }};
}

fn seq_tree() -> Tree {
    Tree::Seq(true, vec![Tree::U64(1), Tree::Hook(0, Box::new(Tree::Text("x".into())))])
}

fn text_tree() -> Tree {
    Tree::Hook(0, Box::new(Tree::Text("some text".into())))
}

/// Shows itself as a bag of formatted text.
struct Elem(Txt);

impl<'v> From<&'v Elem> for ValueBag<'v> {
    fn from(v: &'v Elem) -> Self {
        ValueBag::from_display(&v.0)
    }
}

const SITES: &[Site] = &[
    Site {
        name: "debug",
        with: |f| f(&ValueBag::from_debug(leaked!(Txt, txt()))),
    },
    Site {
        name: "display",
        with: |f| f(&ValueBag::capture_display(leaked!(Txt, txt()))),
    },
    Site {
        name: "fill",
        with: |f| {
            f(&ValueBag::from_fill(&|s: Slot| {
                fire(0);
                s.fill_any("filled text")
            }))
        },
    },
    Site {
        name: "fill_debug",
        with: |f| {
            f(&ValueBag::from_fill(&|s: Slot| s.fill_debug(leaked!(Txt, txt()))));
        },
    },
    Site {
        name: "plain",
        with: |f| f(&ValueBag::from("plain text")),
    },
    #[cfg(feature = "error")]
    Site {
        name: "error",
        with: |f| {
            use mc::spec::Er;
            let new = || Er {
                msg: txt(),
                source: Some(Box::new(Er { msg: Txt { hook: None, ..txt() }, source: None })),
            };
            f(&ValueBag::capture_error(leaked!(Er, new())))
        },
    },
    #[cfg(feature = "sval2")]
    Site {
        name: "sval_text",
        with: |f| f(&ValueBag::from_sval2(leaked!(Tree, text_tree()))),
    },
    #[cfg(feature = "sval2")]
    Site {
        name: "sval_seq",
        with: |f| f(&ValueBag::capture_sval2(leaked!(Tree, seq_tree()))),
    },
    #[cfg(feature = "serde1")]
    Site {
        name: "serde_text",
        with: |f| f(&ValueBag::capture_serde1(leaked!(Tree, text_tree()))),
    },
    #[cfg(feature = "serde1")]
    Site {
        name: "serde_seq",
        with: |f| f(&ValueBag::from_serde1(leaked!(Tree, seq_tree()))),
    },
    #[cfg(feature = "seq")]
    Site {
        name: "seq",
        with: |f| {
            let v = leaked!([Elem; 2], [Elem(txt()), Elem(Txt { hook: None, ..txt() })]);
            f(&ValueBag::from_seq_slice::<[Elem; 2], Elem>(v))
        },
    },
    #[cfg(feature = "owned")]
    Site {
        name: "shared_debug",
        with: |f| f(&leaked!(value_bag::OwnedValueBag, ValueBag::capture_shared_debug(txt()).to_shared()).by_ref()),
    },
    #[cfg(all(feature = "owned", feature = "sval2"))]
    Site {
        name: "shared_sval",
        with: |f| f(&leaked!(value_bag::OwnedValueBag, ValueBag::capture_shared_sval2(seq_tree()).to_shared()).by_ref()),
    },
    #[cfg(all(feature = "owned", feature = "serde1"))]
    Site {
        name: "shared_serde",
        with: |f| f(&leaked!(value_bag::OwnedValueBag, ValueBag::capture_shared_serde1(text_tree()).to_shared()).by_ref()),
    },
    #[cfg(feature = "owned")]
    Site {
        name: "buffered",
        with: |f| {
            f(&leaked!(
                value_bag::OwnedValueBag,
                ValueBag::from_display(&"some text that is longer than the inline storage of any configuration").to_shared()
            )
            .by_ref())
        },
    },
    #[cfg(all(feature = "owned", feature = "sval2"))]
    Site {
        name: "buffered_sval",
        with: |f| f(&leaked!(value_bag::OwnedValueBag, ValueBag::from_sval2(&seq_tree()).to_shared()).by_ref()),
    },
];

/// An operation on a bag, with scheduling points in the consumer for some.
struct Op {
    name: &'static str,
    f: fn(&ValueBag) -> String,
}

fn observe(name: &str, b: &ValueBag) -> String {
    (by_name(name).expect("known observer").f)(b)
}

/// Has a scheduling point in every call.
struct Visitor(Vec<String>);

impl<'v> Visit<'v> for Visitor {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        fire(1);
        self.0.push(format!("{v}"));
        Ok(())
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        fire(1);
        self.0.push(v.into());
        Ok(())
    }
}

const OPS: &[Op] = &[
    Op { name: "display", f: |b| observe("display", b) },
    Op { name: "debug", f: |b| observe("debug", b) },
    Op {
        name: "write",
        f: |b| {
            let mut w = FmtRec { fault: Fault::hooked(1), out: Vec::new() };
            let r = write!(w, "{b}");
            format!("{r:?} {:?}", w.out.concat())
        },
    },
    Op { name: "to_u64", f: |b| observe("to_u64", b) },
    #[cfg(feature = "alloc")]
    Op { name: "to_str", f: |b| observe("to_str", b) },
    Op {
        name: "visit",
        f: |b| {
            let mut v = Visitor(Vec::new());
            let r = b.visit(&mut v).is_ok();
            format!("{r:?} {:?}", v.0)
        },
    },
    Op {
        name: "visit_fail",
        f: |b| {
            let mut v = VisitRec { fail: true, ..Default::default() };
            let r = b.visit(&mut v).is_ok();
            format!("{r:?} {:?}", v.calls)
        },
    },
    #[cfg(feature = "serde1")]
    Op {
        name: "serde",
        f: |b| {
            let mut rec = mc::record::ser::SerRec::new(true);
            rec.fault = Fault::hooked(1);
            let r = serde::Serialize::serialize(b, &mut rec).map_err(|e| e.0);
            format!("{r:?} {:?}", rec.toks)
        },
    },
    #[cfg(feature = "sval2")]
    Op {
        name: "sval",
        f: |b| {
            let mut rec = mc::record::sv::SvalRec::default();
            rec.fault = Fault::hooked(1);
            let r = sval::Value::stream(b, &mut rec).is_ok();
            format!("{r:?} {:?}", rec.toks)
        },
    },
    #[cfg(feature = "seq")]
    Op { name: "u64_seq", f: |b| observe("u64_seq", b) },
    #[cfg(all(feature = "seq", feature = "alloc"))]
    Op { name: "str_seq", f: |b| observe("str_seq", b) },
    #[cfg(feature = "owned")]
    Op {
        name: "own",
        f: |b| {
            let o = b.to_owned();
            let s = o.clone().into_shared();
            drop(o);
            mc::tree::with_hook(|_| (), || format!("{s} {s:?}"))
        },
    },
    #[cfg(feature = "owned")]
    Op {
        name: "share",
        f: |b| {
            let s = b.to_shared();
            fire(2);
            let c = s.clone();
            fire(2);
            drop(s);
            mc::tree::with_hook(|_| (), || format!("{c}"))
        },
    },
];

fn apply(op: &'static Op, site: &'static Site) -> String {
    let mut out = String::new();
    (site.with)(&mut |bag| out = (op.f)(bag));
    out
}

fn schedules(mc: &mut Mc, pool: &Pool, work: &[(&'static Op, &'static Site)], preemptions: usize) {
    let alone: Vec<String> = work.iter().map(|(op, site)| apply(op, site)).collect();
    let mut schedule = Vec::new();
    loop {
        let jobs: Vec<Job> = work
            .iter()
            .map(|(op, site)| {
                let (op, site) = (*op, *site);
                Box::new(move || apply(op, site)) as Job
            })
            .collect();
        let r = pool.run(jobs, &schedule, preemptions);
        mc.states += r.made.len() as u64;
        mc.transitions += r.made.len() as u64;
        mc.state();
        mc.trace();
        let name = || r.made.iter().map(|(c, _)| c.to_string()).collect::<String>();
        if let Some(i) = r.stuck {
            mc.at(name(), |mc| mc.violate("waits", format!("thread {i} waits for another"), "no waiting".into()));
        }
        for (i, (got, expected)) in r.results.iter().zip(&alone).enumerate() {
            mc.checks += 1;
            if got != expected && r.stuck.is_none() {
                mc.at(name(), |mc| mc.violate(&format!("thread{i}"), got.clone(), expected.clone()));
            }
        }
        mc.outcome(format!("{:?}", r.results).as_bytes());
        if r.stuck.is_some() {
            // Once is enough
            return;
        }
        match following(&r.made) {
            Some(s) => schedule = s,
            None => return,
        }
    }
}

/// Handles to the same value, cloned, read and dropped by threads in every order.
#[cfg(feature = "owned")]
mod handles {
    use super::*;
    use mc::probe::Probe;
    use value_bag::OwnedValueBag;

    /// What a thread does with its handle; it has none left at the end.
    type Script = fn(OwnedValueBag) -> String;

    pub const SCRIPTS: &[(&str, Script)] = &[
        ("drop", |h| {
            fire(0);
            drop(h);
            String::new()
        }),
        ("clone_drop", |h| {
            let c = h.clone();
            fire(0);
            drop(h);
            fire(0);
            let r = c.to_string();
            fire(0);
            drop(c);
            r
        }),
        ("share", |h| {
            let s = h.into_shared();
            fire(0);
            let c = s.clone();
            fire(0);
            drop(s);
            fire(0);
            c.to_string()
        }),
        ("by_ref", |h| {
            let r = h.by_ref().to_shared();
            fire(0);
            drop(h);
            fire(0);
            r.by_ref().to_string()
        }),
        ("own", |h| {
            let r = h.by_ref().to_owned();
            fire(0);
            let s = r.clone();
            drop(r);
            fire(0);
            drop(h);
            fire(0);
            format!("{s:?}")
        }),
    ];

    pub type Make = fn() -> (OwnedValueBag, std::sync::Arc<mc::probe::Counts>);

    fn both(mk: impl FnOnce(Probe<u64>) -> ValueBag<'static>) -> (OwnedValueBag, std::sync::Arc<mc::probe::Counts>) {
        let (p, c) = Probe::new(7);
        (mk(p).to_shared(), c)
    }

    pub const MAKES: &[(&str, Make)] = &[
        ("debug", || both(|p| ValueBag::capture_shared_debug(p))),
        ("display", || both(|p| ValueBag::capture_shared_display(p))),
        #[cfg(feature = "error")]
        ("error", || {
            let (p, c) = Probe::new(mc::spec::Er { msg: Txt::raw(["failed"]), source: None });
            (ValueBag::capture_shared_error(p).to_shared(), c)
        }),
        #[cfg(feature = "sval2")]
        ("sval", || both(|p| ValueBag::capture_shared_sval2(p))),
        #[cfg(feature = "serde1")]
        ("serde", || both(|p| ValueBag::capture_shared_serde1(p))),
    ];

    pub fn explore(mc: &mut Mc, pool: &Pool, make: Make, scripts: &[Script], preemptions: usize) {
        let alone: Vec<String> = scripts.iter().map(|s| s(make().0)).collect();
        let mut schedule = Vec::new();
        loop {
            let (bag, counts) = make();
            let jobs: Vec<Job> = scripts
                .iter()
                .map(|script| {
                    let (script, h, counts) = (*script, bag.clone(), counts.clone());
                    let mine = h.clone();
                    Box::new(move || {
                        let r = script(h);
                        let early = counts.drops();
                        drop(mine);
                        fire(0);
                        format!("{r} {early}")
                    }) as Job
                })
                .collect();
            drop(bag);
            let r = pool.run(jobs, &schedule, preemptions);
            mc.states += r.made.len() as u64;
            mc.transitions += r.made.len() as u64;
            mc.state();
            mc.trace();
            let name: String = r.made.iter().map(|(c, _)| c.to_string()).collect();
            mc.at(name, |mc| {
                if let Some(i) = r.stuck {
                    mc.violate("waits", format!("thread {i} waits for another"), "no waiting".into());
                    return;
                }
                for (i, (got, expected)) in r.results.iter().zip(&alone).enumerate() {
                    mc.eq(&format!("thread{i}"), got, &format!("{expected} 0"));
                }
                mc.eq("drops", &counts.drops(), &1);
            });
            mc.outcome(format!("{:?}", r.results).as_bytes());
            match following(&r.made) {
                Some(s) if r.stuck.is_none() => schedule = s,
                _ => return,
            }
        }
    }
}

/// Operations within the callbacks of operations.
fn nest(mc: &mut Mc, plan: &[(&'static Op, &'static Site)]) {
    let alone: Rc<Vec<String>> = Rc::new(plan.iter().map(|(op, site)| apply(op, site)).collect());
    let plan: Rc<Vec<(&'static Op, &'static Site)>> = Rc::new(plan.to_vec());
    let bad: Rc<std::cell::RefCell<Vec<(usize, String)>>> = Default::default();
    let count = Rc::new(Cell::new(0u64));
    let depth = Rc::new(Cell::new(0usize));
    let hook = {
        let (plan, alone, bad, count, depth) = (plan.clone(), alone.clone(), bad.clone(), count.clone(), depth.clone());
        move |_| {
            let d = depth.get() + 1;
            if d < plan.len() {
                depth.set(d);
                count.set(count.get() + 1);
                let got = apply(plan[d].0, plan[d].1);
                if got != alone[d] {
                    bad.borrow_mut().push((d, got));
                }
                depth.set(d - 1);
            }
        }
    };
    let got = with_hook(hook, || apply(plan[0].0, plan[0].1));
    mc.state();
    mc.states += count.get();
    mc.transitions += count.get() + 1;
    mc.trace();
    mc.eq("outer", &got, &alone[0]);
    mc.checks += count.get();
    let first = bad.borrow().first().cloned();
    if let Some((d, got)) = first {
        mc.violate(&format!("inner{d}"), got.clone(), alone[d].clone());
    }
}

/// Operations that are all under way at the same time, each waiting in its first callback.
fn together(mc: &mut Mc, pool: &Pool, work: &[(&'static Op, &'static Site)]) {
    let alone: Vec<String> = work.iter().map(|(op, site)| apply(op, site)).collect();
    let jobs: Vec<Job> = work
        .iter()
        .map(|(op, site)| {
            let (op, site) = (*op, *site);
            Box::new(move || apply(op, site)) as Job
        })
        .collect();
    // Each thread goes to its first scheduling point, then gives way to the one after it
    let schedule: Vec<usize> = (0..work.len()).collect();
    let r = pool.run(jobs, &schedule, work.len());
    mc.state();
    mc.states += r.made.len() as u64;
    mc.transitions += r.made.len() as u64;
    mc.trace();
    if let Some(i) = r.stuck {
        mc.violate("waits", format!("thread {i} waits for another"), "no waiting".into());
        return;
    }
    mc.checks += work.len() as u64;
    for (i, (got, expected)) in r.results.iter().zip(&alone).enumerate() {
        if got != expected {
            mc.violate(&format!("thread{i}"), got.clone(), expected.clone());
            return;
        }
    }
    mc.outcome(format!("{:?}", r.results.last()).as_bytes());
}

/// An operation within the first callback of an operation, and so on.
fn deep(mc: &mut Mc, plan: &[(&'static Op, &'static Site)]) {
    let alone: Rc<Vec<String>> = Rc::new(plan.iter().map(|(op, site)| apply(op, site)).collect());
    let plan: Rc<Vec<(&'static Op, &'static Site)>> = Rc::new(plan.to_vec());
    let bad: Rc<Cell<Option<(usize, String)>>> = Default::default();
    let depth = Rc::new(Cell::new(0usize));
    let hook = {
        let (plan, alone, bad, depth) = (plan.clone(), alone.clone(), bad.clone(), depth.clone());
        move |_| {
            let d = depth.get() + 1;
            if d < plan.len() {
                depth.set(d);
                let got = apply(plan[d].0, plan[d].1);
                if got != alone[d] {
                    bad.set(Some((d, got)));
                }
            }
        }
    };
    let got = with_hook(hook, || apply(plan[0].0, plan[0].1));
    mc.state();
    mc.states += depth.get() as u64;
    mc.transitions += depth.get() as u64 + 1;
    mc.trace();
    mc.outcome(format!("{} {got}", depth.get()).as_bytes());
    if let Some((d, got)) = bad.take() {
        mc.violate(&format!("inner{d}"), got, alone[d].clone());
    }
    mc.eq("outer", &got, &alone[0]);
}

fn main() {
    run("C19", |mc| {
        let thorough = mc.thorough();
        let name = |w: &[(&'static Op, &'static Site)]| w.iter().map(|(o, s)| format!("{}:{}", o.name, s.name)).collect::<Vec<_>>().join("+");
        let all: Vec<(&Op, &Site)> = SITES.iter().flat_map(|s| OPS.iter().map(move |o| (o, s))).collect();
        mc.at("nested", |mc| {
            for a in &all {
                for b in &all {
                    if mc.expired() {
                        return;
                    }
                    let plan = [*a, *b];
                    mc.guard_at(name(&plan), |mc| nest(mc, &plan));
                }
            }
            for a in &all {
                for b in all.iter().step_by(if thorough { 1 } else { 5 }) {
                    for c in all.iter().step_by(if thorough { 3 } else { 7 }) {
                        if mc.expired() {
                            return;
                        }
                        let plan = [*a, *b, *c];
                        mc.guard_at(name(&plan), |mc| nest(mc, &plan));
                    }
                }
            }
        });
        mc.at("deep", |mc| {
            let levels: Vec<usize> = (3..=20).chain([33, 65, 129, 260]).chain(thorough.then_some(600)).collect();
            for (i, a) in all.iter().enumerate() {
                for n in &levels {
                    if mc.expired() {
                        return;
                    }
                    mc.guard_at(format!("{}*{n}", name(&[*a])), |mc| deep(mc, &vec![*a; *n]));
                    // With all the others within it
                    let mixed: Vec<_> = (0..*n).map(|k| all[(i + k) % all.len()]).collect();
                    mc.guard_at(format!("{}..*{n}", name(&[*a])), |mc| deep(mc, &mixed));
                }
            }
        });
        mc.at("together", |mc| {
            let levels: Vec<usize> = [4, 5, 6, 8, 10, 17, 33, 65, 140].into_iter().chain(thorough.then_some(300)).collect();
            let pool = Pool::new(*levels.last().expect("levels"));
            for (i, a) in all.iter().enumerate() {
                for n in &levels {
                    if mc.expired() {
                        return;
                    }
                    mc.guard_at(format!("{}*{n}", name(&[*a])), |mc| together(mc, &pool, &vec![*a; *n]));
                    let mixed: Vec<_> = (0..*n).map(|k| all[(i + k) % all.len()]).collect();
                    mc.guard_at(format!("{}..*{n}", name(&[*a])), |mc| together(mc, &pool, &mixed));
                }
            }
        });
        mc.at("threads2", |mc| {
            let pool = Pool::new(2);
            for (i, a) in all.iter().enumerate() {
                for b in &all[i..] {
                    if mc.expired() {
                        return;
                    }
                    let work = [*a, *b];
                    mc.guard_at(name(&work), |mc| schedules(mc, &pool, &work, if thorough { 8 } else { 3 }));
                }
            }
        });
        #[cfg(feature = "owned")]
        mc.at("handles", |mc| {
            use handles::*;
            let pool = Pool::new(3);
            for (make_name, make) in MAKES {
                for (i, (a_name, a)) in SCRIPTS.iter().enumerate() {
                    for (j, (b_name, b)) in SCRIPTS.iter().enumerate().skip(i) {
                        if mc.expired() {
                            return;
                        }
                        mc.guard_at(format!("{make_name}:{a_name}+{b_name}"), |mc| explore(mc, &pool, *make, &[*a, *b], 20));
                        for (c_name, c) in &SCRIPTS[j..] {
                            mc.guard_at(format!("{make_name}:{a_name}+{b_name}+{c_name}"), |mc| {
                                explore(mc, &pool, *make, &[*a, *b, *c], if thorough { 3 } else { 1 })
                            });
                        }
                    }
                }
            }
        });
        mc.at("threads3", |mc| {
            let pool = Pool::new(3);
            for site in SITES {
                for ops in [["display", "share", "to_str"], ["own", "own", "display"], ["visit", "debug", "str_seq"], ["sval", "serde", "share"]] {
                    let work: Vec<_> = ops.iter().filter_map(|n| OPS.iter().find(|o| o.name == *n)).map(|o| (o, site)).collect();
                    if work.len() != 3 || mc.expired() {
                        continue;
                    }
                    mc.guard_at(name(&work), |mc| schedules(mc, &pool, &work, if thorough { 4 } else { 2 }));
                }
            }
        });
    });
}
