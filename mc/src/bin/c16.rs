//! A consumer that fails isn't called again, and its failure is reported.

use mc::{
    engine::{run, Mc},
    observe::VisitRec,
    record::{Fault, FmtRec},
    routes::{derived, nested},
    spec::{failing, large, specs, tree_specs, Space, Spec},
    tree::trees,
};
use std::{
    fmt::{self, Write as _},
    io::Write as _,
};
use value_bag::ValueBag;

/// What came of an attempt.
struct Attempt {
    /// The error, if there was one
    error: Option<String>,
    /// What arrived
    toks: Vec<String>,
    fault: Fault,
}

/// What's consumed.
enum Subject<'a, 'v> {
    Bag(&'a ValueBag<'v>),
    /// An owned bag, which can be formatted and serialized as it is
    #[cfg(feature = "owned")]
    Handle(&'a value_bag::OwnedValueBag),
}

macro_rules! of {
    ($s:expr, $v:ident => $e:expr) => {
        match $s {
            Subject::Bag($v) => $e,
            #[cfg(feature = "owned")]
            Subject::Handle($v) => $e,
        }
    };
}

impl fmt::Display for Subject<'_, '_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        of!(self, v => fmt::Display::fmt(*v, f))
    }
}

impl fmt::Debug for Subject<'_, '_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        of!(self, v => fmt::Debug::fmt(*v, f))
    }
}

/// A way of consuming a bag that can be made to fail.
struct Consumer {
    name: &'static str,
    run: fn(&Subject, Fault) -> Attempt,
    /// The error that failures have
    error: &'static str,
}

macro_rules! fmt_consumer {
    ($name:literal, $f:literal) => {
        Consumer {
            name: $name,
            run: |bag, fault| {
                let mut w = FmtRec { fault, out: Vec::new() };
                let r = write!(w, $f, bag);
                Attempt {
                    error: r.err().map(|_| "fmt".into()),
                    toks: w.out,
                    fault: w.fault,
                }
            },
            error: "fmt",
        }
    };
}

/// A byte sink with an error of its own.
struct Sink {
    fault: Fault,
    out: Vec<String>,
}

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if !self.fault.call() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "sink failed"));
        }
        self.out.push(String::from_utf8_lossy(b).into_owned());
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[cfg(feature = "sval2")]
fn sval(fault: Fault, f: impl FnOnce(&mut mc::record::sv::SvalRec) -> sval::Result) -> Attempt {
    let mut rec = mc::record::sv::SvalRec::default();
    rec.fault = fault;
    let r = f(&mut rec);
    Attempt {
        error: r.err().map(|_| "sval".into()),
        toks: rec.toks,
        fault: rec.fault,
    }
}

#[cfg(feature = "serde1")]
fn serde(fault: Fault, human: bool, bag: &Subject) -> Attempt {
    let mut rec = mc::record::ser::SerRec::new(human);
    rec.fault = fault;
    let r = of!(bag, v => serde::Serialize::serialize(*v, &mut rec));
    Attempt {
        error: r.err().map(|e| e.0),
        toks: rec.toks,
        fault: rec.fault,
    }
}

const CONSUMERS: &[Consumer] = &[
    fmt_consumer!("display", "{}"),
    fmt_consumer!("debug", "{:?}"),
    fmt_consumer!("pretty", "{:#?}"),
    fmt_consumer!("padded", "{:*^+9.2}"),
    fmt_consumer!("within", "<{}|{0:?}>"),
    Consumer {
        name: "io",
        run: |bag, fault| {
            let mut w = Sink { fault, out: Vec::new() };
            let r = write!(w, "{bag}");
            Attempt {
                error: r.err().map(|e| e.to_string()),
                toks: w.out,
                fault: w.fault,
            }
        },
        error: "sink failed",
    },
    #[cfg(feature = "sval2")]
    Consumer {
        name: "sval",
        run: |bag, fault| sval(fault, |rec| of!(bag, v => sval::Value::stream(*v, rec))),
        error: "sval",
    },
    #[cfg(feature = "sval2")]
    Consumer {
        name: "sval_ref",
        run: |bag, fault| sval(fault, |rec| match bag {
            Subject::Bag(v) => sval_ref::stream_ref(rec, *v),
            #[cfg(feature = "owned")]
            Subject::Handle(v) => sval_ref::stream_ref(rec, &v.by_ref()),
        }),
        error: "sval",
    },
    #[cfg(feature = "serde1")]
    Consumer {
        name: "serde",
        run: |bag, fault| serde(fault, true, bag),
        error: "injected",
    },
    #[cfg(feature = "serde1")]
    Consumer {
        name: "serde_compact",
        run: |bag, fault| serde(fault, false, bag),
        error: "injected",
    },
];

fn check(mc: &mut Mc, step: &'static str, bag: &ValueBag, via: (bool, bool, bool)) {
    mc.enter(step);
    consume(mc, step, &Subject::Bag(bag), via);
    visit(mc, bag);
    mc.leave();
}

fn consume(mc: &mut Mc, step: &'static str, bag: &Subject, (sval, serde, formats): (bool, bool, bool)) {
    for c in CONSUMERS {
        // The library that formats `serde` values notes any error in the output,
        // and the bridges between frameworks make up errors
        let crosses = (sval || step.contains("sval")) && c.error == "injected";
        let notes = (serde || step.contains("serde")) && (formats || ["fmt", "sink failed"].contains(&c.error));
        // Writing a value that fails by itself to `io` panics in the standard library
        if c.name == "io" && write!(String::new(), "{bag}").is_err() {
            continue;
        }
        mc.enter(c.name);
        let whole = (c.run)(bag, Fault::never());
        mc.state();
        if whole.error.is_none() || whole.fault.calls > 0 {
            for n in 0..whole.fault.calls {
                mc.enter(n);
                mc.state();
                mc.step();
                let a = (c.run)(bag, Fault::at(n));
                if crosses || whole.error.is_some() {
                    mc.ensure("error", a.error.is_some(), || "success".into(), "an error");
                } else {
                    mc.eq("error", &a.error.as_deref(), &Some(c.error));
                }
                if !notes {
                    mc.eq("calls_after_failure", &a.fault.after, &0);
                }
                mc.ensure("failed", a.fault.failed, || "no failure".into(), "the call that fails is made");
                mc.ensure(
                    "prefix",
                    a.toks.len() <= n && a.toks[..] == whole.toks[..a.toks.len()],
                    || format!("{:?}", a.toks),
                    "what arrives without a failure, up to it",
                );
                mc.eq("arrived", &a.toks.len(), &n);
                mc.outcome(format!("{:?}", a.toks).as_bytes());
                mc.leave();
            }
            // It's as if that never happened
            mc.step();
            let again = (c.run)(bag, Fault::never());
            mc.eq("afterwards", &(again.error, again.toks), &(whole.error, whole.toks));
            mc.trace();
        }
        mc.leave();
    }
}

fn visit(mc: &mut Mc, bag: &ValueBag) {
    mc.at("visit", |mc| {
        mc.state();
        mc.transitions += 2;
        let mut ok = VisitRec::default();
        let r = bag.visit(&mut ok);
        if r.is_ok() {
            let mut v = VisitRec { fail: true, ..Default::default() };
            let r = bag.visit(&mut v).map_err(|e| e.to_string());
            mc.eq("calls", &v.calls, &ok.calls.iter().take(1).cloned().collect::<Vec<_>>());
            mc.eq("error", &r, &Err("visitor failed".to_owned()));
            let mut again = VisitRec::default();
            let r = bag.visit(&mut again).is_ok();
            mc.eq("afterwards", &(r, again.calls), &(true, ok.calls));
            mc.trace();
        }
    });
}

fn one(mc: &mut Mc, spec: &Spec) {
    let bag = spec.bag();
    let name = spec.full_name();
    let has = |a: &str, b: &str| name.contains(a) || name.contains(b);
    let via = (has("sval", "Sval"), has("serde", "Serde"), name.starts_with("via") && has("Debug", "Display"));
    derived(&bag, &mut |step, bag| check(mc, step, bag, via));
    nested(&bag, &mut |step, bag| check(mc, step, bag, via));
    #[cfg(feature = "owned")]
    for (step, h) in [("handle_owned", bag.to_owned()), ("handle_shared", bag.to_shared())] {
        mc.at(step, |mc| consume(mc, step, &Subject::Handle(&h), via));
    }
}

fn main() {
    run("C16", |mc| {
        let (small, deep) = if mc.thorough() { (2, 4) } else { (1, 2) };
        let mut all = specs(Space { tree_depth: small, ..Space::SMALL });
        all.extend(tree_specs(&trees(deep)));
        all.extend(failing(small));
        let (wide, deep) = if mc.thorough() { (140, 70) } else { (40, 20) };
        all.extend(large(wide, deep));
        for spec in &all {
            if mc.expired() {
                return;
            }
            mc.guard_at(spec.name(), |mc| one(mc, spec));
        }
    });
}
