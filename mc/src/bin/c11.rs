//! Buffered bags say what the original said, and don't need it anymore.

use mc::{
    engine::{run, Mc},
    observe::{Class, Observer, OBSERVERS},
    spec::{large, specs, Space, Spec},
    tree::{trees, Cast, Tree},
};
use std::{
    fmt,
    sync::atomic::{AtomicUsize, Ordering},
};
use value_bag::{fill::Slot, OwnedValueBag, ValueBag};

/// Whether any error is within.
fn has_error(s: &Spec) -> bool {
    match s {
        #[cfg(feature = "error")]
        Spec::CapError(_) | Spec::DynError(_) => true,
        Spec::Fill(d) => has_error(d.inner),
        Spec::Via(_, s) | Spec::Static(_, _, s) | Spec::Owned(_, _, s) => has_error(s),
        #[cfg(feature = "seq")]
        Spec::Seq(v) => v.iter().any(has_error),
        _ => false,
    }
}

/// Whether an error is shown within a list.
fn listed_error(s: &Spec) -> bool {
    match s {
        Spec::Fill(d) => listed_error(d.inner),
        Spec::Via(_, s) | Spec::Static(_, _, s) | Spec::Owned(_, _, s) => listed_error(s),
        #[cfg(feature = "seq")]
        Spec::Seq(v) => v.iter().any(has_error),
        _ => false,
    }
}

/// Whether a part of it is text that `serde` collects by formatting, or something only for people.
fn collects(s: &Spec) -> bool {
    match s {
        #[cfg(feature = "serde1")]
        Spec::Serde(t) | Spec::CapSerde(t) => t.has(&|t| matches!(t, Tree::Collect(_))),
        Spec::Fill(d) => collects(d.inner),
        Spec::Static(_, _, s) | Spec::Owned(_, _, s) => collects(s),
        #[cfg(feature = "seq")]
        Spec::Seq(v) => v.iter().any(collects),
        // Formatted values within are collected
        Spec::Via(..) => true,
        _ => false,
    }
}

/// Observations that buffering keeps.
fn kept(o: &Observer, s: &Spec) -> bool {
    match o.class {
        Class::Value => {
            // The notation collected text has, and the Debug form of errors in sequences
            !((collects(s) || listed_error(s)) && (o.name == "display" || o.name == "visit_wide"))
        }
        Class::Debug => !has_error(s) && !collects(s),
        _ => false,
    }
}

/// An owned bag can be looked at without borrowing it again.
fn handle(mc: &mut Mc, h: &OwnedValueBag, bag: &ValueBag) {
    fn shown(v: &dyn mc::flags::Both) -> [Result<String, String>; 3] {
        use fmt::Write as _;
        let show = |args: fmt::Arguments| {
            let mut s = String::new();
            match s.write_fmt(args) {
                Ok(()) => Ok(s),
                Err(_) => Err(s),
            }
        };
        [show(format_args!("{v}")), show(format_args!("{v:?}")), show(format_args!("{v:#?}"))]
    }
    mc.enter("handle");
    mc.step();
    mc.eq("shown", &shown(h), &shown(bag));
    #[cfg(feature = "sval2")]
    mc.eq("sval", &mc::record::sv::tokens(h), &mc::record::sv::tokens(bag));
    #[cfg(feature = "serde1")]
    for human in [true, false] {
        mc.eq("serde", &format!("{:?}", mc::record::ser::tokens(h, human)), &format!("{:?}", mc::record::ser::tokens(bag, human)));
    }
    mc.leave();
}

fn check(mc: &mut Mc, spec: Spec) {
    let kept: Vec<bool> = OBSERVERS.iter().map(|o| kept(o, &spec)).collect();
    let fails = spec.fails();
    let original = mc::observe::all(&spec.bag());
    let empty = (spec.bag().is_empty(), !matches!(spec.cast(), Cast::Null | Cast::Unknown));
    let derive: [(&'static str, fn(&ValueBag) -> OwnedValueBag); 6] = [
        ("own", |b| b.to_owned()),
        ("share", |b| b.to_shared()),
        ("own_own", |b| b.to_owned().by_ref().to_owned()),
        ("own_share", |b| b.to_owned().by_ref().to_shared()),
        ("share_own", |b| b.to_shared().by_ref().to_owned()),
        ("by_ref_own_into_shared", |b| b.by_ref().clone().to_owned().into_shared()),
    ];
    let handles: Vec<_> = derive.iter().map(|(name, f)| (*name, f(&spec.bag()))).collect();
    let look = |mc: &mut Mc, stage: &'static str| {
        mc.enter(stage);
        for (name, h) in &handles {
            mc.enter(*name);
            mc.state();
            let bag = h.by_ref();
            for ((o, expected), kept) in OBSERVERS.iter().zip(&original).zip(&kept) {
                if *kept && !fails {
                    mc.step();
                    let got = (o.f)(&bag);
                    mc.outcome(got.as_bytes());
                    mc.eq(o.name, &got, expected);
                }
            }
            if empty.0 {
                mc.eq("is_empty", &bag.is_empty(), &true);
            } else if empty.1 {
                mc.eq("is_empty", &bag.is_empty(), &false);
            }
            handle(mc, h, &bag);
            mc.trace();
            mc.leave();
        }
        mc.leave();
    };
    look(mc, "kept");
    mc.eq("original", &mc::observe::all(&spec.bag()), &original);
    drop(spec);
    // Something else is where the source was
    let churn: Vec<Vec<u8>> = (1..200).map(|n| vec![b'!'; n]).collect();
    look(mc, "destroyed");
    drop(churn);
}

/// A source that can change.
struct Live {
    n: AtomicUsize,
    long: bool,
}

impl Live {
    fn n(&self) -> usize {
        self.n.load(Ordering::SeqCst)
    }

    fn text(&self) -> String {
        if self.long {
            format!("number {} in a text longer than what fits into an owned bag", self.n())
        } else {
            format!("n{}", self.n())
        }
    }
}

impl fmt::Debug for Live {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.text())
    }
}

impl fmt::Display for Live {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.text())
    }
}

impl std::error::Error for Live {}

#[cfg(feature = "sval2")]
impl sval::Value for Live {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.seq_begin(None)?;
        s.seq_value_begin()?;
        s.value_computed(&*self.text())?;
        s.seq_value_end()?;
        s.seq_value_begin()?;
        s.u64(self.n() as u64)?;
        s.seq_value_end()?;
        s.seq_end()
    }
}

#[cfg(feature = "serde1")]
impl serde::Serialize for Live {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.text(), self.n()).serialize(s)
    }
}

impl<'v> From<&'v Live> for ValueBag<'v> {
    fn from(v: &'v Live) -> Self {
        ValueBag::capture_debug(v)
    }
}

const ROUTES: &[&str] = &[
    "from_debug",
    "from_display",
    "capture_debug",
    "capture_display",
    "from_dyn_debug",
    "from_dyn_display",
    "fill_any",
    "fill_debug",
    #[cfg(feature = "error")]
    "capture_error",
    #[cfg(feature = "error")]
    "from_dyn_error",
    #[cfg(feature = "sval2")]
    "from_sval2",
    #[cfg(feature = "sval2")]
    "capture_sval2",
    #[cfg(feature = "sval2")]
    "from_dyn_sval2",
    #[cfg(feature = "serde1")]
    "from_serde1",
    #[cfg(feature = "serde1")]
    "capture_serde1",
    #[cfg(feature = "seq")]
    "from_seq_slice",
];

/// Put a source into a bag.
fn with<R>(route: &str, v: &Vec<Live>, f: impl FnOnce(&ValueBag) -> R) -> R {
    let first = &v[0];
    match route {
        "from_debug" => f(&ValueBag::from_debug(first)),
        "from_display" => f(&ValueBag::from_display(first)),
        "capture_debug" => f(&ValueBag::capture_debug(first)),
        "capture_display" => f(&ValueBag::capture_display(first)),
        "from_dyn_debug" => f(&ValueBag::from_dyn_debug(first)),
        "from_dyn_display" => f(&ValueBag::from_dyn_display(first)),
        "fill_any" => f(&ValueBag::from_fill(&|s: Slot| s.fill_any(first.n()))),
        "fill_debug" => f(&ValueBag::from_fill(&|s: Slot| s.fill_debug(first))),
        #[cfg(feature = "error")]
        "capture_error" => f(&ValueBag::capture_error(first)),
        #[cfg(feature = "error")]
        "from_dyn_error" => f(&ValueBag::from_dyn_error(first)),
        #[cfg(feature = "sval2")]
        "from_sval2" => f(&ValueBag::from_sval2(first)),
        #[cfg(feature = "sval2")]
        "capture_sval2" => f(&ValueBag::capture_sval2(first)),
        #[cfg(feature = "sval2")]
        "from_dyn_sval2" => f(&ValueBag::from_dyn_sval2(first)),
        #[cfg(feature = "serde1")]
        "from_serde1" => f(&ValueBag::from_serde1(first)),
        #[cfg(feature = "serde1")]
        "capture_serde1" => f(&ValueBag::capture_serde1(first)),
        #[cfg(feature = "seq")]
        "from_seq_slice" => f(&ValueBag::from_seq_slice(v)),
        _ => unreachable!("{route}"),
    }
}

/// A step of a history of a source and its buffered bags.
#[derive(Clone, Copy, Debug)]
enum Op {
    Change,
    Own,
    Share,
    Clone(usize),
    IntoShared(usize),
    Again(usize),
    ShareAgain(usize),
    Drop(usize),
}

/// What a bag of the source says at some time.
fn says(bag: &ValueBag) -> Vec<String> {
    OBSERVERS
        .iter()
        .filter(|o| (o.class == Class::Value && !o.name.starts_with("try_")) || o.class == Class::Debug)
        .map(|o| (o.f)(bag))
        .collect()
}

/// Run a history from the start.
fn replay(route: &str, long: bool, ops: &[Op]) -> Vec<(usize, Vec<String>, usize)> {
    let source = vec![Live { n: 0.into(), long }];
    let mut handles: Vec<(OwnedValueBag, usize)> = Vec::new();
    for op in ops {
        match *op {
            Op::Change => {
                source[0].n.fetch_add(1, Ordering::SeqCst);
            }
            Op::Own => handles.push((with(route, &source, |b| b.to_owned()), source[0].n())),
            Op::Share => handles.push((with(route, &source, |b| b.to_shared()), source[0].n())),
            Op::Clone(i) => {
                let h = (handles[i].0.clone(), handles[i].1);
                handles.push(h)
            }
            Op::IntoShared(i) => {
                let (h, n) = handles.remove(i);
                handles.insert(i, (h.into_shared(), n));
            }
            Op::Again(i) => {
                let h = (handles[i].0.by_ref().to_owned(), handles[i].1);
                handles.push(h)
            }
            Op::ShareAgain(i) => {
                let h = (handles[i].0.by_ref().to_shared(), handles[i].1);
                handles.push(h)
            }
            Op::Drop(i) => {
                handles.remove(i);
            }
        }
    }
    let now = (source[0].n(), with(route, &source, says));
    source[0].n.store(999, Ordering::SeqCst);
    drop(source);
    let mut out = vec![(now.0, now.1, usize::MAX)];
    for (i, (h, n)) in handles.iter().enumerate() {
        out.push((*n, says(&h.by_ref()), i));
    }
    out
}

fn histories(mc: &mut Mc, route: &'static str, long: bool, depth: usize, said: &[Vec<String>], kept: &[bool], ops: &mut Vec<Op>, handles: usize) {
    if !ops.is_empty() {
        mc.state();
        for (n, got, i) in replay(route, long, ops) {
            let expected = &said[n];
            mc.step();
            mc.checks += 1;
            let same = got.iter().zip(expected).zip(kept).all(|((g, e), k)| g == e || (!k && i != usize::MAX));
            if !same {
                let at = format!("{ops:?}");
                mc.enter(at);
                let who = if i == usize::MAX { "source".to_owned() } else { format!("handle{i}") };
                mc.violate(&who, format!("{got:?}"), format!("{expected:?}"));
                mc.leave();
            }
            mc.outcome(got[0].as_bytes());
            mc.outcome(got[got.len() / 2].as_bytes());
        }
    }
    if ops.len() == depth {
        mc.trace();
        return;
    }
    let mut next = vec![(Op::Change, handles), (Op::Own, handles + 1), (Op::Share, handles + 1)];
    for i in 0..handles {
        next.push((Op::Clone(i), handles + 1));
        next.push((Op::IntoShared(i), handles));
        next.push((Op::Again(i), handles + 1));
        next.push((Op::ShareAgain(i), handles + 1));
        next.push((Op::Drop(i), handles - 1));
    }
    for (op, n) in next {
        if n > 3 || mc.expired() {
            continue;
        }
        ops.push(op);
        histories(mc, route, long, depth, said, kept, ops, n);
        ops.pop();
    }
}

fn main() {
    run("C11", |mc| {
        let mut all = specs(Space { tree_depth: 2, ..Space::SMALL });
        if mc.thorough() {
            all.extend(mc::spec::tree_specs(&trees(4)));
        }
        let (wide, deep) = if mc.thorough() { (1000, 150) } else { (300, 70) };
        all.extend(large(wide, deep));
        for spec in all {
            if mc.expired() {
                return;
            }
            mc.guard_at(spec.name(), |mc| check(mc, spec));
        }
        let depth = if mc.thorough() { 6 } else { 4 };
        for route in ROUTES {
            for long in [false, true] {
                mc.guard_at(format!("live_{route}_{long}"), |mc| {
                    // What the source says at each time, and what of that buffering keeps
                    let source = vec![Live { n: 0.into(), long }];
                    let mut said = Vec::new();
                    for _ in 0..=depth {
                        said.push(with(route, &source, says));
                        source[0].n.fetch_add(1, Ordering::SeqCst);
                    }
                    let kept: Vec<bool> = OBSERVERS
                        .iter()
                        .filter(|o| (o.class == Class::Value && !o.name.starts_with("try_")) || o.class == Class::Debug)
                        .map(|o| !(o.class == Class::Debug && route.ends_with("error")))
                        .collect();
                    histories(mc, route, long, depth, &said, &kept, &mut Vec::new(), 0);
                });
            }
        }
    });
}
