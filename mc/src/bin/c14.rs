//! Shared values are stored once, dropped once and never evaluated again.

use mc::{
    engine::{run, Mc},
    observe::VisitRec,
    probe::{Counts, Probe},
};
use std::{
    fmt,
    sync::{atomic::Ordering, Arc},
};
use value_bag::{fill::Slot, OwnedValueBag, ValueBag};

/// Something simple that can be captured in every way.
struct Plain(bool);

impl Plain {
    fn text(&self) -> &'static str {
        if self.0 {
            "a plain value with a text that is longer than what fits inline anywhere"
        } else {
            "plain"
        }
    }
}

impl fmt::Debug for Plain {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.text())
    }
}

impl fmt::Display for Plain {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(self.text())
    }
}

impl std::error::Error for Plain {}

#[cfg(feature = "sval2")]
impl sval::Value for Plain {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.value(self.text())
    }
}

#[cfg(feature = "serde1")]
impl serde::Serialize for Plain {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(self.text())
    }
}

type P = Probe<Plain>;

/// A sequence that counts how it's used.
#[cfg(feature = "seq")]
struct Elem(Arc<Counts>, u32);

#[cfg(feature = "seq")]
impl<'v> From<&'v Elem> for ValueBag<'v> {
    fn from(v: &'v Elem) -> Self {
        v.0.elements.fetch_add(1, Ordering::SeqCst);
        ValueBag::from(v.1)
    }
}

#[cfg(feature = "seq")]
fn elems() -> (Probe<Vec<Elem>>, Arc<Counts>) {
    let (mut p, c) = Probe::new(Vec::new());
    p.value = vec![Elem(c.clone(), 1), Elem(c.clone(), 2)];
    (p, c)
}

enum Handle {
    Bag(ValueBag<'static>),
    Owned(OwnedValueBag),
}

impl Handle {
    fn bag(&self) -> ValueBag<'_> {
        match self {
            Handle::Bag(b) => b.by_ref(),
            Handle::Owned(o) => o.by_ref(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// Clone the handle
    Clone(usize),
    /// Own what it says
    Own(usize),
    Share(usize),
    IntoShared(usize),
    /// Own through a slot
    OwnFill(usize),
    /// Own as the element of a sequence
    OwnSeq(usize),
    /// Derive bags that don't outlive it
    Borrow(usize),
    Observe(usize),
    Drop(usize),
}

const BAG_OPS: [fn(usize) -> Op; 8] = [Op::Clone, Op::Own, Op::Share, Op::OwnFill, Op::OwnSeq, Op::Borrow, Op::Observe, Op::Drop];
const OWNED_OPS: [fn(usize) -> Op; 8] = [Op::Clone, Op::Own, Op::Share, Op::IntoShared, Op::OwnSeq, Op::Borrow, Op::Observe, Op::Drop];

/// Where a value comes from.
struct Origin {
    name: &'static str,
    make: fn() -> (Handle, Arc<Counts>, Option<Box<dyn std::any::Any>>),
    /// How often buffering it evaluates it
    evals: u64,
    /// Whether the value itself is within the bag
    within: bool,
}

fn observe(bag: &ValueBag) -> Vec<String> {
    let mut v = VisitRec::default();
    let _ = bag.visit(&mut v);
    let mut out = vec![format!("{bag}"), v.calls.concat().replace("borrowed_", "")];
    #[cfg(feature = "sval2")]
    out.push(format!("{:?}", mc::record::sv::doc(bag)));
    #[cfg(feature = "serde1")]
    out.push(format!("{:?}", mc::record::ser::doc(bag)));
    out
}

/// How often code of the value ran, whatever asking for the slice of a sequence counts as.
fn evals(c: &Counts) -> u64 {
    c.evals() - c.as_ref.load(Ordering::SeqCst) - c.source.load(Ordering::SeqCst)
}

fn replay(mc: &mut Mc, origin: &Origin, ops: &[Op]) {
    let (first, counts, source) = (origin.make)();
    mc.eq("evals_at_first", &evals(&counts), &origin.evals);
    let says = observe(&(origin.make)().0.bag());
    let mut before = counts.evals();
    let address = first.bag().downcast_ref::<P>().map(|p| p as *const P as usize);
    let mut handles = vec![Some((first, false))];
    for op in ops {
        let at = |i: usize| handles[i].as_ref().expect("live");
        let mut new = None;
        match *op {
            Op::Clone(i) => {
                new = Some((
                    match &at(i).0 {
                        Handle::Bag(b) => Handle::Bag(b.clone()),
                        Handle::Owned(o) => Handle::Owned(o.clone()),
                    },
                    at(i).1,
                ));
            }
            Op::Own(i) => new = Some((Handle::Owned(at(i).0.bag().to_owned()), at(i).1)),
            Op::Share(i) => new = Some((Handle::Owned(at(i).0.bag().to_shared()), at(i).1)),
            Op::OwnFill(i) => {
                let Handle::Bag(b) = &at(i).0 else { unreachable!() };
                let b = b.clone();
                new = Some((Handle::Owned(ValueBag::from_fill(&move |s: Slot| s.fill_any(b.clone())).to_owned()), at(i).1));
            }
            Op::OwnSeq(i) => {
                #[cfg(feature = "seq")]
                {
                    struct In<'a>(&'a Handle);
                    impl<'v, 'a> From<&'v In<'a>> for ValueBag<'v> {
                        fn from(v: &'v In<'a>) -> Self {
                            v.0.bag()
                        }
                    }
                    let o = ValueBag::from_seq_slice::<Vec<In>, In>(&vec![In(&at(i).0)]).to_owned();
                    new = Some((Handle::Owned(o), true));
                }
            }
            Op::Borrow(i) => {
                let b = at(i).0.bag();
                let c = b.clone();
                let r = c.by_ref();
                let rc = r.by_ref().clone();
                drop(rc);
                if let Handle::Owned(o) = &at(i).0 {
                    drop(ValueBag::from(o).clone());
                }
            }
            Op::Observe(i) => {
                let (h, nested) = at(i);
                let got = observe(&h.bag());
                mc.outcome(got.concat().as_bytes());
                if !nested {
                    mc.eq("says", &got, &says);
                }
                if let (Some(_), false) = (address, nested) {
                    // It's still the same object
                    mc.eq("address", &h.bag().downcast_ref::<P>().map(|p| p as *const P as usize), &address);
                }
                if origin.within {
                    // Its own code runs
                    before = counts.evals();
                }
            }
            Op::IntoShared(i) => {
                if let Some((Handle::Owned(o), n)) = handles[i].take() {
                    handles[i] = Some((Handle::Owned(o.into_shared()), n));
                }
            }
            Op::Drop(i) => handles[i] = None,
        }
        if let Some(n) = new {
            handles.push(Some(n));
        }
        mc.step();
        mc.eq("evals", &counts.evals(), &before);
        let live = handles.iter().any(|h| h.is_some());
        let drops = if origin.within && !live { 1 } else { 0 };
        mc.eq("drops", &counts.drops(), &drops);
    }
    // In every order of being dropped, the last one counts
    let mut live = handles.iter().filter(|h| h.is_some()).count();
    let had = live > 0;
    let backwards = ops.len() % 2 == 0;
    let n = handles.len();
    for i in 0..n {
        let i = if backwards { n - 1 - i } else { i };
        if let Some(h) = handles[i].take() {
            drop(h);
            live -= 1;
            mc.eq("drops_at_end", &counts.drops(), &((origin.within && live == 0) as u64));
        }
    }
    if had {
        mc.eq("evals_at_end", &counts.evals(), &before);
    }
    drop(source);
    mc.eq("drops_in_all", &counts.drops(), &1);
}

/// Every sequence of operations; kinds of live handles are known without running it.
fn walk(mc: &mut Mc, origin: &Origin, depth: usize, ops: &mut Vec<Op>, kinds: &mut Vec<Option<bool>>) {
    mc.state();
    if ops.len() == depth || kinds.iter().all(|k| k.is_none()) {
        mc.trace();
        let path = format!("{ops:?}");
        mc.guard_at(path, |mc| replay(mc, origin, ops));
        return;
    }
    for i in 0..kinds.len() {
        let Some(owned) = kinds[i] else { continue };
        for op in if owned { OWNED_OPS } else { BAG_OPS } {
            let op = op(i);
            // Looking twice or at the end only is in other histories
            if matches!(op, Op::Observe(_) | Op::Borrow(_)) && ops.last() == Some(&op) {
                continue;
            }
            if cfg!(not(feature = "seq")) && matches!(op, Op::OwnSeq(_)) {
                continue;
            }
            if mc.expired() {
                return;
            }
            let mut pushed = false;
            let kept = kinds[i];
            match op {
                Op::Clone(_) => {
                    kinds.push(kept);
                    pushed = true
                }
                Op::Own(_) | Op::Share(_) | Op::OwnFill(_) | Op::OwnSeq(_) => {
                    kinds.push(Some(true));
                    pushed = true
                }
                Op::Drop(_) => kinds[i] = None,
                _ => (),
            }
            if kinds.iter().flatten().count() <= 3 {
                ops.push(op);
                walk(mc, origin, depth, ops, kinds);
                ops.pop();
            }
            if pushed {
                kinds.pop();
            }
            kinds[i] = kept;
        }
    }
}

fn origins() -> Vec<Origin> {
    let mut v = Vec::new();
    macro_rules! origin {
        ($name:expr, $within:expr, $evals:expr, $make:expr) => {
            v.push(Origin {
                name: $name,
                make: $make,
                evals: $evals,
                within: $within,
            });
        };
    }
    macro_rules! shared {
        ($name:literal, $f:expr) => {
            origin!($name, true, 0, || {
                let (p, c) = Probe::new(Plain(true));
                (Handle::Bag($f(p)), c, None)
            });
        };
    }
    shared!("capture_shared_debug", ValueBag::capture_shared_debug);
    shared!("capture_shared_display", ValueBag::capture_shared_display);
    #[cfg(feature = "error")]
    shared!("capture_shared_error", ValueBag::capture_shared_error);
    #[cfg(feature = "sval2")]
    shared!("capture_shared_sval2", ValueBag::capture_shared_sval2);
    #[cfg(feature = "serde1")]
    shared!("capture_shared_serde1", ValueBag::capture_shared_serde1);
    #[cfg(feature = "seq")]
    origin!("capture_shared_seq_slice", true, 0, || {
        let (p, c) = elems();
        (Handle::Bag(ValueBag::capture_shared_seq_slice::<Probe<Vec<Elem>>, Elem>(p)), c, None)
    });
    macro_rules! buffered {
        ($name:literal, $how:ident, $p:ident => $bag:expr) => {
            origin!($name, false, 1, || {
                let ($p, c) = Probe::new(Plain(true));
                let h = Handle::Owned($bag.$how());
                (h, c, Some(Box::new($p)))
            });
            origin!(concat!($name, "_small"), false, 1, || {
                let ($p, c) = Probe::new(Plain(false));
                let h = Handle::Owned($bag.$how());
                (h, c, Some(Box::new($p)))
            });
        };
    }
    macro_rules! both {
        ($shared:literal, $owned:literal, $p:ident => $bag:expr) => {
            buffered!($shared, to_shared, $p => $bag);
            buffered!($owned, to_owned, $p => $bag);
        };
    }
    both!("share_debug", "own_debug", p => ValueBag::capture_debug(&p));
    both!("share_display", "own_display", p => ValueBag::from_display(&p));
    both!("share_dyn_debug", "own_dyn_debug", p => ValueBag::from_dyn_debug(&p));
    both!("share_fill", "own_fill", p => ValueBag::from_fill(&|s: Slot| s.fill_debug(&p)));
    #[cfg(feature = "error")]
    both!("share_error", "own_error", p => ValueBag::capture_error(&p));
    #[cfg(feature = "error")]
    both!("share_dyn_error", "own_dyn_error", p => ValueBag::from_dyn_error(&p));
    #[cfg(feature = "sval2")]
    {
        both!("share_sval2", "own_sval2", p => ValueBag::capture_sval2(&p));
        both!("share_from_sval2", "own_from_sval2", p => ValueBag::from_sval2(&p));
        both!("share_dyn_sval2", "own_dyn_sval2", p => ValueBag::from_dyn_sval2(&p));
    }
    #[cfg(feature = "serde1")]
    {
        both!("share_serde1", "own_serde1", p => ValueBag::capture_serde1(&p));
        both!("share_from_serde1", "own_from_serde1", p => ValueBag::from_serde1(&p));
    }
    #[cfg(feature = "seq")]
    {
        origin!("share_seq", false, 2, || {
            let (p, c) = elems();
            let h = Handle::Owned(ValueBag::from_seq_slice::<_, Elem>(&p).to_shared());
            (h, c, Some(Box::new(p)))
        });
        origin!("own_seq", false, 2, || {
            let (p, c) = elems();
            let h = Handle::Owned(ValueBag::from_seq_slice::<_, Elem>(&p).to_owned());
            (h, c, Some(Box::new(p)))
        });
    }
    v
}

fn main() {
    run("C14", |mc| {
        for o in origins() {
            let depth = if mc.thorough() { 5 } else { 4 } + o.within as usize;
            mc.guard_at(o.name, |mc| {
                let kinds = matches!((o.make)().0, Handle::Owned(_));
                walk(mc, &o, depth, &mut Vec::new(), &mut vec![Some(kinds)]);
            });
        }
    });
}
