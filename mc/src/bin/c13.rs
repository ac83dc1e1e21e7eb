//! Cloning, borrowing, owning and sharing never change what is observed.

use mc::{
    engine::{run, Mc},
    observe::{Class, OBSERVERS},
    routes,
    spec::{specs, Space, Spec},
};
use value_bag::{OwnedValueBag, ValueBag};

/// Everything to see of an owned bag; what can be borrowed from it depends on where it's kept.
fn kept(bag: &ValueBag) -> Vec<String> {
    OBSERVERS
        .iter()
        .map(|o| match o.class {
            Class::Borrow => String::new(),
            _ => (o.f)(bag).replace("\"borrowed_", "\""),
        })
        .collect()
}

fn compare(mc: &mut Mc, got: &[String], expected: &[String]) {
    mc.state();
    for ((o, got), e) in OBSERVERS.iter().zip(got).zip(expected) {
        mc.outcome(got.as_bytes());
        mc.eq(o.name, got, e);
    }
}

/// Every sequence of steps from a bag.
fn walk(mc: &mut Mc, spec: &Spec, depth: usize) {
    let bag = spec.bag();
    let original = mc::observe::all(&bag);
    let buffered = kept(&bag.to_owned().by_ref());
    routes::histories(mc, &bag, depth, &mut |mc, bag, n| {
        if n == 0 {
            compare(mc, &mc::observe::all(bag), &original);
        } else {
            compare(mc, &kept(bag), &buffered);
        }
    });
}

/// What can be done with a set of handles.
#[derive(Clone, Copy, Debug)]
enum Op {
    Own,
    Share,
    Clone(usize),
    IntoShared(usize),
    Again(usize),
    ShareAgain(usize),
    Drop(usize),
    /// Move it to another place
    Swap(usize),
}

fn replay(spec: &Spec, ops: &[Op]) -> (Vec<OwnedValueBag>, Vec<String>) {
    let bag = spec.bag();
    let mut handles: Vec<OwnedValueBag> = Vec::new();
    for op in ops {
        match *op {
            Op::Own => handles.push(bag.to_owned()),
            Op::Share => handles.push(bag.to_shared()),
            Op::Clone(i) => {
                let h = handles[i].clone();
                handles.push(h)
            }
            Op::IntoShared(i) => {
                let h = handles.remove(i);
                handles.insert(i, h.into_shared());
            }
            Op::Again(i) => {
                let h = handles[i].by_ref().to_owned();
                handles.push(h)
            }
            Op::ShareAgain(i) => {
                let h = ValueBag::from(&handles[i]).clone().to_shared();
                handles.push(h)
            }
            Op::Drop(i) => drop(handles.remove(i)),
            Op::Swap(i) => {
                let h = Box::new(handles.remove(i));
                handles.insert(0, *h);
            }
        }
    }
    let now = mc::observe::all(&bag);
    (handles, now)
}

struct Pool<'a> {
    spec: &'a Spec,
    original: Vec<String>,
    buffered: Vec<String>,
    depth: usize,
}

impl<'a> Pool<'a> {
    fn walk(&self, mc: &mut Mc, ops: &mut Vec<Op>, handles: usize) {
        if ops.len() == self.depth {
            let (handles, now) = replay(self.spec, ops);
            mc.trace();
            let bad = |got: &[String], expected: &[String]| got.iter().zip(expected).position(|(g, e)| g != e);
            let mut found = Vec::new();
            if let Some(i) = bad(&now, &self.original) {
                found.push(("original", i, now[i].clone(), self.original[i].clone()));
            }
            mc.state();
            mc.checks += 1;
            for h in &handles {
                mc.state();
                mc.checks += 1;
                let got = kept(&h.by_ref());
                if let Some(i) = bad(&got, &self.buffered) {
                    found.push(("handle", i, got[i].clone(), self.buffered[i].clone()));
                }
            }
            for (who, i, got, e) in found {
                mc.enter(format!("{ops:?}"));
                mc.enter(who);
                mc.violate(OBSERVERS[i].name, got, e);
                mc.leave();
                mc.leave();
            }
            return;
        }
        let mut next = vec![(Op::Own, handles + 1), (Op::Share, handles + 1)];
        for i in 0..handles {
            next.push((Op::Clone(i), handles + 1));
            next.push((Op::IntoShared(i), handles));
            next.push((Op::Again(i), handles + 1));
            next.push((Op::ShareAgain(i), handles + 1));
            next.push((Op::Drop(i), handles - 1));
            if i > 0 {
                next.push((Op::Swap(i), handles));
            }
        }
        for (op, n) in next {
            if n > 3 || mc.expired() {
                continue;
            }
            mc.step();
            ops.push(op);
            self.walk(mc, ops, n);
            ops.pop();
        }
    }
}

type Step = (&'static str, fn(OwnedValueBag, &mut Vec<OwnedValueBag>) -> OwnedValueBag);

/// Steps from one handle to the next; what is pushed stays around.
const STEPS: [Step; 5] = [
    ("clone", |h, all| {
        let c = h.clone();
        all.push(h);
        c
    }),
    ("into_shared", |h, _| h.into_shared()),
    ("own", |h, all| {
        let c = h.by_ref().to_owned();
        all.push(h);
        c
    }),
    ("share", |h, all| {
        let c = h.by_ref().to_shared();
        all.push(h);
        c
    }),
    ("borrow", |h, all| {
        let c = ValueBag::from(&h).by_ref().clone().to_owned();
        all.push(h);
        c
    }),
];

/// Few steps over and over again.
fn long(mc: &mut Mc, spec: &Spec, steps: usize) {
    let bag = spec.bag();
    let original = mc::observe::all(&bag);
    let buffered = kept(&bag.to_owned().by_ref());
    fn borrow(mc: &mut Mc, bag: &ValueBag, n: usize, original: &[String]) {
        mc.step();
        if n.is_power_of_two() || n == 0 {
            compare(mc, &mc::observe::all(bag), original);
        }
        if n > 0 {
            borrow(mc, &bag.by_ref().clone(), n - 1, original);
        }
    }
    mc.at("by_ref_clone", |mc| borrow(mc, &bag, steps, &original));
    for (a, first) in STEPS {
        for (b, second) in STEPS {
            for (name, keep) in [("keep", true), ("drop", false)] {
                mc.enter(format!("{a}_{b}_{name}"));
                let mut all = Vec::new();
                let mut h = bag.to_owned();
                for n in 1..=steps {
                    h = if n % 2 == 1 { first(h, &mut all) } else { second(h, &mut all) };
                    mc.step();
                    if !keep {
                        all.clear();
                    }
                    if n.is_power_of_two() || n == steps {
                        compare(mc, &kept(&h.by_ref()), &buffered);
                    }
                }
                // The first ones and the last ones are still what they were
                for o in all.iter().take(2).chain(all.iter().rev().take(2)) {
                    compare(mc, &kept(&o.by_ref()), &buffered);
                }
                let n = all.len();
                all.truncate(n / 2);
                compare(mc, &kept(&h.by_ref()), &buffered);
                drop(all);
                compare(mc, &kept(&h.by_ref()), &buffered);
                mc.trace();
                mc.leave();
            }
        }
    }
    compare(mc, &mc::observe::all(&bag), &original);
}

fn main() {
    run("C13", |mc| {
        let (tree_depth, near, far, pool) = if mc.thorough() { (2, 3, 5, 5) } else { (1, 2, 4, 4) };
        for spec in specs(Space { tree_depth, ..Space::SMALL }) {
            if mc.expired() {
                return;
            }
            mc.guard_at(spec.name(), |mc| walk(mc, &spec, near));
        }
        let (wide, deep) = if mc.thorough() { (1000, 150) } else { (300, 70) };
        for spec in mc::spec::large(wide, deep) {
            if mc.expired() {
                return;
            }
            mc.guard_at(spec.name(), |mc| walk(mc, &spec, 1));
        }
        for spec in mc::spec::small() {
            mc.guard_at(format!("long/{}", spec.name()), |mc| long(mc, &spec, if mc.thorough() { 5000 } else { 300 }));
        }
        for spec in mc::spec::small() {
            mc.guard_at(format!("far/{}", spec.name()), |mc| walk(mc, &spec, far));
        }
        for spec in mc::spec::small() {
            mc.guard_at(format!("pool/{}", spec.name()), |mc| {
                let pool = Pool {
                    original: mc::observe::all(&spec.bag()),
                    buffered: kept(&spec.bag().to_owned().by_ref()),
                    spec: &spec,
                    depth: pool,
                };
                pool.walk(mc, &mut Vec::new(), 0);
            });
        }
    });
}
