//! Extracting a sequence gives an entry for each element, in order.

use mc::{
    engine::{run, Mc},
    routes::derived,
    spec::{again, large, specs, tree_specs, Space, Spec, Txt},
    tree::{Cast, Tree},
};
use std::{
    collections::{LinkedList, VecDeque},
    fmt::Debug,
};
use value_bag::ValueBag;

/// What's expected of an element.
type Entry<T> = Result<Option<T>, ()>;

fn int<T: TryFrom<u128> + TryFrom<i128>>(c: &Cast) -> Entry<T> {
    match c {
        Cast::Unsigned(v) => Ok((*v).try_into().ok()),
        Cast::Signed(v) => Ok((*v).try_into().ok()),
        Cast::Unknown => Err(()),
        _ => Ok(None),
    }
}

fn float(c: &Cast) -> Entry<u64> {
    match c {
        Cast::Float(v) => Ok(Some(*v)),
        Cast::Unsigned(v) if *v <= i32::MAX as u128 => Ok(Some((*v as f64).to_bits())),
        Cast::Signed(v) if i32::try_from(*v).is_ok() => Ok(Some((*v as f64).to_bits())),
        // Whether larger integers are cast isn't specified here
        Cast::Unsigned(_) | Cast::Signed(_) | Cast::Unknown => Err(()),
        _ => Ok(None),
    }
}

fn boolean(c: &Cast) -> Entry<bool> {
    match c {
        Cast::Bool(v) => Ok(Some(*v)),
        Cast::Unknown => Err(()),
        _ => Ok(None),
    }
}

fn character(c: &Cast) -> Entry<char> {
    match c {
        Cast::Char(v) => Ok(Some(*v)),
        Cast::Unknown => Err(()),
        _ => Ok(None),
    }
}

fn text(c: &Cast) -> Entry<String> {
    match c {
        Cast::Text(v) => Ok(Some(v.clone())),
        Cast::Unknown => Err(()),
        _ => Ok(None),
    }
}

/// Compare what was extracted with what's in there.
fn compare<T: PartialEq + Debug + Clone>(
    mc: &mut Mc,
    field: &'static str,
    got: Option<Vec<Option<T>>>,
    elements: &Option<Vec<Cast>>,
    f: fn(&Cast) -> Entry<T>,
) {
    mc.step();
    let expected: Option<Vec<Entry<T>>> = elements.as_ref().map(|v| v.iter().map(f).collect());
    let ok = match (&got, &expected) {
        (None, None) => true,
        (Some(g), Some(e)) => g.len() == e.len() && g.iter().zip(e).all(|(g, e)| e.as_ref().map_or(true, |e| e == g)),
        _ => false,
    };
    mc.checks += 1;
    if !ok {
        mc.violate(field, format!("{got:?}"), format!("{expected:?}"));
    }
    if let Some(got) = got {
        mc.outcome(format!("{field}{got:?}").as_bytes());
    }
}

fn bits(v: Option<Vec<Option<f64>>>) -> Option<Vec<Option<u64>>> {
    v.map(|v| v.into_iter().map(|v| v.map(f64::to_bits)).collect())
}

fn look(mc: &mut Mc, bag: &ValueBag, elements: &Option<Vec<Cast>>) {
    mc.state();
    compare(mc, "u64", bag.to_u64_seq(), elements, int::<u64>);
    compare(mc, "i64", bag.to_i64_seq(), elements, int::<i64>);
    compare(mc, "u128", bag.to_u128_seq(), elements, int::<u128>);
    compare(mc, "i128", bag.to_i128_seq(), elements, int::<i128>);
    compare(mc, "f64", bits(bag.to_f64_seq()), elements, float);
    compare(mc, "bool", bag.to_bool_seq(), elements, boolean);
    compare(mc, "char", bag.to_char_seq(), elements, character);
    #[cfg(feature = "alloc")]
    compare(
        mc,
        "str",
        bag.to_str_seq::<Vec<_>>().map(|v| v.into_iter().map(|s| s.map(|s| s.into_owned())).collect()),
        elements,
        text,
    );
    // What can be borrowed isn't specified, but it's the same text
    mc.step();
    let got = bag.to_borrowed_str_seq::<Vec<_>>();
    let ok = match (&got, elements) {
        (None, None) => true,
        (Some(g), Some(e)) => {
            g.len() == e.len()
                && g.iter().zip(e).all(|(g, e)| match (g, text(e)) {
                    (None, _) | (_, Err(())) => true,
                    (Some(g), Ok(e)) => Some(*g) == e.as_deref(),
                })
        }
        _ => false,
    };
    mc.ensure("borrowed_str", ok, || format!("{got:?}"), "the texts of the sequence, or nothing for each");
    // Always something, as the elements alone would be
    mc.step();
    let got: Vec<f64> = bag.as_f64_seq();
    let e = elements.as_deref().unwrap_or(&[]);
    let ok = got.len() == e.len()
        && got.iter().zip(e).all(|(g, e)| match e {
            Cast::Unsigned(v) => *g == *v as f64,
            Cast::Signed(v) => *g == *v as f64,
            Cast::Float(v) => g.to_bits() == *v || (g.is_nan() && f64::from_bits(*v).is_nan()),
            Cast::Unknown => true,
            _ => g.is_nan(),
        });
    mc.ensure("as_f64", ok, || format!("{got:?}"), "the elements as floats");
    mc.outcome(format!("{got:?}").as_bytes());
    // In other collections
    mc.transitions += 2;
    mc.eq(
        "deque",
        &bag.to_i64_seq::<VecDeque<_>>().map(|v| v.into_iter().collect::<Vec<_>>()),
        &bag.to_i64_seq::<Vec<_>>(),
    );
    mc.eq(
        "list",
        &bag.to_bool_seq::<LinkedList<_>>().map(|v| v.into_iter().collect::<Vec<_>>()),
        &bag.to_bool_seq::<Vec<_>>(),
    );
}

fn check(mc: &mut Mc, spec: &Spec) {
    // Whether it's a sequence isn't always specified
    let Some(mut elements) = spec.elements() else { return };
    if cfg!(not(feature = "alloc")) && unlent(spec) {
        // There's nowhere to put text that doesn't exist as such
        return;
    }
    if spec.fails() {
        elements = None;
    }
    derived(&spec.bag(), &mut |step, bag| {
        mc.enter(step);
        look(mc, bag, &elements);
        mc.leave();
    });
    mc.trace();
}

/// Whether any part of it is text that's made up as it's needed.
fn unlent(spec: &Spec) -> bool {
    match spec {
        #[cfg(feature = "sval2")]
        Spec::Sval(t) | Spec::CapSval(t) | Spec::DynSval(t) => {
            t.has(&|t| matches!(t, Tree::Frags(_) | Tree::Collect(_) | Tree::Char(_)))
        }
        Spec::Fill(d) if !d.native => unlent(d.inner),
        Spec::Seq(v) => v.iter().any(unlent),
        s => s.as_tree().map_or(true, |t| {
            t.has(&|t| matches!(t, Tree::Frags(_) | Tree::Collect(_) | Tree::Char(_) | Tree::Text(_) | Tree::Number(_)))
        }),
    }
}

/// Elements of structured sequences.
fn tree_elements() -> Vec<Tree> {
    use Tree::*;
    let one = || Box::new(U8(1));
    vec![
        Null,
        U64(7),
        I64(-8),
        U128(u128::MAX),
        I128(i128::MIN),
        F64(1.5),
        F32(-0.25),
        Bool(true),
        Char('c'),
        Text("text".into()),
        Frags(vec![(true, "a".into()), (false, "b".into())]),
        Collect("collected".into()),
        Bytes(vec![1, 2]),
        None,
        Some(one()),
        Some(Box::new(Seq(true, vec![U8(3)]))),
        Seq(true, vec![]),
        Seq(false, vec![U8(4), Bool(false)]),
        Tuple(vec![Text("in".into()), U8(5)]),
        Seq(true, vec![Seq(true, vec![Seq(true, vec![U8(6)])]), U8(7)]),
        Map(true, vec![(Text("k".into()), U8(8))]),
        Map(false, vec![(Seq(true, vec![U8(9)]), Seq(true, vec![U8(10)]))]),
        Struct(vec![("f", U8(11)), ("g", Seq(true, vec![U8(12)]))]),
        NewtypeVar(1, "B", one()),
        TupleVar(2, "C", vec![U8(13), U8(14)]),
        StructVar(3, "D", vec![("h", U8(15))]),
    ]
}

/// Elements of sequences of bags.
#[allow(unused_mut)]
fn spec_elements() -> Vec<Spec> {
    let mut v = vec![
        Spec::Null,
        Spec::U64(7),
        Spec::I64(-8),
        Spec::U128(u128::MAX),
        Spec::I128(i128::MIN),
        Spec::F64(1.5),
        Spec::Bool(true),
        Spec::Char('c'),
        Spec::Str("text".into()),
        Spec::CapDebug(Txt::new("d")),
        Spec::Seq(vec![]),
        Spec::Seq(vec![Spec::U64(1), Spec::Seq(vec![Spec::Bool(true)])]),
        Spec::fill(Spec::U64(9)),
        Spec::fill(Spec::Seq(vec![Spec::U64(10)])),
    ];
    #[cfg(feature = "error")]
    v.push(Spec::CapError(mc::spec::Er::chain(&["e"])));
    v.extend(tree_specs(&[Tree::U8(11), Tree::Text("t".into()), Tree::Seq(true, vec![Tree::U8(12)])]));
    v
}

/// All sequences of the elements up to a length.
fn sequences<T>(elements: &[T], len: usize, copy: &dyn Fn(&T) -> T, f: &mut dyn FnMut(Vec<T>)) {
    let mut at = vec![0; len];
    loop {
        f(at.iter().map(|i| copy(&elements[*i])).collect());
        let mut i = 0;
        loop {
            if i == len {
                return;
            }
            at[i] += 1;
            if at[i] < elements.len() {
                break;
            }
            at[i] = 0;
            i += 1;
        }
    }
}

/// Ways for a structured sequence to get into a bag.
fn tree_routes(v: Vec<Tree>) -> Vec<Spec> {
    let mut trees = vec![
        Tree::Seq(true, v.clone()),
        Tree::Seq(false, v.clone()),
        Tree::Some(Box::new(Tree::Seq(true, v.clone()))),
        Tree::Some(Box::new(Tree::Some(Box::new(Tree::Tuple(v.clone()))))),
    ];
    if !v.is_empty() {
        trees.push(Tree::Tuple(v));
    }
    let mut out = tree_specs(&trees);
    for s in tree_specs(&trees[..1]) {
        out.push(Spec::fill(s));
    }
    for s in tree_specs(&trees[..1]) {
        out.push(Spec::fill_native(s));
    }
    #[cfg(feature = "owned")]
    for s in tree_specs(&trees[..3]) {
        out.extend(mc::spec::shared("shared", s));
    }
    out
}

/// Ways for a sequence of bags to get into a bag.
fn spec_routes(v: Vec<Spec>) -> Vec<Spec> {
    let again = |v: &[Spec]| Spec::Seq(v.iter().map(again).collect());
    let mut out = vec![
        again(&v),
        Spec::fill(again(&v)),
        Spec::fill_native(again(&v)),
        Spec::fill(Spec::fill_native(again(&v))),
    ];
    #[cfg(feature = "owned")]
    out.extend(mc::spec::shared("shared", again(&v)));
    for how in mc::spec::HOWS {
        out.push(Spec::Via(*how, Box::new(again(&v))));
    }
    out
}

macro_rules! typed {
    ($mc:expr, $($t:ident $cast:expr, [$($v:expr),*];)*) => { $( {
        let v: &'static [$t; 3] = Box::leak(Box::new([$($v),*]));
        let elements = Some(v.iter().map(|v| $cast(v.clone())).collect::<Vec<Cast>>());
        let s: &[$t] = v;
        $mc.guard_at(stringify!($t), |mc| {
            let mut on = |name: &'static str, bag: ValueBag, elements: &Option<Vec<Cast>>| {
                mc.enter(name);
                derived(&bag, &mut |step, bag| {
                    mc.enter(step);
                    look(mc, bag, elements);
                    mc.leave();
                });
                mc.trace();
                mc.leave();
            };
            on("array", ValueBag::from(v), &elements);
            on("option_array", ValueBag::from(Some(v)), &elements);
            on("slice", ValueBag::from(&s), &elements);
            on("option_slice", ValueBag::from(Some(&s)), &elements);
            on("from_seq_slice", ValueBag::from_seq_slice::<&[$t], $t>(&s), &elements);
            on("from_seq_slice_array", ValueBag::from_seq_slice::<[$t; 3], $t>(v), &elements);
            on("no_array", ValueBag::from(None::<&[$t; 3]>), &None);
            on("empty_array", ValueBag::from(&[] as &[$t; 0]), &Some(vec![]));
            on("filled", ValueBag::from_fill(&|s: value_bag::fill::Slot| s.fill_seq_slice::<[$t; 3], $t>(v)), &elements);
        });
    } )* };
}

/// Where text is, or whether it's a copy.
#[derive(Debug, PartialEq)]
enum At {
    Nothing,
    Empty,
    Caller(usize, usize),
    #[cfg(feature = "alloc")]
    Copy(String),
}

fn at(v: Option<&str>) -> At {
    match v {
        None => At::Nothing,
        Some("") => At::Empty,
        Some(v) => At::Caller(v.as_ptr() as usize, v.len()),
    }
}

#[cfg(feature = "alloc")]
fn cow(v: Option<std::borrow::Cow<str>>) -> At {
    match v {
        Some(std::borrow::Cow::Owned(v)) if !v.is_empty() => At::Copy(v),
        v => at(v.as_deref()),
    }
}

/// Text of elements is borrowed exactly when it is from the element alone.
fn borrows(mc: &mut Mc, bag: &ValueBag, alone: &[ValueBag]) {
    for (step, bag) in [("", bag.by_ref().clone()), ("clone", bag.clone()), ("by_ref", bag.by_ref())] {
        mc.enter(step);
        mc.state();
        mc.step();
        let expected: Vec<At> = alone.iter().map(|b| at(b.to_borrowed_str())).collect();
        let got = bag.to_borrowed_str_seq::<Vec<_>>().map(|v| v.into_iter().map(at).collect::<Vec<_>>());
        mc.eq("to_borrowed_str_seq", &got, &Some(expected));
        #[cfg(feature = "alloc")]
        {
            mc.step();
            let expected: Vec<At> = alone.iter().map(|b| cow(b.to_str())).collect();
            let got = bag.to_str_seq::<Vec<_>>().map(|v| v.into_iter().map(cow).collect::<Vec<_>>());
            mc.eq("to_str_seq", &got, &Some(expected));
        }
        mc.leave();
    }
    mc.trace();
}

fn borrowing(mc: &mut Mc, len: usize) {
    let elements = [
        Spec::Str("text".into()),
        Spec::Str("".into()),
        Spec::Str("\u{e9}".repeat(60)),
        Spec::U64(7),
        Spec::Null,
        Spec::CapDisplay(Txt::new("d")),
    ];
    sequences(&elements, len, &again, &mut |v| {
        let alone: Vec<ValueBag> = v.iter().map(|s| s.bag()).collect();
        let s: &[Spec] = &v;
        mc.guard_at(format!("borrows_{len}/{}", v.iter().map(|s| s.name()).collect::<Vec<_>>().join(",")), |mc| {
            mc.at("vec", |mc| borrows(mc, &ValueBag::from_seq_slice::<Vec<Spec>, Spec>(&v), &alone));
            mc.at("slice", |mc| borrows(mc, &ValueBag::from_seq_slice::<&[Spec], Spec>(&s), &alone));
        });
    });
    #[cfg(feature = "sval2")]
    {
        let elements = [
            Tree::Text("text".into()),
            Tree::Text("".into()),
            Tree::Text("\u{e9}".repeat(60)),
            Tree::U64(7),
            Tree::Null,
            Tree::Frags(vec![(false, "q".into())]),
        ];
        sequences(&elements, len, &|t| t.clone(), &mut |v| {
            for t in [Tree::Seq(true, v.clone()), Tree::Tuple(v)] {
                // The elements where they are in the sequence
                let (Tree::Seq(_, v) | Tree::Tuple(v)) = &t else { unreachable!() };
                if cfg!(not(feature = "alloc")) && v.iter().any(|t| matches!(t, Tree::Frags(_))) {
                    continue;
                }
                let alone: Vec<ValueBag> = v.iter().map(|t| ValueBag::from_sval2(t)).collect();
                mc.guard_at(format!("borrows_sval_{len}/{}", mc::spec::tree_name(&t)), |mc| {
                    mc.at("from_sval2", |mc| borrows(mc, &ValueBag::from_sval2(&t), &alone));
                    mc.at("capture_sval2", |mc| borrows(mc, &ValueBag::capture_sval2(&t), &alone));
                    mc.at("from_dyn_sval2", |mc| borrows(mc, &ValueBag::from_dyn_sval2(&t), &alone));
                });
            }
        });
    }
}

fn main() {
    run("C15", |mc| {
        let thorough = mc.thorough();

        // What isn't a sequence has no elements, and everything that may be one
        let tree_depth = if thorough { 3 } else { 2 };
        for spec in specs(Space { tree_depth, ..Space::SMALL }) {
            if mc.expired() {
                return;
            }
            mc.guard_at(spec.name(), |mc| check(mc, &spec));
        }

        let (wide, deep) = if thorough { (1000, 150) } else { (300, 70) };
        for spec in large(wide, deep) {
            mc.guard_at(spec.name(), |mc| check(mc, &spec));
        }

        // Slices of primitives
        let unsigned = Cast::Unsigned;
        typed!(mc,
            u8 |v| unsigned(v as u128), [0, 1, u8::MAX];
            u16 |v| unsigned(v as u128), [0, 1, u16::MAX];
            u32 |v| unsigned(v as u128), [0, 1, u32::MAX];
            u64 |v| unsigned(v as u128), [0, 1, u64::MAX];
            usize |v| unsigned(v as u128), [0, 1, usize::MAX];
            u128 |v| unsigned(v), [0, 1, u128::MAX];
            i8 |v| Cast::Signed(v as i128), [i8::MIN, 1, i8::MAX];
            i16 |v| Cast::Signed(v as i128), [i16::MIN, 1, i16::MAX];
            i32 |v| Cast::Signed(v as i128), [i32::MIN, 1, i32::MAX];
            i64 |v| Cast::Signed(v as i128), [i64::MIN, 1, i64::MAX];
            isize |v| Cast::Signed(v as i128), [isize::MIN, 1, isize::MAX];
            i128 |v| Cast::Signed(v), [i128::MIN, 1, i128::MAX];
            f32 |v: f32| Cast::Float((v as f64).to_bits()), [0.0, -1.5, f32::INFINITY];
            f64 |v: f64| Cast::Float(v.to_bits()), [0.0, -1.5, f64::INFINITY];
            bool |v| Cast::Bool(v), [true, false, true];
            char |v| Cast::Char(v), ['a', '\u{10ffff}', 'b'];
        );
        mc.guard_at("str", |mc| {
            let v = ["a", "", "third"];
            let s: &[&str] = &v;
            let elements = Some(v.iter().map(|v| Cast::Text((*v).into())).collect::<Vec<_>>());
            look(mc, &ValueBag::from(&v), &elements);
            look(mc, &ValueBag::from(Some(&v)), &elements);
            look(mc, &ValueBag::from(&s), &elements);
            look(mc, &ValueBag::from(Some(&s)), &elements);
            // Text in the original can be borrowed
            mc.eq("borrowed", &ValueBag::from(&v).to_borrowed_str_seq::<Vec<_>>(), &Some(v.iter().map(|v| Some(*v)).collect()));
            #[cfg(feature = "alloc")]
            {
                let v: Vec<String> = v.iter().map(|v| (*v).to_owned()).collect();
                look(mc, &ValueBag::from(&v), &elements);
                look(mc, &ValueBag::from(Some(&v)), &elements);
                let v = vec![1u8, 2, 3];
                look(mc, &ValueBag::from(&v), &Some(v.iter().map(|v| Cast::Unsigned(*v as u128)).collect()));
            }
            mc.trace();
        });

        // Every sequence of elements
        let (trees, len) = (tree_elements(), if thorough { 3 } else { 2 });
        for len in 0..=len {
            sequences(&trees, len, &|t| t.clone(), &mut |v| {
                if !mc.expired() {
                    for spec in tree_routes(v) {
                        mc.guard_at(spec.name(), |mc| check(mc, &spec));
                    }
                }
            });
        }
        for len in 0..=2 {
            sequences(&spec_elements(), len, &again, &mut |v| {
                if !mc.expired() {
                    for spec in spec_routes(v) {
                        mc.guard_at(spec.name(), |mc| check(mc, &spec));
                    }
                }
            });
        }

        // Whose memory texts are in
        for len in 0..=if thorough { 4 } else { 3 } {
            borrowing(mc, len);
        }

        // A nested element at every position of sequences of every length
        for n in 0..=if thorough { 70 } else { 20 } {
            for at in 0..n {
                let v: Vec<Tree> = (0..n)
                    .map(|i| {
                        if i == at {
                            Tree::Seq(true, vec![Tree::U8(1); n])
                        } else {
                            Tree::U32(i as u32)
                        }
                    })
                    .collect();
                for spec in tree_routes(v) {
                    mc.guard_at(format!("long{n}_{at}/{}", spec.name()), |mc| check(mc, &spec));
                }
                let v: Vec<Spec> = (0..n)
                    .map(|i| if i == at { Spec::Seq(vec![]) } else { Spec::U64(i as u64) })
                    .collect();
                for spec in spec_routes(v) {
                    mc.guard_at(format!("long{n}_{at}/{}", spec.name()), |mc| check(mc, &spec));
                }
            }
        }
    });
}
