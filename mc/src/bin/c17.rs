//! A value that fails is reported, never panics and never becomes other data.

use mc::{
    engine::{run, Mc},
    observe::{Class, OBSERVERS},
    routes::{derived, histories, nested},
    spec::{Refusal, Spec, Txt, HOWS, REFUSALS},
    tree::{Cast, Tree},
};
#[cfg(feature = "error")]
use mc::spec::Er;
use std::fmt::Write as _;
use value_bag::ValueBag;

/// What fails.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// Formatting
    Text,
    /// Producing the value at all
    Value,
    /// Producing an element of a sequence of bags
    Element,
}

struct Case {
    spec: Spec,
    kind: Kind,
    /// What was written before the failure
    partial: String,
    /// Went through the library that formats `serde` values, which notes errors in the output
    notes: bool,
    /// A primitive is complete before the failure, so it may count
    complete: bool,
    /// What extractions give, if not nothing: elements that fail give nothing
    elements: Option<Vec<Cast>>,
}

fn shown(bag: &ValueBag, display: bool) -> Result<String, String> {
    let mut s = String::new();
    let r = if display { write!(s, "{bag}") } else { write!(s, "{bag:?}") };
    match r {
        Ok(()) => Ok(s),
        Err(_) => Err(s),
    }
}

fn nothing(name: &str) -> &'static str {
    match name {
        "as_f64" => "nan",
        "as_f64_seq" => "[]",
        _ => "None",
    }
}

/// Whether text shows that something went wrong, as opposed to something else.
fn placeholder(case: &Case, text: &str) -> bool {
    // What was there before the failure may come first
    let rest = text.strip_prefix(&*case.partial).unwrap_or(text);
    !case.partial.starts_with(text) && rest.contains('<')
}

fn observe(mc: &mut Mc, case: &Case, step: &str, bag: &ValueBag, buffered: bool) {
    mc.state();
    let marked = step.starts_with("owned_in_") && case.kind == Kind::Text;
    // Conversions
    for o in OBSERVERS {
        let convert = o.name.starts_with("to_") || o.name.starts_with("try_") || o.name == "as_f64";
        let extract = o.name.ends_with("_seq");
        if !(convert || extract) || matches!(o.class, Class::Meta) {
            continue;
        }
        mc.step();
        let got = (o.f)(bag);
        if let (true, Some(expected)) = (extract, &case.elements) {
            if o.class == Class::Value {
                let ok = got == nothing(o.name) && (case.kind != Kind::Element || step.contains("in_")) || got == extracted(o.name, expected);
                mc.ensure(o.name, ok, || got.clone(), &extracted(o.name, expected));
            }
            continue;
        }
        // Borrowing doesn't look into the elements of `serde` sequences
        if case.complete && !buffered && !extract || extract && o.class == Class::Borrow && (case.notes || step.contains("serde")) {
            continue;
        }
        // Buffered text that shows the failure is text to a framework
        if marked && ["to_str", "try_string", "try_cow"].contains(&o.name) && got != "None" {
            mc.ensure(o.name, placeholder(case, &got), || got.clone(), "something that shows the failure");
            continue;
        }
        mc.eq(o.name, &got.as_str(), &nothing(o.name));
    }
    // Formatting
    for display in [true, false] {
        let field = if display { "display" } else { "debug" };
        mc.step();
        match shown(bag, display) {
            Err(_) => (),
            Ok(s) => {
                let may = buffered || case.notes || step.contains("serde");
                mc.ensure(field, may, || format!("{s:?}"), "an error");
                mc.ensure(field, placeholder(case, &s), || format!("{s:?}"), "something that shows the failure");
                mc.outcome(s.as_bytes());
            }
        }
    }
    // Serialization
    #[cfg(feature = "serde1")]
    for human in [true, false] {
        mc.step();
        match mc::record::ser::tokens(bag, human) {
            Err(e) => mc.outcome(format!("{e:?}").as_bytes()),
            Ok(t) => {
                let ok = buffered && case.kind == Kind::Text && t.len() == 1 && placeholder(case, &t[0]);
                mc.ensure("serde", ok, || format!("{t:?}"), "an error");
            }
        }
    }
    #[cfg(feature = "sval2")]
    {
        mc.step();
        match mc::record::sv::merged(bag) {
            Err(e) => mc.outcome(format!("{e:?}").as_bytes()),
            Ok(t) => {
                let text = t.concat();
                let ok = buffered && case.kind == Kind::Text && placeholder(case, &text);
                mc.ensure("sval", ok, || format!("{t:?}"), "an error");
            }
        }
    }
    // Visiting
    mc.step();
    let mut v = mc::observe::VisitRec::default();
    let r = bag.visit(&mut v);
    match r {
        Err(_) => mc.ensure("visit", v.calls.is_empty() || case.complete, || format!("{:?}", v.calls), "an error and no calls"),
        Ok(()) => {
            let may = case.complete && !buffered;
            let ok = v.calls.len() == 1 && ["any(", "error(", "borrowed_error("].iter().any(|p| v.calls[0].starts_with(p))
                || marked && v.calls.len() == 1 && v.calls[0].starts_with("str(");
            mc.ensure("visit", may || ok, || format!("{:?}", v.calls), "an error, or the failing value");
            if ok {
                mc.ensure("visit", v.calls[0].contains('<'), || format!("{:?}", v.calls), "a value that fails");
            }
            if buffered && case.kind == Kind::Value && !step.contains("in_") && !shared(&case.spec) {
                mc.ensure("visit", false, || format!("{:?}", v.calls), "an error");
            }
        }
    }
    mc.step();
    mc.eq("is_empty", &bag.is_empty(), &false);
    mc.trace();
}

/// Whether the value is kept as it is by buffering.
fn shared(spec: &Spec) -> bool {
    match spec {
        #[cfg(feature = "owned")]
        Spec::Static(..) => true,
        _ => false,
    }
}

/// Whether the value hands text that fails to `serde` to collect.
///
/// Buffering these is a known finding.
fn collects(spec: &Spec) -> bool {
    match spec {
        #[cfg(feature = "serde1")]
        Spec::Via(mc::spec::How::Serde | mc::spec::How::CapSerde, of) => matches!(**of, Spec::Debug(_) | Spec::Display(_)),
        _ => false,
    }
}

/// Derivations without the ones that buffer, if that can't be done.
fn derivations(bag: &ValueBag, buffer: bool, f: mc::routes::With) {
    if buffer {
        derived(bag, f)
    } else {
        f("", bag);
        f("clone", &bag.clone());
        f("by_ref", &bag.by_ref());
    }
}

fn check(mc: &mut Mc, case: &Case) {
    let bag = case.spec.bag();
    let buffer = !collects(&case.spec);
    derivations(&bag, buffer, &mut |step, bag| {
        let buffered = step.contains("own") || step.contains("share") || case.spec.buffered();
        mc.at(step, |mc| observe(mc, case, step, bag, buffered));
    });
    if !buffer {
        return;
    }
    nested(&bag, &mut |step, bag| {
        let buffer = !(step == "in_serde1" && case.kind == Kind::Text);
        // A failure of one kind may become another
        let case = Case {
            spec: mc::spec::again(&case.spec),
            kind: if step.starts_with("in_") { Kind::Value } else { case.kind },
            partial: case.partial.clone(),
            notes: case.notes,
            complete: case.complete,
            elements: case.elements.clone(),
        };
        let buffered = step.contains("own");
        mc.at(step, |mc| {
            observe(mc, &case, step, bag, buffered);
            if step.starts_with("in_") {
                derivations(bag, buffer, &mut |next, bag| {
                    let buffered = next.contains("own") || next.contains("share");
                    if buffered {
                        mc.at(next, |mc| observe(mc, &case, next, bag, buffered));
                    }
                });
            }
        });
    });
}

fn txts() -> Vec<Txt> {
    let long = "x".repeat(100);
    vec![
        Txt { chunks: vec![], ..Txt { marked: false, ..Txt::failing("") } },
        Txt::failing("v"),
        Txt { chunks: vec!["12".into()], ..Txt { marked: false, ..Txt::failing("") } },
        Txt { chunks: vec!["{\"a\":".into(), "1".into()], ..Txt { marked: false, ..Txt::failing("") } },
        Txt { chunks: vec![long.clone()], ..Txt { marked: false, ..Txt::failing("") } },
        Txt { chunks: vec!["short".into(), long], ..Txt { marked: false, ..Txt::failing("") } },
    ]
}

fn partial(debug: bool, t: &Txt) -> String {
    let mut s = String::new();
    let _ = if debug { write!(s, "{t:?}") } else { write!(s, "{t}") };
    s
}

/// Whether a primitive is done before the end.
#[allow(dead_code)]
fn wraps_prim(t: &Tree) -> bool {
    match t {
        Tree::Some(t) | Tree::Newtype(t) | Tree::NewtypeVar(_, _, t) => !matches!(t.sval_cast(), Cast::Nothing),
        Tree::Number(_) | Tree::UnitVar(..) | Tree::None | Tree::Unit | Tree::UnitStruct | Tree::Collect(_) => true,
        _ => false,
    }
}

/// How many steps merely close what's around a value, when `serde` has seen all there is to see.
#[allow(dead_code)]
fn closing(t: &Tree) -> usize {
    match t {
        Tree::Some(t) | Tree::Newtype(t) => 1 + closing(t),
        Tree::NewtypeVar(_, _, t) => 2 + closing(t),
        Tree::Number(_) | Tree::UnitVar(..) | Tree::TupleVar(..) | Tree::StructVar(..) => 1,
        _ => 0,
    }
}

#[allow(unused_mut, unused_variables)]
fn cases(depth: usize) -> Vec<Case> {
    let mut out = Vec::new();
    for t in txts() {
        for (debug, spec) in [
            (true, Spec::Debug(t.clone())),
            (false, Spec::Display(t.clone())),
            (true, Spec::CapDebug(t.clone())),
            (false, Spec::CapDisplay(t.clone())),
            (true, Spec::DynDebug(t.clone())),
            (false, Spec::DynDisplay(t.clone())),
        ] {
            let p = partial(debug, &t);
            out.push(text(spec, &p));
        }
        #[cfg(feature = "owned")]
        for (debug, spec) in [(true, Spec::Debug(t.clone())), (false, Spec::Display(t.clone()))] {
            let p = partial(debug, &t);
            out.push(text(mc::spec::shared("shared", spec).expect("can be shared"), &p));
        }
        for (debug, spec) in [(true, Spec::Debug(t.clone())), (false, Spec::Display(t.clone()))] {
            let p = partial(debug, &t);
            out.push(text(Spec::fill(mc::spec::again(&spec)), &p));
            out.push(text(Spec::fill_native(mc::spec::again(&spec)), &p));
            for how in HOWS {
                let name = format!("{how:?}");
                let spec = Spec::Via(*how, Box::new(mc::spec::again(&spec)));
                if name.contains("Debug") || name.contains("Display") {
                    out.push(text(spec, &p));
                } else {
                    let mut c = value(spec);
                    c.partial = p.clone();
                    c.notes = name.contains("Serde");
                    out.push(c);
                }
            }
        }
        #[cfg(feature = "error")]
        {
            let e = Er { msg: Txt { marked: false, ..t.clone() }, source: None };
            let p = t.chunks.concat();
            out.push(text(Spec::CapError(e.clone()), &p));
            out.push(text(Spec::DynError(e.clone()), &p));
            out.push(text(Spec::fill(Spec::CapError(e.clone())), &p));
            out.push(text(Spec::fill_native(Spec::CapError(e.clone())), &p));
            out.push(text(mc::spec::shared("shared", Spec::CapError(e)).expect("can be shared"), &p));
        }
    }
    for r in REFUSALS {
        let refuse = |r: &Refusal| Spec::Refuse(*r);
        out.push(value(refuse(r)));
        out.push(value(Spec::fill(refuse(r))));
        out.push(value(Spec::fill(Spec::fill(refuse(r)))));
        for how in HOWS {
            let name = format!("{how:?}");
            let spec = Spec::Via(*how, Box::new(refuse(r)));
            if name.contains("Debug") || name.contains("Display") {
                out.push(text(spec, ""));
            } else {
                out.push(Case { notes: name.contains("Serde"), ..value(spec) });
            }
        }
        #[cfg(feature = "seq")]
        for i in 0..3 {
            let mut v = vec![Spec::U64(1), Spec::Str("s".into()), Spec::Null];
            v[i] = refuse(r);
            let elements = Some(v.iter().map(|s| s.cast()).collect());
            let seq = Spec::Seq(v);
            out.push(Case { kind: Kind::Element, elements, ..value(seq) });
        }
    }
    for t in mc::tree::trees(depth) {
        #[cfg(feature = "sval2")]
        for n in 0..mc::tree::sval_steps(&t) - closing(&t) {
            let complete = wraps_prim(&t) && n > 0;
            let cut = Tree::Cut(n, Box::new(t.clone()));
            for spec in [Spec::Sval(cut.clone()), Spec::CapSval(cut.clone()), Spec::DynSval(cut.clone()), Spec::fill_native(Spec::Sval(cut.clone()))] {
                out.push(Case { complete, ..value(spec) });
            }
            #[cfg(feature = "owned")]
            out.push(Case { complete, ..value(mc::spec::shared("shared", Spec::Sval(cut.clone())).expect("can be shared")) });
        }
        #[cfg(feature = "serde1")]
        for n in 0..mc::tree::serde_steps(&t) {
            let complete = false;
            let cut = Tree::Cut(n, Box::new(t.clone()));
            for spec in [Spec::Serde(cut.clone()), Spec::CapSerde(cut.clone()), Spec::fill_native(Spec::Serde(cut.clone()))] {
                out.push(Case { complete, notes: true, ..value(spec) });
            }
            #[cfg(feature = "owned")]
            out.push(Case { complete, notes: true, ..value(mc::spec::shared("shared", Spec::Serde(cut.clone())).expect("can be shared")) });
        }
    }
    // An element that fails by itself
    for i in 0..3 {
        let mut v = vec![Tree::U8(1), Tree::Text("s".into()), Tree::Null];
        v[i] = Tree::Fail;
        let elements: Option<Vec<Cast>> = Some(v.iter().map(|t| t.serde_cast()).collect());
        for t in [Tree::Seq(true, v.clone()), Tree::Seq(false, v.clone()), Tree::Tuple(v.clone()), Tree::Some(Box::new(Tree::Tuple(v)))] {
            #[cfg(feature = "sval2")]
            out.push(value(Spec::Sval(t.clone())));
            #[cfg(feature = "serde1")]
            for spec in [Spec::Serde(t.clone()), Spec::CapSerde(t.clone()), Spec::fill_native(Spec::Serde(t.clone()))] {
                out.push(Case { notes: true, elements: elements.clone(), ..value(spec) });
            }
        }
    }
    out
}

/// What an extractor gives for elements that casts make this of.
fn extracted(name: &str, of: &[Cast]) -> String {
    let one = |c: &Cast| -> String {
        let v = match (name, c) {
            ("u64_seq" | "u128_seq" | "i64_seq" | "i128_seq", Cast::Unsigned(v)) => v.to_string(),
            ("str_seq", Cast::Text(v)) => format!("{v:?}"),
            ("f64_seq", Cast::Unsigned(v)) => format!("{:?}", format!("{:x}", (*v as f64).to_bits())),
            ("as_f64_seq", Cast::Unsigned(v)) => return format!("{:?}", format!("{:x}", (*v as f64).to_bits())),
            ("as_f64_seq", _) => return "\"nan\"".into(),
            _ => return "None".into(),
        };
        format!("Some({v})")
    };
    let all = of.iter().map(one).collect::<Vec<_>>().join(", ");
    if name == "as_f64_seq" {
        format!("[{all}]")
    } else {
        format!("Some([{all}])")
    }
}

fn text(spec: Spec, partial: &str) -> Case {
    Case {
        spec,
        kind: Kind::Text,
        partial: partial.into(),
        notes: false,
        complete: false,
        elements: None,
    }
}

fn value(spec: Spec) -> Case {
    Case {
        kind: Kind::Value,
        ..text(spec, "")
    }
}

/// Failing anywhere in a chain leaves the other messages alone.
#[cfg(feature = "error")]
fn chains(mc: &mut Mc, depth: usize) {
    use mc::observe::chain;
    for len in 1..=depth {
        for fails in 0..len {
            for t in txts() {
                let mut e = None;
                for i in (0..len).rev() {
                    let mut msg = Txt::raw([format!("message {i}")]);
                    if i == fails {
                        msg = Txt { marked: false, ..t.clone() };
                    }
                    e = Some(Er { msg, source: e.map(Box::new) });
                }
                let e = e.expect("not empty");
                let spec = Spec::CapError(e.clone());
                mc.guard_at(spec.name(), |mc| {
                    derived(&spec.bag(), &mut |step, bag| {
                        mc.at(step, |mc| {
                            mc.state();
                            struct V<'a>(&'a mut Vec<String>);
                            impl<'a, 'v> value_bag::visit::Visit<'v> for V<'a> {
                                fn visit_any(&mut self, _: ValueBag) -> Result<(), value_bag::Error> {
                                    Ok(())
                                }
                                fn visit_error(&mut self, e: &(dyn std::error::Error + 'static)) -> Result<(), value_bag::Error> {
                                    *self.0 = chain(e);
                                    Ok(())
                                }
                            }
                            let mut got = Vec::new();
                            let _ = bag.visit(V(&mut got));
                            mc.step();
                            mc.eq("length", &got.len(), &len);
                            for (i, m) in got.iter().enumerate() {
                                if i == fails {
                                    let c = text(Spec::Null, &t.chunks.concat());
                                    mc.ensure("failing", placeholder(&c, m), || m.clone(), "something that shows the failure");
                                } else {
                                    mc.eq("message", m, &format!("message {i}"));
                                }
                            }
                            mc.trace();
                        })
                    });
                });
            }
        }
    }
}

fn main() {
    run("C17", |mc| {
        let (depth, steps) = if mc.thorough() { (3, 4) } else { (2, 3) };
        for case in cases(depth) {
            if mc.expired() {
                return;
            }
            mc.guard_at(case.spec.name(), |mc| check(mc, &case));
        }
        mc.at("histories", |mc| {
            for case in cases(1).into_iter().filter(|c| !collects(&c.spec)) {
                if mc.expired() {
                    return;
                }
                mc.guard_at(case.spec.name(), |mc| {
                    histories(mc, &case.spec.bag(), steps, &mut |mc, bag, buffered| observe(mc, &case, "", bag, buffered > 0));
                });
            }
        });
        #[cfg(all(feature = "serde1", feature = "owned"))]
        mc.guard_at("buffer_collected_text_that_fails", |mc| {
            let text = Txt::failing("v");
            let failing = ValueBag::from_display(&text);
            let bag = ValueBag::from_serde1(&failing);
            mc.state();
            mc.eq("display", &bag.to_owned().by_ref().to_str().is_some(), &false);
        });
        #[cfg(feature = "error")]
        mc.at("chains", |mc| chains(mc, if mc.thorough() { 6 } else { 4 }));
    });
}
