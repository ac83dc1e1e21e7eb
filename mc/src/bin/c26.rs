//! What isn't structured serializes as exactly what it is.

use mc::{
    engine::{run, Mc},
    routes::derived,
    spec::{large, specs, ways, Er, Model, Space, Spec, Txt},
};
use value_bag::ValueBag;

/// What a consumer is called with, whichever framework it's from.
enum Call {
    None,
    Num(String),
    Char(char),
    Text(String),
    Seq(Vec<Call>),
}

/// The calls for a recipe, unless it's left to a framework.
fn calls(s: &Spec) -> Option<Call> {
    Some(match s {
        Spec::Null => Call::None,
        Spec::U64(v) => Call::Num(format!("u64({v:?})")),
        Spec::I64(v) => Call::Num(format!("i64({v:?})")),
        Spec::U128(v) => Call::Num(format!("u128({v:?})")),
        Spec::I128(v) => Call::Num(format!("i128({v:?})")),
        Spec::F64(v) => Call::Num(format!("f64({:x})", v.to_bits())),
        Spec::Bool(v) => Call::Num(format!("bool({v:?})")),
        Spec::Char(v) => Call::Char(*v),
        Spec::Str(v) => Call::Text(v.clone()),
        Spec::Debug(_) | Spec::Display(_) | Spec::CapDebug(_) | Spec::CapDisplay(_) | Spec::DynDebug(_) | Spec::DynDisplay(_) => {
            Call::Text(Model(s).to_string())
        }
        #[cfg(feature = "error")]
        Spec::CapError(_) | Spec::DynError(_) => Call::Text(Model(s).to_string()),
        #[cfg(feature = "seq")]
        Spec::Seq(v) => Call::Seq(v.iter().map(calls).collect::<Option<_>>()?),
        Spec::Fill(d) => calls(d.inner)?,
        #[cfg(feature = "owned")]
        Spec::Static(_, _, s) | Spec::Owned(_, _, s) => calls(s)?,
        _ => return None,
    })
}

#[cfg(feature = "serde1")]
fn serde_calls(c: &Call, out: &mut Vec<String>) {
    match c {
        Call::None => out.push("none".into()),
        Call::Num(v) => out.push(v.clone()),
        Call::Char(v) => out.push(format!("char({v:?})")),
        Call::Text(v) => out.push(format!("str({v:?})")),
        Call::Seq(v) => {
            out.push("seq".into());
            for v in v {
                out.push("element".into());
                serde_calls(v, out);
            }
            out.push("end_seq".into());
        }
    }
}

#[cfg(feature = "sval2")]
fn sval_calls(c: &Call, out: &mut Vec<String>) {
    match c {
        Call::None => out.push("null".into()),
        Call::Num(v) => out.push(v.clone()),
        Call::Char(v) => out.push(format!("text({:?})", v.to_string())),
        Call::Text(v) => out.push(format!("text({v:?})")),
        Call::Seq(v) => {
            out.push("seq_begin".into());
            for v in v {
                out.push("seq_value_begin".into());
                sval_calls(v, out);
                out.push("seq_value_end".into());
            }
            out.push("seq_end".into());
        }
    }
}

/// Whether a length is given upfront, and which, isn't compared when it's missing.
#[allow(dead_code)]
fn unhinted(toks: Vec<String>, what: &str) -> Vec<String> {
    toks.into_iter().map(|t| if t == format!("{what}(None)") { what.to_owned() } else { t }).collect()
}

/// Give the sequences of the calls the lengths that were given.
#[allow(dead_code)]
fn hinted(toks: Vec<String>, what: &str, c: &Call) -> Vec<String> {
    fn lens(c: &Call, out: &mut Vec<usize>) {
        if let Call::Seq(v) = c {
            out.push(v.len());
            v.iter().for_each(|c| lens(c, out));
        }
    }
    let mut all = Vec::new();
    lens(c, &mut all);
    let mut all = all.into_iter();
    unhinted(toks, what)
        .into_iter()
        .map(|t| {
            if t.starts_with(&format!("{what}(")) || t == what {
                let n = all.next();
                if t == what || Some(t.clone()) == n.map(|n| format!("{what}(Some({n}))")) {
                    return what.to_owned();
                }
            }
            t
        })
        .collect()
}

/// Compare what's called; integers may be wider once they've been buffered.
#[allow(dead_code)]
fn compare<E: std::fmt::Debug + PartialEq>(mc: &mut Mc, field: &str, got: Result<Vec<String>, E>, expected: &[String], buffered: bool) {
    mc.step();
    mc.outcome(format!("{got:?}").as_bytes());
    let widened = |t: String| {
        if buffered && t.starts_with("u64(") {
            t.replacen("u64", "u128", 1)
        } else if buffered && t.starts_with("i64(") {
            t.replacen("i64", "i128", 1)
        } else {
            t
        }
    };
    let got = got.map(|t| t.into_iter().map(widened).collect::<Vec<_>>());
    let expected: Vec<_> = expected.iter().cloned().map(widened).collect();
    mc.eq(field, &got, &Ok(expected));
}

fn look(mc: &mut Mc, step: &'static str, bag: &ValueBag, c: &Call, buffered: bool) {
    let buffered = buffered || step.starts_with("own") || step.starts_with("share");
    mc.enter(step);
    mc.state();
    #[cfg(feature = "serde1")]
    {
        let mut expected = Vec::new();
        serde_calls(c, &mut expected);
        for (field, human) in [("human", true), ("compact", false)] {
            compare(mc, field, mc::record::ser::tokens(bag, human).map(|t| hinted(t, "seq", c)), &expected, buffered);
        }
    }
    #[cfg(feature = "sval2")]
    {
        let mut expected = Vec::new();
        sval_calls(c, &mut expected);
        compare(mc, "stream", mc::record::sv::merged(bag).map(|t| hinted(t, "seq_begin", c)), &expected, buffered);
        let mut rec = mc::record::sv::SvalRec::default();
        rec.merge = true;
        let r = sval_ref::stream_ref(&mut rec, bag).map_err(|_| ());
        compare(mc, "stream_ref", r.map(|_| hinted(rec.toks, "seq_begin", c)), &expected, buffered);
    }
    let _ = (bag, c, buffered);
    mc.leave();
}

/// The text the caller lends, in order.
#[cfg(feature = "sval2")]
fn lent(s: &Spec, out: &mut Vec<(usize, usize)>) {
    match s {
        Spec::Str(v) => out.push((v.as_ptr() as usize, v.len())),
        #[cfg(feature = "seq")]
        Spec::Seq(v) => v.iter().for_each(|s| lent(s, out)),
        _ => (),
    }
}

/// The bag's own handle, and not what it lends.
#[cfg(feature = "owned")]
fn handle(mc: &mut Mc, step: &'static str, h: &value_bag::OwnedValueBag, c: &Call) {
    mc.enter(step);
    mc.state();
    #[cfg(feature = "serde1")]
    {
        let mut expected = Vec::new();
        serde_calls(c, &mut expected);
        for (field, human) in [("human", true), ("compact", false)] {
            compare(mc, field, mc::record::ser::tokens(h, human).map(|t| hinted(t, "seq", c)), &expected, true);
        }
    }
    #[cfg(feature = "sval2")]
    {
        let mut expected = Vec::new();
        sval_calls(c, &mut expected);
        compare(mc, "stream", mc::record::sv::merged(h).map(|t| hinted(t, "seq_begin", c)), &expected, true);
    }
    let _ = (h, c);
    mc.leave();
}

fn one(mc: &mut Mc, s: &Spec) {
    let Some(c) = calls(s) else { return };
    let bag = s.bag();
    derived(&bag, &mut |step, bag| look(mc, step, bag, &c, s.buffered()));
    ways(s, &mut |step, bag| {
        // There's no telling how wide a number is that's filled
        if step != "filled" {
            look(mc, step, bag, &c, s.buffered())
        }
    });
    #[cfg(feature = "owned")]
    {
        handle(mc, "handle_owned", &bag.to_owned(), &c);
        handle(mc, "handle_shared", &bag.to_shared(), &c);
    }
    #[cfg(feature = "sval2")]
    if !s.buffered() {
        let mut expected = Vec::new();
        lent(s, &mut expected);
        for (step, bag) in [("", bag.by_ref()), ("clone", bag.clone())] {
            mc.enter(step);
            mc.step();
            let mut rec = mc::record::sv::SvalRec::default();
            let r = sval_ref::stream_ref(&mut rec, &bag).is_ok();
            let got: Vec<_> = rec.borrowed.into_iter().filter(|b| expected.contains(b)).collect();
            mc.eq("lent", &(r, got), &(true, expected.clone()));
            mc.leave();
        }
    }
    mc.trace();
}

fn main() {
    run("C26", |mc| {
        let mut all = specs(Space { tree_depth: 1, ..Space::SMALL });
        let (wide, deep) = if mc.thorough() { (2000, 150) } else { (300, 70) };
        all.extend(large(wide, deep));
        for k in 0..128 {
            let v = 1u128 << k;
            for v in [v - 1, v, v + 1, !v] {
                all.extend([Spec::U128(v), Spec::I128(v as i128), Spec::I128((v as i128).wrapping_neg())]);
                if let Ok(v) = u64::try_from(v) {
                    all.extend([Spec::U64(v), Spec::I64(v as i64), Spec::I64((v as i64).wrapping_neg()), Spec::F64(f64::from_bits(v)), Spec::F64(f64::from_bits(!v))]);
                }
                if let Some(v) = u32::try_from(v).ok().and_then(char::from_u32) {
                    all.extend([Spec::Char(v), Spec::Str(v.to_string()), Spec::fill(Spec::Char(v))]);
                }
            }
        }
        for n in 0..if mc.thorough() { 1000 } else { 140 } {
            let text: String = "\u{e9}x\"\u{1f600}".chars().cycle().take(n).collect();
            all.push(Spec::Str(text.clone()));
            all.push(Spec::CapDebug(Txt::raw([text.clone()])));
            all.push(Spec::fill_native(Spec::Display(Txt::raw([&text[..], "y", ""]))));
            #[cfg(feature = "error")]
            all.push(Spec::CapError(Er::chain(&[&text, "cause"])));
            #[cfg(feature = "seq")]
            all.push(Spec::Seq((0..n).map(|i| if i % 2 == 0 { Spec::Str(format!("{i}")) } else { Spec::I64(-(i as i64)) }).collect()));
        }
        for s in &all {
            if mc.expired() {
                return;
            }
            mc.guard_at(s.name(), |mc| one(mc, s));
        }
        // Sequences of every pair and triple of what they may hold
        #[cfg(feature = "seq")]
        mc.at("elements", |mc| {
            use mc::spec::{again, small};
            let few: Vec<Spec> = small().into_iter().filter(|s| calls(s).is_some()).collect();
            let thorough = mc.thorough();
            for a in &few {
                for b in &few {
                    if mc.expired() {
                        return;
                    }
                    let s = Spec::Seq(vec![again(a), again(b)]);
                    mc.guard_at(s.name(), |mc| one(mc, &s));
                    for c in few.iter().filter(|_| thorough) {
                        let s = Spec::Seq(vec![again(a), Spec::Seq(vec![again(b)]), again(c)]);
                        mc.guard_at(s.name(), |mc| one(mc, &s));
                    }
                }
            }
        });
        #[cfg(not(feature = "error"))]
        let _ = Er::new;
    });
}
