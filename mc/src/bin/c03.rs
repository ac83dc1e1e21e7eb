//! Text comes back exact, and borrowed text is the caller's own memory.

use mc::{
    engine::{run, Mc},
    routes::derived,
    tree::Tree,
};
use std::borrow::Cow;
use value_bag::{fill::Slot, ValueBag};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Borrow {
    /// The caller's own memory comes back
    Same,
    /// Up to the framework, but no other memory
    May,
    /// Only lives for the duration of a callback
    Never,
}

fn within(part: &str, whole: &[&str]) -> bool {
    let p = part.as_ptr() as usize;
    part.is_empty()
        || whole.iter().any(|w| {
            let w0 = w.as_ptr() as usize;
            p >= w0 && p + part.len() <= w0 + w.len()
        })
}

fn same(a: &str, b: &str) -> bool {
    a.len() == b.len() && (a.as_ptr() == b.as_ptr() || a.is_empty())
}

fn check(mc: &mut Mc, bag: &ValueBag, text: &str, memory: &[&str], borrow: Borrow, buffered: bool) {
    mc.state();
    let borrowed = bag.to_borrowed_str();
    if let Some(b) = borrowed {
        mc.eq("to_borrowed_str", &b, &text);
        if !buffered {
            mc.ensure("borrow_of", within(b, memory), || format!("{:p}+{}", b, b.len()), "memory of the caller");
        } else {
            mc.ensure(
                "borrow_of",
                b.is_empty() || !within(b, memory),
                || "memory of the caller".to_owned(),
                "memory of the owned value",
            );
        }
    }
    match borrow {
        Borrow::Same if !buffered => mc.ensure(
            "to_borrowed_str",
            borrowed.map(|b| memory.iter().any(|m| same(b, m))).unwrap_or(false),
            || format!("{borrowed:?}"),
            "a borrow of the caller's text",
        ),
        Borrow::Never if !buffered => mc.eq("to_borrowed_str", &borrowed, &None),
        _ => (),
    }
    mc.eq("try_from_str", &<&str>::try_from(bag.clone()).ok(), &borrowed);
    #[cfg(feature = "alloc")]
    {
        let s = bag.to_str();
        mc.eq("to_str", &s.as_deref(), &Some(text));
        match &s {
            Some(Cow::Borrowed(b)) => mc.ensure(
                "to_str_borrow",
                borrow != Borrow::Never || buffered,
                || format!("borrowed {b:?}"),
                "an owned copy",
            ),
            Some(Cow::Owned(_)) => mc.ensure(
                "to_str_borrow",
                borrow != Borrow::Same || buffered,
                || "an owned copy".to_owned(),
                "a borrow of the caller's text",
            ),
            None => (),
        }
        if let Some(Cow::Borrowed(b)) = &s {
            if !buffered {
                mc.ensure("to_str_of", within(b, memory), || format!("{b:p}"), "memory of the caller");
            }
        }
        mc.eq("try_from_string", &String::try_from(bag.clone()).ok().as_deref(), &Some(text));
        mc.eq("try_from_cow", &Cow::<str>::try_from(bag.clone()).ok().as_deref(), &Some(text));
        mc.transitions += 3;
        // Still the same after everything else
        mc.eq("to_str_again", &bag.to_str().as_deref(), &Some(text));
    }
    #[cfg(not(feature = "alloc"))]
    let _: Option<Cow<str>> = None;
    // Text isn't anything else
    mc.eq("to_u64", &bag.to_u64(), &None);
    mc.eq("to_i64", &bag.to_i64(), &None);
    mc.eq("to_u128", &bag.to_u128(), &None);
    mc.eq("to_i128", &bag.to_i128(), &None);
    mc.eq("to_f64", &bag.to_f64(), &None);
    mc.eq("to_bool", &bag.to_bool(), &None);
    mc.eq("to_char", &bag.to_char(), &None);
    mc.ensure("as_f64", bag.as_f64().is_nan(), || format!("{}", bag.as_f64()), "NaN");
    mc.eq("is_empty", &bag.is_empty(), &false);
    mc.transitions += 11;
    mc.outcome(format!("{}{:?}{}", text.len(), borrowed.is_some(), text.is_ascii()).as_bytes());
}

fn route(mc: &mut Mc, name: &'static str, bag: &ValueBag, text: &str, memory: &[&str], borrow: Borrow) {
    mc.enter(name);
    mc.step();
    derived(bag, &mut |step, bag| {
        mc.enter(step);
        mc.step();
        let buffered = !["", "clone", "by_ref"].contains(&step);
        check(mc, bag, text, memory, borrow, buffered);
        mc.leave();
    });
    mc.trace();
    mc.leave();
}

fn text(mc: &mut Mc, text: &str) {
    use Borrow::*;
    let string = text.to_owned();
    // Some ways in want data that lives forever
    let leaked: &'static str = Box::leak(string.clone().into_boxed_str());
    let s = string.as_str();
    let m: &[&str] = &[s, leaked];

    route(mc, "from_str", &ValueBag::from_str(s), text, &[s], Same);
    route(mc, "from", &ValueBag::from(s), text, &[s], Same);
    route(mc, "from_ref", &ValueBag::from(&s), text, &[s], Same);
    route(mc, "option", &ValueBag::from(Some(s)), text, &[s], Same);
    route(mc, "from_option", &ValueBag::from_option(Some(s)), text, &[s], Same);
    route(mc, "try_capture_str", &ValueBag::try_capture(s).unwrap_or(ValueBag::empty()), text, &[s], Same);
    route(mc, "try_capture_static", &ValueBag::try_capture(&leaked).unwrap_or(ValueBag::empty()), text, &[leaked], Same);
    route(mc, "capture_debug", &ValueBag::capture_debug(&leaked), text, &[leaked], Same);
    route(mc, "capture_display", &ValueBag::capture_display(&leaked), text, &[leaked], Same);
    let some = Some(leaked);
    route(mc, "capture_debug_option", &ValueBag::capture_debug(&some), text, &[leaked], Same);
    route(mc, "fill", &ValueBag::from_fill(&|s: Slot| s.fill_any(leaked)), text, &[leaked], Same);
    #[cfg(feature = "alloc")]
    {
        let owned_some = Some(string.clone());
        let om: &[&str] = &[owned_some.as_deref().unwrap_or("")];
        route(mc, "string", &ValueBag::from(&string), text, &[s], Same);
        route(mc, "cow_borrowed", &ValueBag::from(&Cow::Borrowed(s)), text, &[s], Same);
        let cow = Cow::Owned::<str>(string.clone());
        route(mc, "cow_owned", &ValueBag::from(&cow), text, &[&cow], Same);
        route(mc, "try_capture_string", &ValueBag::try_capture(&string).unwrap_or(ValueBag::empty()), text, &[s], Same);
        route(mc, "capture_debug_string", &ValueBag::capture_debug(&string), text, &[s], Same);
        route(mc, "capture_display_string", &ValueBag::capture_display(&string), text, &[s], Same);
        route(mc, "capture_string_option", &ValueBag::capture_debug(&owned_some), text, om, Same);
        #[cfg(feature = "serde1")]
        route(mc, "capture_serde1_string", &ValueBag::capture_serde1(&string), text, &[s], Same);
        #[cfg(all(feature = "serde1", feature = "std"))]
        route(mc, "capture_serde1_option", &ValueBag::capture_serde1(&owned_some), text, om, Same);
    }
    #[cfg(feature = "sval2")]
    {
        let tree = Tree::Text(string.clone());
        let Tree::Text(t) = &tree else { unreachable!() };
        route(mc, "capture_sval2_static", &ValueBag::capture_sval2(&leaked), text, &[leaked], Same);
        route(mc, "capture_sval2_option", &ValueBag::capture_sval2(&some), text, &[leaked], Same);
        route(mc, "from_sval2", &ValueBag::from_sval2(&s), text, m, Same);
        route(mc, "from_dyn_sval2", &ValueBag::from_dyn_sval2(&s), text, m, Same);
        route(mc, "sval2_tree", &ValueBag::from_sval2(&tree), text, &[t], Same);
        route(mc, "capture_sval2_tree", &ValueBag::capture_sval2(&tree), text, &[t], Same);
        route(mc, "dyn_sval2_tree", &ValueBag::from_dyn_sval2(&tree), text, &[t], Same);
        route(mc, "fill_sval2", &ValueBag::from_fill(&|s: Slot| s.fill_sval2(leaked)), text, &[leaked], Never);
        route(
            mc,
            "fill_sval2_temp",
            &ValueBag::from_fill(&|slot: Slot| slot.fill_sval2(&Tree::Text(s.to_owned()))),
            text,
            &[],
            Never,
        );
        let computed = Tree::Frags(vec![(false, string.clone())]);
        route(mc, "sval2_computed", &ValueBag::from_sval2(&computed), text, &[], Never);
        let display = Tree::Collect(string.clone());
        route(mc, "sval2_display", &ValueBag::from_sval2(&display), text, &[], Never);
        // Text in two fragments, cut everywhere
        #[cfg(feature = "alloc")]
        for cut in (0..=s.len()).filter(|i| s.is_char_boundary(*i)) {
            if cut > 4 && cut + 4 < s.len() && cut % 16 != 0 {
                continue;
            }
            mc.enter(cut);
            for (name, kinds) in [
                ("frags_bb", (true, true)),
                ("frags_bc", (true, false)),
                ("frags_cb", (false, true)),
                ("frags_cc", (false, false)),
            ] {
                let tree = Tree::Frags(vec![(kinds.0, s[..cut].to_owned()), (kinds.1, s[cut..].to_owned())]);
                let Tree::Frags(v) = &tree else { unreachable!() };
                let mem: Vec<&str> = v.iter().filter(|(b, _)| *b).map(|(_, s)| s.as_str()).collect();
                route(mc, name, &ValueBag::from_sval2(&tree), text, &mem, May);
            }
            mc.leave();
        }
    }
    #[cfg(feature = "serde1")]
    {
        route(mc, "capture_serde1_static", &ValueBag::capture_serde1(&leaked), text, &[leaked], Same);
        route(mc, "from_serde1", &ValueBag::from_serde1(&s), text, m, Never);
        let tree = Tree::Text(string.clone());
        route(mc, "capture_serde1_tree", &ValueBag::capture_serde1(&tree), text, &[], Never);
        let collect = Tree::Collect(string.clone());
        route(mc, "serde1_collect", &ValueBag::from_serde1(&collect), text, &[], Never);
        route(mc, "fill_serde1", &ValueBag::from_fill(&|s: Slot| s.fill_serde1(leaked)), text, &[leaked], Never);
    }
    #[cfg(feature = "owned")]
    {
        // Text kept by an owned value is borrowed from it
        for (name, owned) in [
            ("owned", ValueBag::from(s).to_owned()),
            ("owned_shared", ValueBag::from(s).to_shared()),
            ("owned_into_shared", ValueBag::from(s).to_owned().into_shared()),
        ] {
            mc.at(name, |mc| {
                check(mc, &owned.by_ref(), text, &[s], May, true);
                // An owned copy of an owned copy is separate memory, or shared memory that outlives both
                let again = owned.by_ref().to_owned();
                drop(owned);
                check(mc, &again.by_ref(), text, &[s], May, true);
                mc.trace();
            });
        }
    }
    let _ = (May, m, &some);
    #[cfg(not(any(feature = "sval2", feature = "serde1")))]
    let _ = Tree::Null;
}

fn texts(full: bool) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    // Every length, of characters of every width
    let max = if full { 1100 } else { 140 };
    for len in 0..=max {
        for unit in ["a", "\u{e9}", "\u{20ac}", "\u{1F600}"] {
            if len % unit.len() == 0 {
                out.push(unit.repeat(len / unit.len()));
            } else if unit.len() > 1 {
                // Characters straddling the boundary
                let fill = len % unit.len();
                out.push(format!("{}{}", "x".repeat(fill), unit.repeat(len / unit.len())));
                out.push(format!("{}{}", unit.repeat(len / unit.len()), "x".repeat(fill)));
            }
        }
    }
    // Everything short over a nasty alphabet
    let alphabet = ["a", "1", "\"", "\\", "\0", "\n", "\u{7f}", "\u{80}", "\u{1F600}", " "];
    let mut level = vec![String::new()];
    for _ in 0..(if full { 4 } else { 3 }) {
        let mut next = Vec::new();
        for p in &level {
            for a in alphabet {
                next.push(format!("{p}{a}"));
            }
        }
        out.extend(next.iter().cloned());
        level = next;
    }
    for s in ["None", "null", "true", "false", "1", "-1", "1.5", "NaN", "inf", "()", "Some(1)", "<poisoned>"] {
        out.push(s.to_owned());
    }
    if full {
        for n in [4096, 65535, 65536, 1 << 20] {
            out.push("long".repeat(n / 4));
        }
    }
    out.sort();
    out.dedup();
    out
}

fn main() {
    run("C03", |mc| {
        for t in texts(mc.thorough()) {
            if mc.expired() {
                break;
            }
            let name = if t.len() > 24 {
                format!("{:?}..{}..{:?}", t.chars().next(), t.len(), t.chars().last())
            } else {
                format!("{t:?}")
            };
            mc.guard_at(name, |mc| text(mc, &t));
        }
    });
}
