//! Formatting a bag is formatting the value, flags included.

use mc::{
    engine::{run, Mc},
    flags::{Both, Flags, FLAGS},
    routes::derived,
    spec::{large, specs, ways, How, Model, Space, Spec},
    tree::{Cast, Tree},
};
use value_bag::ValueBag;

fn shown(f: &Flags, v: &dyn Both, w: usize, p: usize) -> Result<String, String> {
    let mut s = String::new();
    match (f.f)(&mut s, v, w, p) {
        Ok(()) => Ok(s),
        Err(_) => Err(s),
    }
}

/// Numbers to use for a width or precision; one that's ignored if there isn't any.
fn sizes(used: bool, all: &'static [usize]) -> &'static [usize] {
    if used {
        all
    } else {
        &[0]
    }
}

fn flagged(mc: &mut Mc, bag: &dyn Both, model: &dyn Both, widths: &'static [usize], precs: &'static [usize], keep: impl Fn(&Flags) -> bool) {
    for f in FLAGS {
        if !keep(f) {
            continue;
        }
        mc.enter(f.name);
        for w in sizes(f.width, widths) {
            for p in sizes(f.prec, precs) {
                mc.step();
                let got = shown(f, bag, *w, *p);
                mc.outcome(format!("{got:?}").as_bytes());
                let expected = shown(f, model, *w, *p);
                if got != expected {
                    mc.at(format!("w{w}p{p}"), |mc| mc.eq("shown", &got, &expected));
                } else {
                    mc.checks += 1;
                }
            }
        }
        mc.leave();
    }
    mc.trace();
}

/// What a buffered primitive formats as; integers may have become wider.
fn primitive(s: &Spec) -> Option<Spec> {
    #[cfg(feature = "error")]
    if matches!(s, Spec::CapError(_) | Spec::DynError(_)) {
        return None;
    }
    match s {
        Spec::Null => Some(Spec::Null),
        Spec::U64(_) | Spec::I64(_) | Spec::U128(_) | Spec::I128(_) | Spec::F64(_) | Spec::Bool(_) | Spec::Char(_) | Spec::Str(_) => {
            Some(match s.cast() {
                Cast::Unsigned(v) => Spec::U128(v),
                Cast::Signed(v) => Spec::I128(v),
                _ => mc::spec::again(s),
            })
        }
        Spec::Fill(d) => primitive(d.inner),
        #[cfg(feature = "owned")]
        Spec::Static(_, _, v) | Spec::Owned(_, _, v) => primitive(v),
        _ => None,
    }
}

fn is_error(s: &Spec) -> bool {
    match s {
        #[cfg(feature = "error")]
        Spec::CapError(_) | Spec::DynError(_) => true,
        Spec::Fill(d) => is_error(d.inner),
        #[cfg(feature = "owned")]
        Spec::Static(_, _, v) | Spec::Owned(_, _, v) => is_error(v),
        _ => false,
    }
}

fn has_error(s: &Spec) -> bool {
    match s {
        #[cfg(feature = "seq")]
        Spec::Seq(v) => v.iter().any(has_error),
        Spec::Fill(d) => has_error(d.inner),
        Spec::Via(_, v) => has_error(v),
        #[cfg(feature = "owned")]
        Spec::Static(_, _, v) | Spec::Owned(_, _, v) => has_error(v),
        _ => is_error(s),
    }
}

const EVERY: fn(&Flags) -> bool = |_| true;

fn one(mc: &mut Mc, s: &Spec, widths: &'static [usize], precs: &'static [usize]) {
    mc.guard_at(s.name(), |mc| {
        if crosses(s) {
            return;
        }
        derived(&s.bag(), &mut |step, bag| {
            mc.enter(step);
            mc.state();
            let buffered = s.buffered() || step.starts_with("own") || step.starts_with("share");
            if !buffered {
                flagged(mc, bag, &Model(s), widths, precs, EVERY);
            } else if let Some(p) = primitive(s) {
                // A negative number in hexadecimal shows how wide it is
                let wide = matches!(p.cast(), Cast::Signed(v) if v < 0);
                flagged(mc, bag, &Model(&p), widths, precs, |f| !(wide && f.hex));
            } else {
                plain(mc, s, bag, true);
            }
            mc.leave();
        });
        if !s.buffered() {
            ways(s, &mut |name, bag| {
                mc.enter(name);
                mc.state();
                flagged(mc, bag, &Model(s), widths, precs, EVERY);
                mc.leave();
            });
        }
        // Owned bags are formatted as they are, too
        #[cfg(feature = "owned")]
        for (name, h) in [("handle_owned", s.bag().to_owned()), ("handle_shared", s.bag().to_shared())] {
            mc.enter(name);
            mc.state();
            flagged(mc, &h, &h.by_ref(), widths, precs, EVERY);
            mc.leave();
        }
    });
}

/// Whether a value of one framework is shown through the other, which has its own notation.
fn crosses(s: &Spec) -> bool {
    fn holds(s: &Spec, serde: bool) -> bool {
        match s {
            #[cfg(feature = "serde1")]
            Spec::Serde(_) | Spec::CapSerde(_) => serde,
            #[cfg(feature = "sval2")]
            Spec::Sval(_) | Spec::CapSval(_) | Spec::DynSval(_) => !serde,
            #[cfg(feature = "seq")]
            Spec::Seq(v) => v.iter().any(|s| holds(s, serde)),
            Spec::Fill(d) => holds(d.inner, serde),
            Spec::Via(_, v) => holds(v, serde),
            #[cfg(feature = "owned")]
            Spec::Static(_, _, v) | Spec::Owned(_, _, v) => holds(v, serde),
            _ => false,
        }
    }
    match s {
        #[cfg(feature = "sval2")]
        Spec::Via(How::Sval | How::CapSval | How::DynSval, v) => holds(v, true),
        #[cfg(feature = "serde1")]
        Spec::Via(How::Serde | How::CapSerde, v) => holds(v, false),
        Spec::Via(_, v) => crosses(v),
        _ => false,
    }
}

/// Whether `serde` collects some text by formatting, which it only tells apart until it's buffered.
fn collects(s: &Spec) -> bool {
    let c = |t: &Tree| t.has(&|t| matches!(t, Tree::Collect(_)));
    match s {
        #[cfg(feature = "serde1")]
        Spec::Serde(t) | Spec::CapSerde(t) => c(t),
        #[cfg(feature = "serde1")]
        Spec::Via(How::Serde | How::CapSerde, v) => v.as_tree().map_or(true, |t| c(&t)),
        Spec::Via(_, v) => collects(v),
        #[cfg(feature = "seq")]
        Spec::Seq(v) => v.iter().any(collects),
        Spec::Fill(d) => collects(d.inner),
        #[cfg(feature = "owned")]
        Spec::Static(_, _, v) | Spec::Owned(_, _, v) => collects(v),
        _ => false,
    }
}

/// What was buffered shows as the value did without flags.
fn plain(mc: &mut Mc, s: &Spec, bag: &ValueBag, buffered: bool) {
    mc.transitions += 2;
    let (display, debug) = (bag.to_string(), format!("{bag:?}"));
    mc.outcome(display.as_bytes());
    if buffered && collects(s) {
        return;
    }
    // Buffered errors are only their messages
    if !buffered || !has_error(s) || is_error(s) {
        mc.eq("display", &display, &Model(s).to_string());
    }
    if !buffered || !has_error(s) {
        mc.eq("debug", &debug, &format!("{:?}", Model(s)));
    }
    mc.trace();
}

fn main() {
    run("C08", |mc| {
        let thorough = mc.thorough();
        let space = Space {
            tree_depth: if thorough { 2 } else { 1 },
            ..Space::SMALL
        };
        let mut all = specs(space);
        for v in [f64::NAN, -f64::NAN, f64::NEG_INFINITY, 0.1, 1e-7, 123456789.0, 1e16, 1e21, f64::MIN_POSITIVE, 5e-324, f64::MAX] {
            all.push(Spec::F64(v));
            all.push(Spec::fill(Spec::F64(v)));
        }
        for c in ['\'', '\\', '\n', '\0', '\u{301}', '\u{7f}', '\u{200b}', '\u{1f600}'] {
            all.push(Spec::Char(c));
            all.push(Spec::Str(format!("{c}a{c}")));
            all.push(Spec::fill(Spec::Str(format!("{c}a{c}"))));
        }
        for s in all {
            if mc.expired() {
                return;
            }
            if thorough {
                one(mc, &s, &[0, 1, 2, 5, 8, 30, 70], &[0, 1, 2, 3, 10, 40]);
            } else {
                one(mc, &s, &[0, 3, 30], &[0, 2]);
            }
        }
        // Without flags, on a larger space
        mc.at("plain", |mc| {
            let (wide, deep) = if thorough { (1000, 150) } else { (300, 70) };
            let mut all = specs(Space { tree_depth: if thorough { 4 } else { 2 }, ..space });
            all.extend(large(wide, deep));
            for s in all {
                if mc.expired() {
                    return;
                }
                mc.guard_at(s.name(), |mc| {
                    if crosses(&s) {
                        return;
                    }
                    derived(&s.bag(), &mut |step, bag| {
                        mc.enter(step);
                        mc.state();
                        let buffered = s.buffered() || step.starts_with("own") || step.starts_with("share");
                        plain(mc, &s, bag, buffered);
                        mc.leave();
                    })
                });
            }
        });
    });
}
