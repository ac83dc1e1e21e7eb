//! Buffered text is what was written, whatever its length and however it was written.

use mc::engine::{run, Mc};
use std::fmt;
use value_bag::{fill::Slot, ValueBag};

/// Writes `text` in pieces that end at `ends`.
struct Pieces<'a> {
    text: &'a str,
    ends: &'a [usize],
    /// Write single characters as characters
    chars: bool,
}

impl<'a> Pieces<'a> {
    fn write(&self, w: &mut dyn fmt::Write) -> fmt::Result {
        let mut at = 0;
        for end in self.ends {
            let piece = &self.text[at..*end];
            let mut it = piece.chars();
            match (self.chars, it.next(), it.next()) {
                (true, Some(c), None) => w.write_char(c)?,
                _ => w.write_str(piece)?,
            }
            at = *end;
        }
        assert_eq!(at, self.text.len());
        Ok(())
    }
}

impl<'a> fmt::Debug for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write(f)
    }
}

impl<'a> fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.write(f)
    }
}

/// The same, with nothing borrowed.
#[derive(Clone)]
struct Whole {
    text: String,
    ends: Vec<usize>,
    chars: bool,
}

impl Whole {
    fn pieces(&self) -> Pieces<'_> {
        Pieces {
            text: &self.text,
            ends: &self.ends,
            chars: self.chars,
        }
    }
}

impl fmt::Debug for Whole {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.pieces().write(f)
    }
}

impl fmt::Display for Whole {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.pieces().write(f)
    }
}

#[cfg(feature = "error")]
impl std::error::Error for Whole {}

#[cfg(feature = "error")]
#[derive(Debug)]
struct Outer(Whole);

#[cfg(feature = "error")]
impl fmt::Display for Outer {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("outer")
    }
}

#[cfg(feature = "error")]
impl std::error::Error for Outer {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.0)
    }
}

#[cfg(feature = "sval2")]
impl sval::Value for Whole {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.text_begin(None)?;
        let mut at = 0;
        for (i, end) in self.ends.iter().enumerate() {
            if i % 2 == 0 {
                s.text_fragment_computed(&self.text[at..*end])?;
            } else {
                s.text_fragment(&self.text[at..*end])?;
            }
            at = *end;
        }
        s.text_end()
    }
}

#[cfg(feature = "serde1")]
impl serde::Serialize for Whole {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&self.pieces())
    }
}

impl<'v> From<&'v Whole> for ValueBag<'v> {
    fn from(v: &'v Whole) -> Self {
        ValueBag::capture_display(v)
    }
}

fn shown(bag: &ValueBag) -> Result<String, fmt::Error> {
    let mut s = String::new();
    fmt::Write::write_fmt(&mut s, format_args!("{bag}"))?;
    Ok(s)
}

/// What kind of text a bag holds.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    /// Text that's known to be text
    Str,
    /// Something formatted
    Fmt,
    #[allow(dead_code)]
    Framework,
}

fn look(mc: &mut Mc, step: &'static str, kind: Kind, bag: &ValueBag, text: &str) {
    mc.enter(step);
    mc.state();
    mc.step();
    if kind != Kind::Framework {
        mc.eq("display", &shown(bag).as_deref(), &Ok(text));
    }
    if kind != Kind::Fmt {
        mc.eq("to_str", &bag.to_str().as_deref(), &Some(text));
        mc.eq("string", &String::try_from(bag.clone()).ok().as_deref(), &Some(text));
    }
    if kind == Kind::Str {
        mc.eq("to_borrowed_str", &bag.to_borrowed_str(), &Some(text));
    }
    #[cfg(feature = "sval2")]
    mc.eq("sval", &mc::record::sv::doc(bag), &Ok(mc::record::Doc::Text(text.into())));
    #[cfg(feature = "serde1")]
    mc.eq(
        "serde",
        &mc::record::ser::doc(bag).map_err(|e| e.0),
        &Ok(mc::record::Doc::Text(text.into())),
    );
    mc.leave();
}

/// Everything a buffered bag can become.
fn handles(mc: &mut Mc, kind: Kind, bag: &ValueBag, text: &str, deep: bool) {
    let o = bag.to_owned();
    look(mc, "own", kind, &o.by_ref(), text);
    let s = bag.to_shared();
    look(mc, "share", kind, &s.by_ref(), text);
    mc.trace();
    if deep {
        look(mc, "own+clone", kind, &o.clone().by_ref(), text);
        look(mc, "own+own", kind, &o.by_ref().to_owned().by_ref(), text);
        look(mc, "own+share", kind, &o.by_ref().to_shared().by_ref(), text);
        look(mc, "share+own", kind, &s.by_ref().to_owned().by_ref(), text);
        look(mc, "share+clone", kind, &s.clone().by_ref(), text);
        let i = o.into_shared();
        look(mc, "own+into_shared", kind, &i.by_ref(), text);
        look(mc, "own+into_shared+own", kind, &i.by_ref().to_owned().by_ref(), text);
        mc.transitions += 7;
    }
}

/// One text with one way of writing it.
fn one(mc: &mut Mc, w: &Whole, deep: bool) {
    let text: &str = &w.text;
    macro_rules! route {
        ($name:literal $kind:ident $bag:expr) => {
            mc.enter($name);
            handles(mc, Kind::$kind, &$bag, text, deep);
            mc.leave();
        };
    }
    route!("display" Fmt ValueBag::from_display(w));
    route!("debug" Fmt ValueBag::capture_debug(w));
    if deep {
        route!("capture_display" Fmt ValueBag::capture_display(w));
        route!("from_debug" Fmt ValueBag::from_debug(w));
        route!("from_dyn_debug" Fmt ValueBag::from_dyn_debug(w));
        route!("from_dyn_display" Fmt ValueBag::from_dyn_display(w));
        route!("fill_display" Fmt ValueBag::from_fill(&|s: Slot| s.fill_display(w)));
        route!("fill_debug" Fmt ValueBag::from_fill(&|s: Slot| s.fill_debug(w)));
        route!("shared_display" Fmt ValueBag::capture_shared_display(w.clone()));
        let o = ValueBag::from_display(w).to_owned();
        route!("bag_display" Fmt ValueBag::from_display(&o));
    }
    #[cfg(feature = "sval2")]
    {
        route!("sval" Framework ValueBag::capture_sval2(w));
    }
    #[cfg(feature = "serde1")]
    {
        route!("serde" Framework ValueBag::capture_serde1(w));
    }
    #[cfg(feature = "error")]
    {
        route!("error" Fmt ValueBag::capture_error(w));
        if deep {
            mc.enter("cause");
            let outer = Outer(w.clone());
            let check = |mc: &mut Mc, step: &'static str, o: value_bag::OwnedValueBag| {
                mc.enter(step);
                mc.state();
                mc.step();
                let mut v = mc::observe::VisitRec::default();
                let _ = o.by_ref().visit(&mut v);
                let chain = vec!["outer".to_owned(), text.to_owned()];
                let got = v.calls[0].replacen("borrowed_", "", 1);
                mc.eq("chain", &got, &format!("error({chain:?})"));
                mc.leave();
            };
            check(mc, "own", ValueBag::capture_error(&outer).to_owned());
            check(mc, "share", ValueBag::capture_error(&outer).to_shared());
            check(mc, "own+into_shared", ValueBag::from_dyn_error(&outer).to_owned().into_shared());
            mc.trace();
            mc.leave();
        }
    }
    #[cfg(feature = "seq")]
    if deep {
        mc.enter("seq");
        let items = [w.clone(), w.clone()];
        let bag = ValueBag::from_seq_slice(&items);
        for (step, o) in [("own", bag.to_owned()), ("share", bag.to_shared())] {
            mc.enter(step);
            mc.state();
            mc.step();
            let list = format!("[{text}, {text}]");
            mc.eq("display", &shown(&o.by_ref()), &Ok(list));
            mc.leave();
        }
        mc.trace();
        mc.leave();
    }
    mc.outcome(text.as_bytes());
}

/// Text that's in one piece.
fn plain(mc: &mut Mc, text: &str) {
    mc.enter("str");
    handles(mc, Kind::Str, &ValueBag::from_str(text), text, true);
    handles(mc, Kind::Str, &ValueBag::from(text), text, true);
    let lasting: &'static str = Box::leak(text.to_owned().into_boxed_str());
    handles(mc, Kind::Str, &ValueBag::from_fill(&|s: Slot| s.fill_any(lasting)), text, true);
    #[cfg(feature = "sval2")]
    handles(mc, Kind::Framework, &ValueBag::from_sval2(&text), text, true);
    #[cfg(feature = "serde1")]
    handles(mc, Kind::Framework, &ValueBag::from_serde1(&text), text, true);
    let string = text.to_owned();
    handles(mc, Kind::Str, &ValueBag::from(&string), text, true);
    handles(mc, Kind::Str, &ValueBag::capture_display(&string), text, true);
    handles(mc, Kind::Str, &ValueBag::try_capture(&string).expect("text"), text, true);
    mc.leave();
    mc.outcome(text.as_bytes());
}

/// Text of a length in bytes where every position differs from its neighbours.
fn ascii(len: usize) -> String {
    (0..len).map(|i| (b'!' + (i * 7 % 90) as u8) as char).collect()
}

fn whole(text: String, ends: Vec<usize>) -> Whole {
    Whole {
        text,
        ends,
        chars: false,
    }
}

fn main() {
    run("C12", |mc| {
        let thorough = mc.thorough();

        // Every length, in one piece, with and without longer characters at every position
        let longest = if thorough { 3000 } else { 700 };
        for len in 0..=longest {
            let text = ascii(len);
            mc.guard_at(format!("len{len}"), |mc| {
                plain(mc, &text);
                one(mc, &whole(text.clone(), vec![len]), true);
                one(mc, &whole(text.clone(), (1..=len).collect()), true);
                let mut w = whole(text.clone(), (1..=len).collect());
                w.chars = true;
                one(mc, &w, true);
            });
        }
        let at = if thorough { 300 } else { 140 };
        for c in ['\u{e9}', '\u{20ac}', '\u{1f600}', '\0', '"', '\n', '\u{10ffff}'] {
            for before in 0..=at {
                for after in [0, 1, 2, 30] {
                    if mc.expired() {
                        return;
                    }
                    let text = format!("{}{c}{}", ascii(before), ascii(after));
                    mc.guard_at(format!("char{:x}_{before}_{after}", c as u32), |mc| {
                        plain(mc, &text);
                        one(mc, &whole(text.clone(), vec![text.len()]), true);
                        let mut w = whole(text.clone(), vec![before, before + c.len_utf8(), text.len()]);
                        one(mc, &w, false);
                        w.chars = true;
                        one(mc, &w, false);
                    });
                }
            }
        }

        // Every way of writing it in two pieces
        let longest = if thorough { 300 } else { 140 };
        for len in 0..=longest {
            let text = ascii(len);
            for a in 0..=len {
                mc.guard_at(format!("split{a}+{}", len - a), |mc| one(mc, &whole(text.clone(), vec![a, len]), thorough));
            }
        }

        // Every way of writing it in three pieces, where it matters how much is inline
        let edges: &[std::ops::RangeInclusive<usize>] = if thorough {
            &[0..=140]
        } else {
            &[0..=72]
        };
        for len in edges.iter().cloned().flatten() {
            let text = ascii(len);
            for a in 0..=len {
                for b in a..=len {
                    if mc.expired() {
                        return;
                    }
                    mc.guard_at(format!("split{a}+{}+{}", b - a, len - b), |mc| {
                        one(mc, &whole(text.clone(), vec![a, b, len]), false)
                    });
                }
            }
        }

        // Every sequence of writes of interesting sizes
        let sizes: &[usize] = if thorough {
            &[0, 1, 2, 20, 21, 22, 23, 24, 45, 46, 47, 48, 62, 63, 64, 65, 66, 128]
        } else {
            &[0, 1, 2, 21, 22, 23, 24, 45, 46, 47, 48, 63, 64, 65]
        };
        let depth = if thorough { 5 } else { 4 };
        let mut ends = Vec::new();
        fn writes(mc: &mut Mc, sizes: &[usize], depth: usize, ends: &mut Vec<usize>) {
            if depth == 0 {
                let len = ends.last().copied().unwrap_or(0);
                mc.guard_at(format!("writes{ends:?}"), |mc| one(mc, &whole(ascii(len), ends.clone()), false));
                return;
            }
            for s in sizes {
                if mc.expired() {
                    return;
                }
                ends.push(ends.last().copied().unwrap_or(0) + s);
                writes(mc, sizes, depth - 1, ends);
                ends.pop();
            }
        }
        for d in 1..=depth {
            writes(mc, sizes, d, &mut ends);
        }
    });
}
