//! Errors of the crate's own type keep the message they were made with.

use mc::{
    engine::{run, Mc},
    flags::{Both, FLAGS},
    routes::{derived, nested},
    spec::{specs, Space},
};
use std::fmt;
use value_bag::{
    fill::{Fill, Slot},
    visit::Visit,
    Error, ValueBag,
};

/// A way of making an error.
#[derive(Clone, Copy, Debug)]
enum Make {
    Msg,
    Fmt,
    #[cfg(feature = "std")]
    Str,
    #[cfg(feature = "std")]
    String,
    #[cfg(feature = "std")]
    Own,
    #[cfg(feature = "std")]
    Boxed,
    #[cfg(feature = "std")]
    Io,
    #[cfg(feature = "std")]
    IoKind,
    #[cfg(feature = "std")]
    IoOs,
    /// An error around another one of the same type
    #[cfg(feature = "std")]
    Again,
}

const MAKES: &[Make] = &[
    Make::Msg,
    Make::Fmt,
    #[cfg(feature = "std")]
    Make::Str,
    #[cfg(feature = "std")]
    Make::String,
    #[cfg(feature = "std")]
    Make::Own,
    #[cfg(feature = "std")]
    Make::Boxed,
    #[cfg(feature = "std")]
    Make::Io,
    #[cfg(feature = "std")]
    Make::IoKind,
    #[cfg(feature = "std")]
    Make::IoOs,
    #[cfg(feature = "std")]
    Make::Again,
];

/// An error that shows the flags it's formatted with.
#[derive(Debug)]
struct Own(&'static str);

impl fmt::Display for Own {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}/{:?}/{:?}/{}{}", self.0, f.width(), f.precision(), f.alternate(), f.sign_plus())
    }
}

impl std::error::Error for Own {}

/// An I/O error around another, of a kind or of the system.
#[cfg(feature = "std")]
fn io(how: Make, msg: &'static str) -> std::io::Error {
    use std::io::{Error, ErrorKind::*};
    let kinds = [Other, NotFound, UnexpectedEof, InvalidData, WriteZero];
    match how {
        Make::Io => Error::new(kinds[msg.len() % kinds.len()], Own(msg)),
        Make::IoKind => Error::from(kinds[msg.len() % kinds.len()]),
        _ => Error::from_raw_os_error(msg.len() as i32),
    }
}

fn make(how: Make, msg: &'static str) -> Error {
    match how {
        Make::Msg => Error::msg(msg),
        Make::Fmt => Error::from(fmt::Error),
        #[cfg(feature = "std")]
        Make::Str => Error::boxed(msg),
        #[cfg(feature = "std")]
        Make::String => Error::boxed(msg.to_owned()),
        #[cfg(feature = "std")]
        Make::Own => Error::boxed(Own(msg)),
        #[cfg(feature = "std")]
        Make::Boxed => Error::boxed(Box::new(Own(msg)) as Box<dyn std::error::Error + Send + Sync>),
        #[cfg(feature = "std")]
        Make::Io | Make::IoKind | Make::IoOs => Error::from(io(how, msg)),
        #[cfg(feature = "std")]
        Make::Again => Error::boxed(Error::boxed(Own(msg))),
    }
}

/// What the error was made from, to format.
fn source(how: Make, msg: &'static str) -> Box<dyn Both> {
    match how {
        Make::Msg => Box::new(msg),
        Make::Fmt => Box::new(fmt::Error),
        #[cfg(feature = "std")]
        Make::Str => Box::new(Box::<dyn std::error::Error>::from(msg)),
        #[cfg(feature = "std")]
        Make::String => Box::new(Box::<dyn std::error::Error>::from(msg.to_owned())),
        #[cfg(feature = "std")]
        Make::Own | Make::Boxed | Make::Again => Box::new(Own(msg)),
        #[cfg(feature = "std")]
        Make::Io | Make::IoKind | Make::IoOs => Box::new(io(how, msg)),
    }
}

fn shown(v: &dyn Both) -> Vec<String> {
    let mut out = Vec::new();
    for f in FLAGS {
        // What an error looks like for debugging isn't specified
        if f.debug {
            continue;
        }
        for w in [0, 3, 40] {
            for p in [0, 2] {
                if (w == 0 || f.width) && (p == 0 || f.prec) {
                    let mut s = String::new();
                    let r = (f.f)(&mut s, v, w, p).is_ok();
                    out.push(format!("{}({w},{p}): {r} {s}", f.name));
                }
            }
        }
    }
    out
}

fn same(mc: &mut Mc, field: &'static str, e: &Error, expected: &[String]) {
    mc.state();
    let got = shown(e);
    mc.outcome(got[0].as_bytes());
    for (got, expected) in got.iter().zip(expected) {
        mc.step();
        mc.eq(field, got, expected);
    }
}

/// Fails with an error wherever it's called.
struct Refuse<'a>(&'a dyn Fn() -> Error);

impl<'v> Visit<'v> for Refuse<'_> {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        Err((self.0)())
    }
    fn visit_empty(&mut self) -> Result<(), Error> {
        Err((self.0)())
    }
    fn visit_u64(&mut self, _: u64) -> Result<(), Error> {
        Err((self.0)())
    }
    fn visit_i64(&mut self, _: i64) -> Result<(), Error> {
        Err((self.0)())
    }
    fn visit_u128(&mut self, _: u128) -> Result<(), Error> {
        Err((self.0)())
    }
    fn visit_i128(&mut self, _: i128) -> Result<(), Error> {
        Err((self.0)())
    }
    fn visit_f64(&mut self, _: f64) -> Result<(), Error> {
        Err((self.0)())
    }
    fn visit_bool(&mut self, _: bool) -> Result<(), Error> {
        Err((self.0)())
    }
    fn visit_str(&mut self, _: &str) -> Result<(), Error> {
        Err((self.0)())
    }
    fn visit_char(&mut self, _: char) -> Result<(), Error> {
        Err((self.0)())
    }
    #[cfg(feature = "error")]
    fn visit_error(&mut self, _: &(dyn std::error::Error + 'static)) -> Result<(), Error> {
        Err((self.0)())
    }
}

/// Leaves everything to the methods it doesn't have.
struct OnlyAny<'a>(&'a dyn Fn() -> Error);

impl<'v> Visit<'v> for OnlyAny<'_> {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        Err((self.0)())
    }
}

struct Nothing;

impl<'v> Visit<'v> for Nothing {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        Ok(())
    }
}

/// A deferred value that fails.
struct Never(Make, &'static str);

impl Fill for Never {
    fn fill(&self, _: Slot) -> Result<(), Error> {
        Err(make(self.0, self.1))
    }
}

fn relayed(mc: &mut Mc, step: &'static str, bag: &ValueBag, how: Make, msg: &'static str, expected: &String) {
    mc.enter(step);
    for (name, r) in [
        ("each", bag.visit(Refuse(&|| make(how, msg)))),
        ("any", bag.visit(OnlyAny(&|| make(how, msg)))),
        ("by_mut", bag.visit(&mut Refuse(&|| make(how, msg)))),
        ("boxed", bag.visit(&mut *Box::new(OnlyAny(&|| make(how, msg))))),
    ] {
        mc.enter(name);
        match r {
            Ok(()) => mc.violate("visit", "no error".into(), "the error of the visitor".into()),
            Err(e) => {
                mc.state();
                mc.step();
                mc.eq("visit", &e.to_string(), expected);
            }
        }
        mc.leave();
    }
    mc.trace();
    mc.leave();
}

fn fails(mc: &mut Mc, how: Make, msg: &'static str, expected: &[String]) {
    let never = Never(how, msg);
    let inner = ValueBag::from_fill(&never);
    let outer = |s: Slot| Never(how, msg).fill(s);
    for (name, bag) in [("fill", &inner), ("by_ref", &inner.by_ref()), ("clone", &inner.clone()), ("closure", &ValueBag::from_fill(&outer))] {
        mc.enter(name);
        match bag.visit(Nothing) {
            Ok(()) => mc.violate("visit", "no error".into(), "the error of the value".into()),
            Err(e) => same(mc, "visit", &e, expected),
        }
        #[cfg(feature = "serde1")]
        {
            mc.step();
            let got = mc::record::ser::tokens(bag, true).map_err(|e| e.0);
            mc.eq("serde", &got, &Err(source(how, msg).to_string()));
        }
        mc.trace();
        mc.leave();
    }
}

fn main() {
    run("C25", |mc| {
        let long: &'static str = "m".repeat(300).leak();
        let msgs = ["", "a", "a message", "quotes \" and \\ and \n and \u{e9}\u{1f600}", "{}", "exactly twenty-two byte", long];
        for how in MAKES {
            for msg in msgs {
                mc.guard_at(format!("{how:?}({:?})", msg.chars().take(9).collect::<String>()), |mc| {
                    let expected = shown(&*source(*how, msg));
                    let e = make(*how, msg);
                    same(mc, "made", &e, &expected);
                    mc.ensure("debug", !format!("{e:?}").is_empty(), String::new, "something");
                    #[cfg(feature = "std")]
                    {
                        let e: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
                        mc.step();
                        mc.eq("as_dyn", &e.to_string(), &source(*how, msg).to_string());
                        let e = std::thread::spawn(move || e).join().expect("nothing panics");
                        mc.eq("elsewhere", &e.to_string(), &source(*how, msg).to_string());
                        let io = std::io::Error::new(std::io::ErrorKind::Other, e);
                        mc.eq("as_io", &io.to_string(), &source(*how, msg).to_string());
                    }
                    #[cfg(all(feature = "std", feature = "error"))]
                    {
                        let e = make(*how, msg);
                        let bag = ValueBag::capture_error(&e);
                        derived(&bag, &mut |step, bag| {
                            mc.at(step, |mc| {
                                mc.state();
                                mc.step();
                                mc.eq("in_bag", &bag.to_string(), &source(*how, msg).to_string());
                            })
                        });
                    }
                    mc.at("fails", |mc| fails(mc, *how, msg, &expected));
                    mc.trace();
                });
            }
        }
        let tree_depth = if mc.thorough() { 3 } else { 2 };
        let all = specs(Space { tree_depth, ..Space::SMALL });
        for how in MAKES {
            let msg = "the visitor's own";
            let expected = &source(*how, msg).to_string();
            for s in all.iter().filter(|s| !s.fails()) {
                if mc.expired() {
                    return;
                }
                mc.guard_at(format!("{how:?}/{}", s.name()), |mc| {
                    let bag = s.bag();
                    derived(&bag, &mut |step, bag| relayed(mc, step, bag, *how, msg, expected));
                    nested(&bag, &mut |step, bag| relayed(mc, step, bag, *how, msg, expected));
                });
            }
        }
    });
}
