//! Visiting makes exactly one call, to the right method, and relays its result.

use mc::{
    engine::{run, Mc},
    observe::{chain, Class, OBSERVERS},
    routes::derived,
    spec::{large, specs, ways, Er, Space, Spec, Txt},
    tree::{Cast, Tree},
};
use value_bag::{visit::Visit, Error, ValueBag};

type Res = Result<(), Error>;
#[cfg(feature = "error")]
type Err<'a> = &'a (dyn std::error::Error + 'static);

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
enum M {
    Empty,
    U64,
    I64,
    U128,
    I128,
    F64,
    Bool,
    Str,
    BorrowedStr,
    Char,
    Error,
    BorrowedError,
    Any,
}

const ALL: u32 = 0xfff;

/// A visitor overriding the methods in its mask.
///
/// The other methods are the defaults of the trait, through an adapter that overrides all others.
#[derive(Default)]
struct V {
    mask: u32,
    fail: Option<&'static str>,
    boxed: bool,
    /// Look at everything the catch-all is given, or just at how it displays
    deep: bool,
    calls: Vec<(M, String)>,
    /// What the catch-all was given, as every observer sees it
    any: Vec<String>,
}

impl Default for M {
    fn default() -> Self {
        M::Any
    }
}

impl V {
    fn has(&self, m: M) -> bool {
        self.mask & (1 << m as u32) != 0
    }

    fn call(&mut self, m: M, s: String) -> Res {
        self.calls.push((m, s));
        match self.fail {
            None => Ok(()),
            #[cfg(feature = "std")]
            Some(msg) if self.boxed => Err(Error::boxed(Er::chain(&[msg, "cause"]))),
            Some(msg) => Err(Error::msg(msg)),
        }
    }
}

macro_rules! fwd {
    (empty) => { fn visit_empty(&mut self) -> Res { self.0.visit_empty() } };
    (u64) => { fn visit_u64(&mut self, v: u64) -> Res { self.0.visit_u64(v) } };
    (i64) => { fn visit_i64(&mut self, v: i64) -> Res { self.0.visit_i64(v) } };
    (u128) => { fn visit_u128(&mut self, v: u128) -> Res { self.0.visit_u128(v) } };
    (i128) => { fn visit_i128(&mut self, v: i128) -> Res { self.0.visit_i128(v) } };
    (f64) => { fn visit_f64(&mut self, v: f64) -> Res { self.0.visit_f64(v) } };
    (bool) => { fn visit_bool(&mut self, v: bool) -> Res { self.0.visit_bool(v) } };
    (str) => { fn visit_str(&mut self, v: &str) -> Res { self.0.visit_str(v) } };
    (char) => { fn visit_char(&mut self, v: char) -> Res { self.0.visit_char(v) } };
    (borrowed_str) => { fn visit_borrowed_str(&mut self, v: &'v str) -> Res { self.0.visit_borrowed_str(v) } };
    (error) => {
        #[cfg(feature = "error")]
        fn visit_error(&mut self, v: Err) -> Res { self.0.visit_error(v) }
    };
    (borrowed_error) => {
        #[cfg(feature = "error")]
        fn visit_borrowed_error(&mut self, v: Err<'v>) -> Res { self.0.visit_borrowed_error(v) }
    };
}

macro_rules! adapters {
    ($($name:ident: $($m:ident)*;)*) => { $(
        struct $name<'a>(&'a mut V);

        impl<'a, 'v> Visit<'v> for $name<'a> {
            fn visit_any(&mut self, v: ValueBag) -> Res { Visit::visit_any(self.0, v) }
            $(fwd!($m);)*
        }
    )* };
}

adapters!(
    NoEmpty: u64 i64 u128 i128 f64 bool str borrowed_str char error borrowed_error;
    NoU64: empty i64 u128 i128 f64 bool str borrowed_str char error borrowed_error;
    NoI64: empty u64 u128 i128 f64 bool str borrowed_str char error borrowed_error;
    NoU128: empty u64 i64 i128 f64 bool str borrowed_str char error borrowed_error;
    NoI128: empty u64 i64 u128 f64 bool str borrowed_str char error borrowed_error;
    NoF64: empty u64 i64 u128 i128 bool str borrowed_str char error borrowed_error;
    NoBool: empty u64 i64 u128 i128 f64 str borrowed_str char error borrowed_error;
    NoStr: empty u64 i64 u128 i128 f64 bool borrowed_str char error borrowed_error;
    NoBorrowedStr: empty u64 i64 u128 i128 f64 bool str char error borrowed_error;
    NoChar: empty u64 i64 u128 i128 f64 bool str borrowed_str error borrowed_error;
    NoError: empty u64 i64 u128 i128 f64 bool str borrowed_str char borrowed_error;
    NoBorrowedError: empty u64 i64 u128 i128 f64 bool str borrowed_str char error;
);

macro_rules! method {
    ($self:ident, $m:ident, $adapter:ident . $f:ident($($v:ident)?), $shown:expr) => {
        if $self.has(M::$m) {
            let shown = $shown;
            $self.call(M::$m, shown)
        } else {
            $adapter($self).$f($($v)?)
        }
    };
}

impl<'v> Visit<'v> for V {
    fn visit_any(&mut self, v: ValueBag) -> Res {
        self.any = if self.deep { mc::observe::all(&v) } else { vec![v.to_string()] };
        self.call(M::Any, String::new())
    }
    fn visit_empty(&mut self) -> Res {
        method!(self, Empty, NoEmpty.visit_empty(), String::new())
    }
    fn visit_u64(&mut self, v: u64) -> Res {
        method!(self, U64, NoU64.visit_u64(v), v.to_string())
    }
    fn visit_i64(&mut self, v: i64) -> Res {
        method!(self, I64, NoI64.visit_i64(v), v.to_string())
    }
    fn visit_u128(&mut self, v: u128) -> Res {
        method!(self, U128, NoU128.visit_u128(v), v.to_string())
    }
    fn visit_i128(&mut self, v: i128) -> Res {
        method!(self, I128, NoI128.visit_i128(v), v.to_string())
    }
    fn visit_f64(&mut self, v: f64) -> Res {
        method!(self, F64, NoF64.visit_f64(v), v.to_bits().to_string())
    }
    fn visit_bool(&mut self, v: bool) -> Res {
        method!(self, Bool, NoBool.visit_bool(v), v.to_string())
    }
    fn visit_str(&mut self, v: &str) -> Res {
        method!(self, Str, NoStr.visit_str(v), v.to_owned())
    }
    fn visit_borrowed_str(&mut self, v: &'v str) -> Res {
        method!(self, BorrowedStr, NoBorrowedStr.visit_borrowed_str(v), v.to_owned())
    }
    fn visit_char(&mut self, v: char) -> Res {
        method!(self, Char, NoChar.visit_char(v), v.to_string())
    }
    #[cfg(feature = "error")]
    fn visit_error(&mut self, v: Err) -> Res {
        method!(self, Error, NoError.visit_error(v), format!("{:?}", chain(v)))
    }
    #[cfg(feature = "error")]
    fn visit_borrowed_error(&mut self, v: Err<'v>) -> Res {
        method!(self, BorrowedError, NoBorrowedError.visit_borrowed_error(v), format!("{:?}", chain(v)))
    }
}

/// A visitor with nothing but the required method.
#[derive(Default)]
struct OnlyAny(V);

impl<'v> Visit<'v> for OnlyAny {
    fn visit_any(&mut self, v: ValueBag) -> Res {
        self.0.visit_any(v)
    }
}

/// What the visitor has to be called with: a method, its argument, and what the catch-all gets instead.
struct Want {
    methods: Vec<M>,
    arg: String,
    /// The bag of the primitive; nothing for values that aren't primitives
    prim: Option<Spec>,
}

/// Whether the text is the caller's own, and it's known to live as long as the bag.
fn lent(s: &Spec) -> bool {
    match s {
        Spec::Str(_) => true,
        #[cfg(feature = "sval2")]
        Spec::Sval(t) | Spec::CapSval(t) | Spec::DynSval(t) => matches!(t, Tree::Text(_)),
        _ => false,
    }
}

fn want(s: &Spec, buffered: bool) -> Option<Want> {
    let w = |methods: Vec<M>, arg: String, prim: Spec| {
        Some(Want {
            methods,
            arg,
            prim: Some(prim),
        })
    };
    // The exact width of an integer is the constructor's, unless it came from somewhere else
    let exact = !buffered && matches!(s, Spec::U64(_) | Spec::I64(_) | Spec::U128(_) | Spec::I128(_));
    #[cfg(feature = "error")]
    if let Some(e) = error_of(s) {
        return Some(Want {
            methods: if buffered || !matches!(s, Spec::CapError(_) | Spec::DynError(_)) {
                vec![M::Error, M::BorrowedError]
            } else {
                vec![M::BorrowedError]
            },
            arg: format!("{:?}", chain(e)),
            prim: None,
        });
    }
    match s.cast() {
        Cast::Null => w(vec![M::Empty], String::new(), Spec::Null),
        Cast::Unsigned(v) if exact => match s {
            Spec::U64(_) => w(vec![M::U64], v.to_string(), Spec::U64(v as u64)),
            _ => w(vec![M::U128], v.to_string(), Spec::U128(v)),
        },
        Cast::Signed(v) if exact => match s {
            Spec::I64(_) => w(vec![M::I64], v.to_string(), Spec::I64(v as i64)),
            _ => w(vec![M::I128], v.to_string(), Spec::I128(v)),
        },
        Cast::Unsigned(v) if u64::try_from(v).is_ok() => w(vec![M::U64, M::U128], v.to_string(), Spec::U128(v)),
        Cast::Unsigned(v) => w(vec![M::U128], v.to_string(), Spec::U128(v)),
        Cast::Signed(v) if i64::try_from(v).is_ok() => w(vec![M::I64, M::I128], v.to_string(), Spec::I128(v)),
        Cast::Signed(v) => w(vec![M::I128], v.to_string(), Spec::I128(v)),
        Cast::Float(b) => w(vec![M::F64], b.to_string(), Spec::F64(f64::from_bits(b))),
        Cast::Bool(v) => w(vec![M::Bool], v.to_string(), Spec::Bool(v)),
        Cast::Char(v) => w(vec![M::Char], v.to_string(), Spec::Char(v)),
        // There may be nowhere to put text that's computed
        Cast::Text(_) if cfg!(not(feature = "alloc")) && !lent(s) => None,
        Cast::Text(v) => w(
            if !buffered && lent(s) {
                vec![M::BorrowedStr]
            } else {
                vec![M::Str, M::BorrowedStr]
            },
            v.clone(),
            Spec::Str(v),
        ),
        Cast::Nothing => Some(Want {
            methods: vec![M::Any],
            arg: String::new(),
            prim: None,
        }),
        Cast::Unknown => None,
    }
}

#[cfg(feature = "error")]
fn error_of(s: &Spec) -> Option<&Er> {
    match s {
        Spec::CapError(e) | Spec::DynError(e) => Some(e),
        Spec::Fill(d) => error_of(d.inner),
        #[cfg(feature = "owned")]
        Spec::Static(_, _, s) | Spec::Owned(_, _, s) => error_of(s),
        _ => None,
    }
}

/// The method a call ends up in.
fn resolve(mask: u32, m: M) -> M {
    if m == M::Any || mask & (1 << m as u32) != 0 {
        return m;
    }
    match m {
        M::Char | M::BorrowedStr => resolve(mask, M::Str),
        M::BorrowedError => resolve(mask, M::Error),
        _ => M::Any,
    }
}

/// Whether the catch-all saw the same as the one looking at the original.
fn same(mc: &mut Mc, got: &[String], expected: &[String], prim: bool, text: bool) {
    for ((o, got), e) in OBSERVERS.iter().zip(got).zip(expected) {
        let ok = match o.class {
            Class::Value | Class::Debug | Class::Flags => true,
            // Wide integers only keep their width
            Class::Compact => !prim,
            _ => false,
        };
        if ok && !(o.name == "to_char" && text) {
            mc.eq(o.name, got, e);
        }
    }
}

/// Where to find how a bag displays among all observations.
fn display() -> usize {
    use std::sync::OnceLock;
    static AT: OnceLock<usize> = OnceLock::new();
    *AT.get_or_init(|| OBSERVERS.iter().position(|o| o.name == "display").expect("display"))
}

struct Expect<'a> {
    want: &'a Option<Want>,
    /// All there is to see of the original
    original: &'a [String],
    /// All there is to see of the primitive
    prim: Option<Vec<String>>,
    /// The same for a char given as text
    text: Option<Vec<String>>,
}

fn visit(mc: &mut Mc, bag: &ValueBag, x: &Expect, mask: u32, fail: Option<&'static str>, how: usize) {
    let mut v = V {
        mask,
        fail,
        boxed: how == 2,
        deep: fail.is_none() && (mask == 0 || mask == ALL || how == 3),
        ..V::default()
    };
    mc.step();
    let r = match how {
        0 => bag.visit(&mut v),
        1 => {
            let d: &mut dyn Visit = &mut v;
            bag.visit(d)
        }
        2 => bag.visit(&mut &mut &mut v),
        _ => {
            let mut only = OnlyAny(v);
            let r = bag.visit(&mut only);
            v = only.0;
            r
        }
    };
    mc.eq("calls", &v.calls.len(), &1);
    let Some((m, arg)) = v.calls.first().cloned() else { return };
    mc.outcome(format!("{m:?}{arg}{}", fail.is_some()).as_bytes());
    match (&r, fail) {
        (Ok(()), None) => mc.checks += 1,
        (Err(e), Some(msg)) => {
            let shown = e.to_string();
            mc.eq("error", &shown.as_str(), &msg);
        }
        _ => mc.violate("result", format!("{r:?}"), format!("{fail:?}")),
    }
    let Some(w) = x.want else { return };
    let allowed: Vec<M> = w.methods.iter().map(|m| resolve(mask, *m)).collect();
    mc.ensure("method", allowed.contains(&m), || format!("{m:?}({arg:?})"), &format!("{allowed:?}"));
    if !allowed.contains(&m) {
        return;
    }
    if m == M::Any {
        let is_char = w.methods == [M::Char];
        let expected = match (&x.text, &x.prim) {
            (Some(t), _) => t,
            (None, Some(p)) => p,
            (None, None) => x.original,
        };
        if v.deep {
            mc.at("any", |mc| same(mc, &v.any, expected, w.prim.is_some(), is_char));
        } else {
            mc.at("any", |mc| mc.eq("display", &v.any[0], &expected[display()]));
        }
    } else {
        mc.eq("arg", &arg, &w.arg);
    }
}

fn one(mc: &mut Mc, s: &Spec, masks: &[u32]) {
    mc.guard_at(s.name(), |mc| {
        if s.fails() {
            return;
        }
        let buffered_already = !matches!(
            s,
            Spec::Null | Spec::U64(_) | Spec::I64(_) | Spec::U128(_) | Spec::I128(_) | Spec::Str(_)
        ) && s.buffered();
        let mut look = |step: &'static str, bag: &ValueBag| {
            mc.enter(step);
            mc.state();
            let buffered = buffered_already || step.starts_with("own") || step.starts_with("share");
            let want = want(s, buffered);
            let original = mc::observe::all(bag);
            let prim = want.as_ref().and_then(|w| w.prim.as_ref());
            let x = Expect {
                want: &want,
                original: &original,
                prim: prim.map(|p| mc::observe::all(&p.bag())),
                text: match prim {
                    Some(Spec::Char(c)) => Some(mc::observe::all(&Spec::Str(c.to_string()).bag())),
                    _ => None,
                },
            };
            for (i, mask) in masks.iter().enumerate() {
                mc.enter(*mask as usize);
                visit(mc, bag, &x, *mask, None, i % 3);
                visit(mc, bag, &x, *mask, Some("the visitor's own"), (i + 1) % 3);
                mc.trace();
                mc.leave();
            }
            mc.at("only_any", |mc| {
                visit(mc, bag, &x, 0, None, 3);
                visit(mc, bag, &x, 0, Some("the visitor's own"), 3);
            });
            mc.leave();
        };
        derived(&s.bag(), &mut look);
        ways(s, &mut |step, bag| {
            // There's no telling how wide a number is that's filled
            if step != "filled" {
                look(step, bag)
            }
        });
    });
}

fn main() {
    run("C07", |mc| {
        let every: Vec<u32> = (0..=ALL).collect();
        let mut few = vec![0, ALL];
        for b in 0..12 {
            few.push(1 << b);
            few.push(ALL & !(1 << b));
        }
        let thorough = mc.thorough();
        let space = Space {
            tree_depth: if thorough { 3 } else { 2 },
            ..Space::SMALL
        };
        for s in specs(space) {
            if mc.expired() {
                return;
            }
            one(mc, &s, &few);
        }
        let (wide, deep) = if thorough { (1000, 150) } else { (70, 70) };
        for s in large(wide, deep) {
            if mc.expired() {
                return;
            }
            one(mc, &s, &few);
        }
        // All sets of overridden methods, for one value of each kind through each way in
        let mut all = vec![
            Spec::Null,
            Spec::U64(1),
            Spec::I64(-1),
            Spec::U128(u128::MAX),
            Spec::I128(i128::MIN),
            Spec::F64(-0.0),
            Spec::Bool(true),
            Spec::Char('\u{e9}'),
            Spec::Str("text".into()),
            Spec::Debug(Txt::new("d")),
            Spec::CapDisplay(Txt::new("p")),
        ];
        #[cfg(feature = "error")]
        {
            all.push(Spec::CapError(Er::chain(&["a", "b"])));
            all.push(Spec::DynError(Er::chain(&["a", "b"])));
            all.push(Spec::fill_native(Spec::CapError(Er::chain(&["a", "b"]))));
        }
        let trees = [
            Tree::Null,
            Tree::U8(1),
            Tree::I128(-1),
            Tree::F32(0.5),
            Tree::Bool(false),
            Tree::Char('c'),
            Tree::Text("t".into()),
            Tree::Seq(true, vec![]),
            Tree::Some(Box::new(Tree::U128(u128::MAX))),
        ];
        all.extend(mc::spec::tree_specs(&trees));
        all.extend(mc::spec::tree_specs(&trees).into_iter().map(Spec::fill));
        mc.at("every_set", |mc| {
            for s in &all {
                if mc.expired() {
                    return;
                }
                one(mc, s, &every);
            }
        });
    });
}
