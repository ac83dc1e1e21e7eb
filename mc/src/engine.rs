//! The exploration engine shared by all explorers.
//!
//! An explorer is a deterministic depth-first walk over a finite space. The walk
//! keeps a path of segments naming where it is, counts what it does, and compares
//! every step of the real code with a reference model. A violation is identified
//! by the path, so replaying it is walking to the same path again.

use std::{
    collections::HashSet,
    fmt,
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub enum Seg {
    S(&'static str),
    T(String),
    U(u128),
    I(i128),
}

impl fmt::Display for Seg {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Seg::S(s) => f.write_str(s),
            Seg::T(s) => f.write_str(s),
            Seg::U(v) => write!(f, "{v}"),
            Seg::I(v) => write!(f, "{v}"),
        }
    }
}

impl From<&'static str> for Seg {
    fn from(s: &'static str) -> Self {
        Seg::S(s)
    }
}

impl From<String> for Seg {
    fn from(s: String) -> Self {
        Seg::T(s)
    }
}

impl From<usize> for Seg {
    fn from(s: usize) -> Self {
        Seg::U(s as u128)
    }
}

pub struct Violation {
    pub case: String,
    pub field: String,
    pub observed: String,
    pub expected: String,
}

pub struct Mc {
    pub property: &'static str,
    pub tier: Tier,
    path: Vec<Seg>,
    /// Distinct configurations of (value, representation) reached
    pub states: u64,
    /// Operations of the real code applied between them
    pub transitions: u64,
    /// Comparisons of the real code with the reference model
    pub checks: u64,
    /// Complete operation histories run on the real code and compared with the model
    pub traces: u64,
    outcomes: HashSet<u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    violation_count: u64,
    only: Option<String>,
    trace_file: Option<std::fs::File>,
    dump_file: Option<std::io::BufWriter<std::fs::File>>,
    start: Instant,
    wall: Duration,
    pub capped: bool,
    notes: Vec<(String, String)>,
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);
static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

const MAX_RECORDED: usize = 400;
/// There's nothing to learn from more of them
const MAX_VIOLATIONS: u64 = 20_000;
const MAX_OUTCOMES: usize = 2_000_000;

pub fn hash(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Mc {
    pub fn enter(&mut self, seg: impl Into<Seg>) {
        self.path.push(seg.into());
    }

    pub fn leave(&mut self) {
        self.path.pop();
    }

    /// Walk one level down the path.
    pub fn at<R>(&mut self, seg: impl Into<Seg>, f: impl FnOnce(&mut Mc) -> R) -> R {
        self.enter(seg);
        let r = f(self);
        self.leave();
        r
    }

    pub fn case(&self) -> String {
        let mut s = String::new();
        for (i, p) in self.path.iter().enumerate() {
            if i > 0 {
                s.push('/');
            }
            s.push_str(&p.to_string());
        }
        s
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Whether the wall clock budget is used up; exploration then stops and says so.
    pub fn expired(&mut self) -> bool {
        if self.start.elapsed() > self.wall || self.violation_count > MAX_VIOLATIONS {
            self.capped = true;
        }
        self.capped
    }

    #[inline]
    pub fn state(&mut self) {
        self.states += 1;
        if self.samples.len() < 4 || (self.states.is_power_of_two() && self.samples.len() < 12) {
            let case = self.case();
            self.samples.push(case);
        }
    }

    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1;
    }

    #[inline]
    pub fn trace(&mut self) {
        self.traces += 1;
    }

    /// Record what was observed, for counting distinct outcomes.
    #[inline]
    pub fn outcome(&mut self, v: &[u8]) {
        if self.outcomes.len() < MAX_OUTCOMES {
            self.outcomes.insert(hash(v));
        }
    }

    pub fn note(&mut self, k: &str, v: impl fmt::Display) {
        self.notes.push((k.to_owned(), v.to_string()));
    }

    #[cold]
    pub fn violate(&mut self, field: &str, observed: String, expected: String) {
        if self.full() {
            self.violation_count += 1;
            return;
        }
        let case = self.case();
        if let Some(only) = &self.only {
            if *only != format!("{case}#{field}") {
                return;
            }
        }
        self.violation_count += 1;
        if self.violations.len() < MAX_RECORDED {
            self.violations.push(Violation {
                case,
                field: field.to_owned(),
                observed,
                expected,
            });
        }
    }

    /// Whether more violations are only counted.
    fn full(&self) -> bool {
        self.only.is_none() && self.violations.len() >= MAX_RECORDED
    }

    #[inline]
    pub fn eq<T: PartialEq + fmt::Debug>(&mut self, field: &str, observed: &T, expected: &T) {
        self.checks += 1;
        if observed != expected {
            if self.full() {
                self.violation_count += 1;
                return;
            }
            self.violate(field, format!("{observed:?}"), format!("{expected:?}"));
        }
    }

    #[inline]
    pub fn ensure(&mut self, field: &str, ok: bool, observed: impl FnOnce() -> String, expected: &str) {
        self.checks += 1;
        if !ok {
            if self.full() {
                self.violation_count += 1;
                return;
            }
            let observed = observed();
            self.violate(field, observed, expected.to_owned());
        }
    }

    /// Run one piece of exploration; a panic of the real code is a violation.
    pub fn guard(&mut self, f: impl FnOnce(&mut Mc)) {
        PROGRESS.fetch_add(1, Ordering::Relaxed);
        if self.trace_file.is_some() {
            use std::io::{Seek, SeekFrom, Write};
            let case = self.case();
            let file = self.trace_file.as_mut().unwrap();
            let _ = file.seek(SeekFrom::Start(0));
            let _ = file.write_all(format!("{case}\n").as_bytes());
        }
        let depth = self.path.len();
        let r = panic::catch_unwind(AssertUnwindSafe(|| f(self)));
        if r.is_err() {
            let msg = PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()).clone();
            // Keep the path where it happened for the report
            let full = self.case();
            self.path.truncate(depth);
            self.violate("panic", format!("{msg} (at {full})"), "no panic".to_owned());
        }
    }

    /// Like `guard`, on one level down the path.
    pub fn guard_at(&mut self, seg: impl Into<Seg>, f: impl FnOnce(&mut Mc)) {
        self.enter(seg);
        self.guard(f);
        self.leave();
    }

    /// Write observations to the dump used to compare configurations.
    ///
    /// They're shortened, except for the case that's asked for.
    pub fn dump(&mut self, observed: &[(&str, String)]) {
        if self.dump_file.is_some() {
            use std::io::Write;
            let case = self.case().escape_debug().to_string();
            let whole = self.only.as_deref() == Some(&case);
            if self.only.is_some() && !whole {
                return;
            }
            let w = self.dump_file.as_mut().unwrap();
            let _ = write!(w, "{case}");
            for (field, value) in observed {
                let _ = if whole {
                    write!(w, "\t{field}={}", value.escape_debug())
                } else {
                    write!(w, "\t{field}={:08x}", hash(value.as_bytes()) as u32)
                };
            }
            let _ = writeln!(w);
        }
    }

    pub fn violations(&self) -> u64 {
        self.violation_count
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str) -> String {
    if s.len() > 4000 {
        let mut end = 4000;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        format!("{}...", &s[..end])
    } else {
        s.to_owned()
    }
}

/// Entry point of every explorer binary.
pub fn run(property: &'static str, f: impl FnOnce(&mut Mc) + Send) {
    let env = |k: &str| std::env::var(k).ok();
    // Building and running is one thing for some
    if env("MC_BUILD").is_some() {
        return;
    }

    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let at = info
            .location()
            .map(|l| format!(" [{}:{}]", l.file(), l.line()))
            .unwrap_or_default();
        *PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()) = format!("{msg}{at}");
    }));

    let wall = env("MC_WALL").and_then(|v| v.parse().ok()).unwrap_or(600);
    let stall: u64 = env("MC_STALL").and_then(|v| v.parse().ok()).unwrap_or(60);

    // No progress for a long time means the code under check doesn't return
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(Ordering::Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::Relaxed);
            if now != last.0 {
                last = (now, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(stall) {
                eprintln!("explorer stalled");
                std::process::exit(77);
            }
        }
    });

    let mut mc = Mc {
        property,
        tier: match env("MC_TIER").as_deref() {
            Some("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        path: Vec::new(),
        states: 0,
        transitions: 0,
        checks: 0,
        traces: 0,
        outcomes: HashSet::new(),
        samples: Vec::new(),
        violations: Vec::new(),
        violation_count: 0,
        only: env("MC_ONLY"),
        trace_file: env("MC_TRACE").map(|p| std::fs::File::create(p).expect("trace file")),
        dump_file: env("MC_DUMP")
            .map(|p| std::io::BufWriter::new(std::fs::File::create(p).expect("dump file"))),
        start: Instant::now(),
        wall: Duration::from_secs(wall),
        capped: false,
        notes: Vec::new(),
    };

    // The walk itself runs on a big stack, deep structures are part of the space
    let mc = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn_scoped(s, move || {
                mc.guard(f);
                mc
            })
            .expect("spawn")
            .join()
            .expect("explorer")
    });

    let mut out = String::from("{");
    out.push_str(&format!("\"property\":{}", esc(property)));
    out.push_str(&format!(",\"states\":{}", mc.states));
    out.push_str(&format!(",\"transitions\":{}", mc.transitions));
    out.push_str(&format!(",\"traces\":{}", mc.traces));
    out.push_str(&format!(",\"checks\":{}", mc.checks));
    out.push_str(&format!(",\"outcomes\":{}", mc.outcomes.len()));
    out.push_str(&format!(",\"capped\":{}", mc.capped));
    out.push_str(&format!(",\"violations\":{}", mc.violation_count));
    out.push_str(&format!(",\"wall_s\":{:.3}", mc.start.elapsed().as_secs_f64()));
    out.push_str(",\"notes\":{");
    for (i, (k, v)) in mc.notes.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&format!("{}:{}", esc(k), esc(v)));
    }
    out.push_str("},\"samples\":[");
    for (i, s) in mc.samples.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&esc(&clip(s)));
    }
    out.push_str("],\"found\":[");
    for (i, v) in mc.violations.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&format!(
            "{{\"case\":{},\"field\":{},\"observed\":{},\"expected\":{}}}",
            esc(&clip(&v.case)),
            esc(&v.field),
            esc(&clip(&v.observed)),
            esc(&clip(&v.expected))
        ));
    }
    out.push_str("]}");
    println!("{out}");
}
