//! Values that count what is done to them.

use std::{
    fmt,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
};

/// What happened to all copies of a probe.
#[derive(Default, Debug)]
pub struct Counts {
    pub debug: AtomicU64,
    pub display: AtomicU64,
    pub sval: AtomicU64,
    pub serde: AtomicU64,
    pub source: AtomicU64,
    pub as_ref: AtomicU64,
    pub elements: AtomicU64,
    pub drops: AtomicU64,
}

impl Counts {
    /// How often any of the value's code was run.
    pub fn evals(&self) -> u64 {
        [&self.debug, &self.display, &self.sval, &self.serde, &self.source, &self.as_ref, &self.elements]
            .iter()
            .map(|c| c.load(Ordering::SeqCst))
            .sum()
    }

    pub fn drops(&self) -> u64 {
        self.drops.load(Ordering::SeqCst)
    }
}

/// A value that isn't a primitive, whatever it says.
pub struct Probe<T> {
    pub counts: Arc<Counts>,
    pub value: T,
}

impl<T> Probe<T> {
    pub fn new(value: T) -> (Self, Arc<Counts>) {
        let counts = Arc::new(Counts::default());
        (
            Probe {
                counts: counts.clone(),
                value,
            },
            counts,
        )
    }
}

impl<T> Drop for Probe<T> {
    fn drop(&mut self) {
        self.counts.drops.fetch_add(1, Ordering::SeqCst);
    }
}

impl<T: fmt::Debug> fmt::Debug for Probe<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.counts.debug.fetch_add(1, Ordering::SeqCst);
        self.value.fmt(f)
    }
}

impl<T: fmt::Display> fmt::Display for Probe<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.counts.display.fetch_add(1, Ordering::SeqCst);
        self.value.fmt(f)
    }
}

impl<T: std::error::Error + 'static> std::error::Error for Probe<T> {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.counts.source.fetch_add(1, Ordering::SeqCst);
        self.value.source()
    }
}

impl<E, T: AsRef<[E]>> AsRef<[E]> for Probe<T> {
    fn as_ref(&self) -> &[E] {
        self.counts.as_ref.fetch_add(1, Ordering::SeqCst);
        self.value.as_ref()
    }
}

#[cfg(feature = "sval2")]
impl<T: sval::Value> sval::Value for Probe<T> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        self.counts.sval.fetch_add(1, Ordering::SeqCst);
        self.value.stream(s)
    }
}

#[cfg(feature = "serde1")]
impl<T: serde::Serialize> serde::Serialize for Probe<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.counts.serde.fetch_add(1, Ordering::SeqCst);
        self.value.serialize(s)
    }
}
