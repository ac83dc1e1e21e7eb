//! Explicit-state explorers for value-bag.
#![allow(clippy::all, unused_variables, dead_code)]

pub mod engine;
pub mod flags;
pub mod probe;
pub mod record;
pub mod routes;
pub mod tree;
pub mod sched;
pub mod spec;
pub mod observe;
