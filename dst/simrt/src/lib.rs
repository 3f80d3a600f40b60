//! Deterministic simulation runtime.
//!
//! One process, real `std`/`rayon`/`crossbeam` threads, but exactly one of them
//! runs at any instant: every blocking operation (futex, join, sleep, yield),
//! every thread start and exit and a seeded selection of atomic operations and
//! basic-block edges hands the "baton" to a scheduler that decides from a PRNG
//! (or from a recorded tape) who runs next.  Clock and OS randomness are virtual.
#![allow(clippy::missing_safety_doc, unknown_lints)]

pub mod alloc;
pub mod cov;
pub mod interpose;
pub mod region;
pub mod rng;
pub mod run;
pub mod sched;

pub use region::{count, note, phase, set_sample};
pub use run::{fail, quiet, w};
