//! Contracts of `trin-metrics/src/timer.rs`.
#![allow(dead_code, unused_imports, clippy::all, static_mut_refs)]
#[cfg(not(feature = "real"))]
extern crate vstd as std;
#[cfg(feature = "real")]
extern crate prometheus_real as prometheus_exporter;

#[path = "/repo/crates/metrics/src/timer.rs"]
pub mod timer;

#[cfg(not(feature = "real"))]
include!("contract.rs");
#[cfg(feature = "real")]
mod real;
#[cfg(feature = "real")]
pub use real::*;
