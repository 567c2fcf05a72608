//! Stand-in for `std` used by the area crates (`extern crate vstd as std;`).
//!
//! Everything is the real `std` except:
//! * under the verifier, the hashed/ordered maps and sets are finite-capacity association arrays
//!   (the documented map/set semantics, without hashing or tree balancing);
//! * in both modes, `std::time::Instant`/`SystemTime` read a clock the harness controls, so "every
//!   schedule of clock readings" can be quantified over.
#![allow(clippy::all)]

pub use ::std::*;

#[cfg(kani)]
pub mod map;

#[cfg(kani)]
pub mod collections {
    pub use super::map::*;
    pub use ::std::collections::{BinaryHeap, LinkedList, VecDeque, TryReserveError};
    pub mod hash_map {
        pub use super::super::map::hash_map::*;
    }
    pub mod btree_map {
        pub use super::super::map::hash_map::*;
        pub use super::super::map::BTreeMap;
    }
    pub mod hash_set {
        pub use super::super::map::HashSet;
    }
    pub mod btree_set {
        pub use super::super::map::BTreeSet;
    }
    pub mod vec_deque {
        pub use ::std::collections::vec_deque::*;
    }
}

pub mod time {
    pub use ::std::time::{Duration, TryFromFloatSecsError};
    pub use super::clock::{Instant, SystemTime, SystemTimeError, UNIX_EPOCH};
}

/// Threads: whether the current thread is unwinding is up to the harness.
pub mod thread {
    pub use ::std::thread::*;
    pub static mut UNWINDING: bool = false;
    pub fn panicking() -> bool {
        unsafe { UNWINDING }
    }
}

pub mod clock;

/// Byte streams; errors carry their kind only.
#[cfg(feature = "io")]
pub mod io;
