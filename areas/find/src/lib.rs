#![allow(dead_code, unused_imports, static_mut_refs, clippy::all)]
extern crate self as crossbeam_channel;
extern crate self as discv5;
extern crate self as ethportal_api;
extern crate self as fnv;
#[cfg(kani)]
extern crate self as std;
#[cfg(not(kani))]
extern crate vstd as std;

// The standard library with a clock the harness controls and, under the verifier, maps by contract.
#[cfg(kani)]
pub use vstd::{borrow, cell, fmt, hash, marker, ops, rc, sync};
/// Whole seconds.
#[cfg(kani)]
pub mod time {
    pub use vstd::time::Duration;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(pub u64);
    pub static mut NOW: u64 = 0x5eed_0003;
    impl Instant {
        pub fn now() -> Self {
            Instant(unsafe { NOW })
        }
        pub fn duration_since(&self, earlier: Instant) -> Duration {
            Duration::from_secs(self.0.saturating_sub(earlier.0))
        }
        pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
            self.duration_since(earlier)
        }
        pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
            self.0.checked_sub(earlier.0).map(Duration::from_secs)
        }
        pub fn elapsed(&self) -> Duration {
            Instant::now().duration_since(*self)
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d.as_secs()).map(Instant)
        }
    }
    impl core::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d.as_secs())
        }
    }
    impl core::ops::AddAssign<Duration> for Instant {
        fn add_assign(&mut self, d: Duration) {
            self.0 += d.as_secs()
        }
    }
    impl core::ops::Sub<Duration> for Instant {
        type Output = Instant;
        fn sub(self, d: Duration) -> Instant {
            Instant(self.0 - d.as_secs())
        }
    }
    impl core::ops::Sub for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.duration_since(o)
        }
    }
}
#[cfg(kani)]
pub mod ordered;
#[cfg(kani)]
pub mod collections {
    pub use vstd::collections::*;
    pub mod btree_map {
        pub use crate::ordered::*;
    }
    pub use crate::ordered::{BTreeMap, VecDeque};
    pub mod vec_deque {
        pub use crate::ordered::VecDeque;
    }
}
#[path = "/repo/crates/portalnet/src/constants.rs"]
pub mod constants;
pub mod find {
    pub mod iterators {
        #[path = "/repo/crates/portalnet/src/find/iterators/findcontent.rs"]
        pub mod findcontent;
        #[path = "/repo/crates/portalnet/src/find/iterators/findnodes.rs"]
        pub mod findnodes;
        #[path = "/repo/crates/portalnet/src/find/iterators/query.rs"]
        pub mod query;
    }
    /// What a query is for is not looked at.
    pub mod query_info {
        #[derive(Debug)]
        pub struct QueryInfo<K>(pub K);
    }
    #[path = "/repo/crates/portalnet/src/find/query_pool.rs"]
    pub mod query_pool;
}

// Stand-ins for the other crates.
pub mod kbucket {
    /// Positions on the line of identifiers; their distances stand for the order of the peers.
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct Distance(pub u16);
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    pub struct Key<T> {
        preimage: T,
        hash: u16,
    }
    impl<T> Key<T> {
        pub fn new_raw(preimage: T, hash: u16) -> Self {
            Key { preimage, hash }
        }
        pub fn preimage(&self) -> &T {
            &self.preimage
        }
        pub fn into_preimage(self) -> T {
            self.preimage
        }
        pub fn distance<U>(&self, other: &Key<U>) -> Distance {
            Distance(self.hash ^ other.hash)
        }
        pub fn log2_distance<U>(&self, other: &Key<U>) -> Option<u64> {
            match self.distance(other).0 {
                0 => None,
                d => Some(256 - d.leading_zeros() as u64),
            }
        }
    }
}
pub trait OverlayContentKey {}
impl OverlayContentKey for u8 {}
pub type FnvHashMap<K, V> = std::collections::HashMap<K, V>;
/// Contents are told apart by a number.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct RawContentValue(pub u16);
/// A channel whose messages arrive in order.
pub struct Sender<T>(std::rc::Rc<std::cell::RefCell<Queue<T>>>);
pub struct Receiver<T>(std::rc::Rc<std::cell::RefCell<Queue<T>>>);
#[cfg(kani)]
struct Queue<T>(Option<T>);
#[cfg(not(kani))]
struct Queue<T>(std::collections::VecDeque<T>);
#[derive(Debug)]
pub struct TryRecvError;
#[derive(Debug)]
pub struct SendError<T>(pub T);
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    #[cfg(kani)]
    let q = std::rc::Rc::new(std::cell::RefCell::new(Queue(None)));
    #[cfg(not(kani))]
    let q = std::rc::Rc::new(std::cell::RefCell::new(Queue(Default::default())));
    (Sender(q.clone()), Receiver(q))
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        #[cfg(kani)]
        {
            assert!(self.0.borrow().0.is_none(), "model capacity exceeded");
            self.0.borrow_mut().0 = Some(t);
        }
        #[cfg(not(kani))]
        self.0.borrow_mut().0.push_back(t);
        Ok(())
    }
}
impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        #[cfg(kani)]
        return self.0.borrow_mut().0.take().ok_or(TryRecvError);
        #[cfg(not(kani))]
        self.0.borrow_mut().0.pop_front().ok_or(TryRecvError)
    }
    pub fn is_empty(&self) -> bool {
        #[cfg(kani)]
        return self.0.borrow().0.is_none();
        #[cfg(not(kani))]
        self.0.borrow().0.is_empty()
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        core::iter::from_fn(|| self.try_recv().ok())
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        Sender(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        Receiver(self.0.clone())
    }
}
impl<T> core::fmt::Debug for Sender<T> {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl<T> core::fmt::Debug for Receiver<T> {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}

/// A peer, numbered by its place in the order of distance to the target.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Id(pub u8);
const TARGET: u16 = 0x5a5a;
impl From<Id> for kbucket::Key<Id> {
    fn from(i: Id) -> Self {
        kbucket::Key::new_raw(i, (2 * i.0 as u16 + 1) ^ TARGET)
    }
}
impl core::fmt::Display for Id {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
fn target() -> kbucket::Key<Id> {
    kbucket::Key::new_raw(Id(0xff), TARGET)
}

use core::mem::forget;
use find::{
    iterators::{findcontent::*, findnodes::*, query::*},
    query_info::QueryInfo,
    query_pool::*,
};
use std::time::{Duration, Instant};
include!("spec.rs");
