#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
extern crate self as discv5;
extern crate self as ethportal_api;
extern crate self as r2d2;
extern crate self as r2d2_sqlite;
extern crate self as rusqlite;
extern crate self as trin_metrics;

/// Texts in error messages are not looked at.
#[cfg(kani)]
macro_rules! format {
    ($($t:tt)*) => { String::new() };
}
pub mod db;

#[path = "/repo/crates/storage/src/config.rs"]
pub mod config;
pub mod versioned {
    #[derive(Clone, Debug, Eq, PartialEq)]
    pub enum ContentType {
        State,
        LegacyHistoryEternal,
        LegacyHistoryEphemeral,
    }
    impl core::fmt::Display for ContentType {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str(match self {
                ContentType::State => "state",
                ContentType::LegacyHistoryEternal => "legacy_history_eternal",
                ContentType::LegacyHistoryEphemeral => "legacy_history_ephemeral",
            })
        }
    }
    #[derive(Clone, Debug, Eq, PartialEq)]
    pub enum StoreVersion {
        MockContentStore,
        IdIndexedV1,
        EphemeralV1,
    }
    pub mod id_indexed_v1 {
        #[path = "/repo/crates/storage/src/versioned/id_indexed_v1/config.rs"]
        pub mod config;
        #[path = "/repo/crates/storage/src/versioned/id_indexed_v1/pruning_strategy.rs"]
        pub mod pruning_strategy;
        #[cfg(not(kani))]
        #[path = "/repo/crates/storage/src/versioned/id_indexed_v1/sql.rs"]
        pub mod sql;
        #[cfg(not(kani))]
        #[path = "/repo/crates/storage/src/versioned/id_indexed_v1/store.rs"]
        pub mod store;
        pub use config::IdIndexedV1StoreConfig;
    }
    #[path = "/repo/crates/storage/src/versioned/store.rs"]
    pub mod store;
    #[path = "/repo/crates/storage/src/versioned/usage_stats.rs"]
    pub mod usage_stats;
    pub use store::VersionedContentStore;
}
pub use config::PortalStorageConfig;

// Stand-ins for the other modules and crates.
pub mod error {
    use crate::types::distance::Distance;
    use crate::versioned::StoreVersion;
    #[derive(Debug)]
    pub enum ContentStoreError {
        Database(String),
        InsufficientRadius { radius: Distance, distance: Distance },
        UnsupportedStoreMigration { old_version: StoreVersion, new_version: StoreVersion },
        R2d2,
        Sql(crate::db::Error),
    }
    impl From<crate::pools::Error> for ContentStoreError {
        fn from(_: crate::pools::Error) -> Self {
            ContentStoreError::R2d2
        }
    }
    impl From<crate::db::Error> for ContentStoreError {
        fn from(e: crate::db::Error) -> Self {
            ContentStoreError::Sql(e)
        }
    }
}
pub mod utils {
    pub fn setup_sql(_: &std::path::Path) -> Result<crate::Pool<crate::SqliteConnectionManager>, crate::error::ContentStoreError> {
        Ok(crate::pools::pool())
    }
    pub fn get_total_size_of_directory_in_bytes(_: impl AsRef<std::path::Path>) -> Result<u64, &'static str> {
        Ok(0)
    }
}
pub mod pools {
    #[derive(Debug)]
    pub struct Error;
    #[cfg(not(kani))]
    #[derive(Clone, Debug)]
    pub struct Pool<M>(pub crate::db::Db, core::marker::PhantomData<M>);
    #[cfg(not(kani))]
    pub fn pool<M>() -> Pool<M> {
        Pool(Default::default(), core::marker::PhantomData)
    }
    #[cfg(not(kani))]
    impl<M> Pool<M> {
        pub fn get(&self) -> Result<crate::db::Conn, Error> {
            self.0.get()
        }
    }
    #[cfg(kani)]
    #[derive(Clone, Debug)]
    pub struct Pool<M>(core::marker::PhantomData<M>);
    #[cfg(kani)]
    pub fn pool<M>() -> Pool<M> {
        Pool(core::marker::PhantomData)
    }
}
#[derive(Clone, Debug)]
pub struct SqliteConnectionManager;
pub use db::{Error, OptionalExtension};
pub use pools::Pool;
pub mod enr {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct NodeId(pub [u8; 32]);
    impl NodeId {
        pub fn raw(&self) -> [u8; 32] {
            self.0
        }
    }
}
pub mod types {
    pub use crate::db::Type;
    #[path = "/repo/crates/ethportal-api/src/types/distance.rs"]
    pub mod distance;
    pub mod network {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum Subnetwork {
            History,
            Beacon,
            LegacyHistory,
            State,
            CanonicalIndices,
            VerkleState,
            TransactionGossip,
            Utp,
        }
        impl core::fmt::Display for Subnetwork {
            fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                Ok(())
            }
        }
    }
}
pub mod storage {
    use crate::types::{distance::Distance, network::Subnetwork};
    use std::time::Duration;
    /// Reports nothing; timers return whatever duration is set.
    #[derive(Debug)]
    pub struct StorageMetricsReporter;
    pub struct Timer;
    thread_local! { pub static TOOK: core::cell::Cell<Duration> = const { core::cell::Cell::new(Duration::from_millis(200)) }; }
    impl StorageMetricsReporter {
        pub fn new(_: Subnetwork) -> Self {
            Self
        }
        pub fn start_process_timer(&self, _: &str) -> Timer {
            Timer
        }
        pub fn stop_process_timer(&self, _: Timer) -> Duration {
            TOOK.with(|t| t.get())
        }
        pub fn report_content_data_storage_bytes(&self, _: f64) {}
        pub fn report_total_storage_usage_bytes(&self, _: f64) {}
        pub fn report_storage_capacity_bytes(&self, _: f64) {}
        pub fn report_radius(&self, _: Distance) {}
        pub fn report_entry_count(&self, _: u64) {}
        pub fn increase_entry_count(&self) {}
        pub fn decrease_entry_count(&self) {}
        pub fn get_summary(&self) -> String {
            String::new()
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ContentId(alloy::primitives::B256);
impl<T: Into<alloy::primitives::B256>> From<T> for ContentId {
    fn from(value: T) -> Self {
        Self(value.into())
    }
}
impl core::ops::Deref for ContentId {
    type Target = alloy::primitives::B256;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl db::FromVal for ContentId {
    fn from(v: &db::Val) -> Option<Self> {
        match v {
            db::Val::Blob(b) if b.len() == 32 => Some(ContentId(alloy::primitives::B256::from_slice(b))),
            _ => None,
        }
    }
}
pub type RawContentValue = alloy::primitives::Bytes;
pub trait OverlayContentKey: Clone + core::fmt::Debug + PartialEq {
    fn content_id(&self) -> [u8; 32];
    fn to_bytes(&self) -> alloy::primitives::Bytes;
    fn try_from_bytes(b: impl AsRef<[u8]>) -> Result<Self, &'static str>;
}
/// A key that is its own id, with some bytes before it.
#[derive(Clone, Debug, PartialEq)]
pub struct Key(pub u8, pub [u8; 32]);
impl OverlayContentKey for Key {
    fn content_id(&self) -> [u8; 32] {
        self.1
    }
    fn to_bytes(&self) -> alloy::primitives::Bytes {
        let mut v = vec![self.0];
        v.extend_from_slice(&self.1);
        v.into()
    }
    fn try_from_bytes(b: impl AsRef<[u8]>) -> Result<Self, &'static str> {
        let b = b.as_ref();
        if b.len() != 33 {
            return Err("length");
        }
        Ok(Key(b[0], b[1..].try_into().unwrap()))
    }
}

use config::*;
use core::mem::forget;
use std::time::Duration;
use types::{distance::*, network::Subnetwork};
use versioned::{
    id_indexed_v1::{pruning_strategy::*, *},
    usage_stats::*,
    *,
};

fn settings(capacity: u64) -> IdIndexedV1StoreConfig {
    IdIndexedV1StoreConfig {
        content_type: ContentType::State,
        subnetwork: Subnetwork::State,
        node_id: enr::NodeId([0; 32]),
        node_data_dir: Default::default(),
        storage_capacity_bytes: capacity,
        sql_connection_pool: pools::pool(),
        pruning_config: PruningConfig::default(),
        max_radius: Distance::MAX,
    }
}
fn stats(count_bits: u32, size_bits: u32) -> (u64, u64, u64, UsageStats) {
    let (n, t, e): (u64, u64, u64) = (nd::any(), nd::any(), nd::any());
    nd::assume(n >> count_bits == 0 && t >> size_bits == 0 && e < 1024);
    (n, t, e, UsageStats::new(n, t, e))
}
/// With a cost of each item of `cost`.
fn usage(cost: u64) {
    let (n, t, _, _) = stats(40, 60);
    let e = cost;
    let mut s = UsageStats::new(n, t, e);
    let x: u64 = nd::any();
    assert!(s.entry_count() == n && s.total_entry_size_bytes() == t, "P19.usage-new: counts are not those given");
    let u = t + n * e;
    assert!(s.estimated_disk_usage_bytes() == u, "P19.usage-estimate: usage is not size plus the cost of each item");
    assert!(s.is_estimated_disk_usage_above(x) == (u > x), "P19.usage-above: wrong answer whether usage is above");
    assert!(s.average_entry_disk_usage_bytes().is_some() == (n > 0), "P19.average: average of nothing, or none of something");
    let a: u64 = nd::any();
    nd::assume(a >> 60 == 0);
    s.on_store(a);
    assert!(s.entry_count() == n + 1 && s.total_entry_size_bytes() == t + a, "P19.usage-store: addition is not counted exactly");
    let (k, b): (u64, u64) = (nd::any(), nd::any());
    nd::assume(k <= n && b <= t);
    s.on_multi_delete(k, b);
    assert!(s.entry_count() == n + 1 - k && s.total_entry_size_bytes() == t + a - b, "P19.usage-delete: removal is not counted exactly");
    s.on_delete(a);
    assert!(s.entry_count() == n - k && s.total_entry_size_bytes() == t - b, "P19.usage-delete-one: removal of one is not counted exactly");
    assert!(s.estimated_disk_usage_bytes() == t - b + (n - k) * e, "P19.usage-after: usage is not size plus the cost of each item");
}
/// The limit on one round: what is asked for when far more has to go.
fn limit(s: &PruningStrategy) -> u64 {
    s.get_pruning_count(&UsageStats::new(1 << 40, 1 << 50, 0))
}
/// Whether, how much: at a capacity, for usage of the given sizes.
fn ask(capacity: u64, count_bits: u32, size_bits: u32) {
    let (n, t, e, s) = stats(count_bits, size_bits);
    nd::assume(n > 0 || t == 0);
    let p = PruningStrategy::new(settings(capacity));
    let u = t + n * e;
    assert!(p.should_prune(&s) == (u > capacity), "P19.when: pruning is not asked for exactly when usage exceeds capacity");
    let c = p.get_pruning_count(&s);
    if u <= capacity {
        assert!(c == 0, "P19.needless: items are removed though usage is within capacity");
    } else if capacity == 0 {
        assert!(c == n, "P19.everything: not everything goes at capacity zero");
    } else {
        assert!(c >= 1, "P19.some: nothing is removed though usage exceeds capacity");
        assert!(c <= n, "P19.all: more is removed than stored");
        assert!(c <= PruningStrategy::STARTING_MAX_PRUNING_COUNT, "P19.limit: more is removed than the limit");
    }
    let target = p.target_capacity_bytes();
    assert!(target <= capacity, "P19.target: target above capacity");
    assert!(p.is_usage_above_target_capacity(&s) == (u > target), "P19.target-above: wrong answer whether usage is above target");
    forget(p);
}
/// The limit after rounds that took these times, changing by `share` tenths.
fn adapt<const N: usize>(share: u64) {
    let mut c = settings(1000);
    c.pruning_config.max_pruning_count_change_fraction = share as f64 / 10.0;
    let mut p = PruningStrategy::new(c);
    let mut i = 0;
    while i < N {
        let was = limit(&p);
        let ms: u16 = nd::any();
        p.observe_pruning_duration(Duration::from_millis(ms as u64));
        let is = limit(&p);
        assert!(is >= 1, "P19.limit-zero: limit falls to zero");
        if ms < 100 {
            assert!(is >= was, "P19.limit-fast: limit falls though the round was fast");
        } else if ms > 300 {
            assert!(is <= was, "P19.limit-slow: limit grows though the round was slow");
        } else {
            assert!(is == was, "P19.limit-same: limit changes though the round was neither fast nor slow");
        }
        // One step changes it by at most that share, to the nearest whole number.
        assert!(10 * is <= (10 + share) * was + 5 && 10 * is + 5 >= (10 - share) * was, "P19.limit-step: limit changes by more than the configured share");
        assert!(ms >= 100 || was < 2 || was * share <= 5 || is > was, "P19.limit-grows: limit does not grow though the round was fast");
        assert!(ms <= 300 || was < 2 || was * share <= 5 || is < was, "P19.limit-shrinks: limit does not shrink though the round was slow");
        i += 1;
    }
    forget(p);
}
const SUBNETWORKS: [Subnetwork; 3] = [Subnetwork::Beacon, Subnetwork::LegacyHistory, Subnetwork::State];
fn capacity(f: &PortalStorageConfigFactory, s: Subnetwork) -> Option<u64> {
    match f.create(&s, Distance::MAX) {
        Ok(c) => {
            let b = c.storage_capacity_bytes;
            forget(c);
            Some(b)
        }
        Err(e) => {
            forget(e);
            None
        }
    }
}
fn factory(c: StorageCapacityConfig) -> PortalStorageConfigFactory {
    match PortalStorageConfigFactory::new(c, enr::NodeId([0; 32]), Default::default()) {
        Ok(f) => f,
        Err(_) => panic!("P19.factory: no configuration"),
    }
}
/// Every choice of enabled subnetworks, of the given size, and one total.
fn combined(enabled: [bool; 3]) {
    let total_mb: u32 = nd::any();
    let mut subnetworks = Vec::with_capacity(4);
    let mut i = 0;
    while i < 3 {
        if enabled[i] {
            subnetworks.push(SUBNETWORKS[i]);
        }
        i += 1;
    }
    let f = factory(StorageCapacityConfig::Combined { total_mb, subnetworks });
    let all = total_mb as u64 * 1_000_000;
    let (b, h, s) = (capacity(&f, Subnetwork::Beacon), capacity(&f, Subnetwork::LegacyHistory), capacity(&f, Subnetwork::State));
    assert!(b.is_some() == enabled[0] && h.is_some() == enabled[1] && s.is_some() == enabled[2], "P19.enabled: capacity for a subnetwork that is not enabled, or none for one that is");
    assert!(b.unwrap_or(0) as u128 + h.unwrap_or(0) as u128 + s.unwrap_or(0) as u128 <= all as u128, "P19.total: more is given out than the total");
    match (h, s) {
        (Some(h), Some(s)) => assert!(h == all / 2 && s == all / 2, "P19.share: total is not divided evenly"),
        (Some(x), None) | (None, Some(x)) => assert!(x == all, "P19.share-only: the only sized subnetwork does not get the total"),
        (None, None) => {}
    }
    forget(f);
}
fn specific() {
    let mb: [u32; 3] = [nd::any(), nd::any(), nd::any()];
    let on: [bool; 3] = [nd::any(), nd::any(), nd::any()];
    let of = |i: usize| if on[i] { Some(mb[i]) } else { None };
    let f = factory(StorageCapacityConfig::Specific { beacon_mb: of(0), legacy_history_mb: of(1), state_mb: of(2) });
    let mut i = 0;
    while i < 3 {
        assert!(capacity(&f, SUBNETWORKS[i]) == of(i).map(|m| m as u64 * 1_000_000), "P19.specific: a subnetwork does not get its own capacity");
        i += 1;
    }
    assert!(capacity(&f, Subnetwork::History).is_none(), "P19.specific-other: capacity for a subnetwork without one");
    forget(f);
}
#[cfg(not(kani))]
fn native_ask() {
    let cap = match nd::below(4) {
        0 => nd::below(2000) as u64,
        1 => 1_000_000,
        2 => nd::any::<u32>() as u64 * 1_000,
        _ => nd::any::<u64>() >> 20,
    };
    let n = match nd::below(3) {
        0 => nd::below(20) as u64,
        1 => nd::below(20000) as u64,
        _ => nd::any::<u64>() >> 34,
    };
    let e = nd::below(1024) as u64;
    let t = if n == 0 {
        0
    } else if nd::below(2) == 0 {
        (cap.saturating_sub(n * e) + nd::below(3) as u64).saturating_sub(1)
    } else {
        nd::any::<u64>() >> (10 + nd::below(50))
    };
    let s = UsageStats::new(n, t, e);
    adapt::<20>(1 + nd::below(9) as u64);
    let mut p = PruningStrategy::new(settings(cap));
    for _ in 0..nd::below(30) {
        p.observe_pruning_duration(Duration::from_micros(nd::below(400_000) as u64));
    }
    let u = t + n * e;
    let target = (cap as u128 * 95 + 50) / 100;
    assert!(p.target_capacity_bytes().abs_diff(target as u64) <= 1 + (target >> 50) as u64, "P19.target-share: target is not the configured share of capacity");
    let c = p.get_pruning_count(&s);
    assert!(p.should_prune(&s) == (u > cap), "P19.when: pruning is not asked for exactly when usage exceeds capacity");
    if u <= cap {
        assert!(c == 0, "P19.needless: items are removed though usage is within capacity");
    } else if cap == 0 {
        assert!(c == n, "P19.everything: not everything goes at capacity zero");
    } else {
        let l = limit(&p);
        assert!(1 <= c && c <= n && c <= l, "P19.count: number of items to remove out of range");
        // Enough of average items to come down to the target, to within one.
        let keep = target * n as u128 / u as u128;
        let need = (n as u128 - keep) as u64;
        assert!(c == l || c.abs_diff(need) <= 1 + (need >> 40), "P19.estimate: not as many as it takes to come down to the target");
        assert!(c < l || need + 1 + (need >> 40) >= l, "P19.estimate-limit: limit used though fewer suffice");
    }
}
/// A store under a sequence of operations, against a plain list of what is stored.
#[cfg(not(kani))]
fn native_store() {
    use versioned::id_indexed_v1::store::IdIndexedV1Store;
    let cost = |v: usize| (32 + 33 + v) as u64;
    let per = 500u64;
    let mut cfg = settings(if nd::below(12) == 0 { 0 } else { (1 + nd::below(12) as u64) * 800 });
    cfg.node_id = enr::NodeId(nd::bytes());
    if nd::below(4) == 0 {
        cfg.max_radius = Distance::from(alloy::primitives::U256::from_be_bytes(nd::bytes::<32>()));
    }
    let node = cfg.node_id.0;
    let cap = cfg.storage_capacity_bytes;
    let dist = |id: &[u8; 32]| XorMetric::distance(&node, id);
    let short = |id: &[u8; 32]| dist(id).big_endian_u32();
    let open = |cfg: &IdIndexedV1StoreConfig| -> IdIndexedV1Store<Key, XorMetric> {
        VersionedContentStore::create(ContentType::State, cfg.clone()).expect("P19.store-open: store does not open")
    };
    let mut st = open(&cfg);
    let mut held: Vec<(Key, Vec<u8>)> = Vec::new();
    let ids: Vec<[u8; 32]> = (0..6 + nd::below(20)).map(|_| nd::bytes()).collect();
    for _ in 0..nd::below(60) {
        storage::TOOK.with(|t| t.set(Duration::from_millis(nd::below(400) as u64)));
        let id = ids[nd::below(ids.len())];
        let had = held.iter().position(|x| x.0 .1 == id);
        match nd::below(8) {
            0 => {
                st.delete(&ContentId::from(id)).expect("P19.store-delete: removal fails");
                if let Some(i) = had {
                    held.remove(i);
                }
            }
            1 => {
                st = open(&cfg);
                // Items dropped while opening are not reported.
                held.retain(|x| st.has_content(&ContentId::from(x.0 .1)).expect("P19.store-has: lookup fails"));
            }
            _ => {
                let key = Key(7, id);
                let value = vec![nd::any::<u8>(); nd::below(700)];
                let before = st.radius();
                match st.insert(&key, value.clone().into()) {
                    Ok(dropped) => {
                        assert!(dist(&id) <= before, "P19.store-outside: content outside the radius is stored");
                        if had.is_none() {
                            held.push((key, value));
                        }
                        for (k, v) in &dropped {
                            let i = held.iter().position(|x| x.0 == *k && x.1[..] == v[..]);
                            held.remove(i.expect("P19.store-dropped: dropped content was not stored"));
                        }
                        for (k, _) in &dropped {
                            assert!(held.iter().all(|x| short(&x.0 .1) <= short(&k.1)), "P19.store-nearest: content is dropped though something farther is kept");
                        }
                    }
                    Err(error::ContentStoreError::InsufficientRadius { .. }) => assert!(dist(&id) > before, "P19.store-inside: content within the radius is refused"),
                    Err(_) => panic!("P19.store-insert: addition fails"),
                }
            }
        }
        let u = st.usage_stats();
        let stored = cfg.sql_connection_pool.0 .0.borrow().values().map(|t| t.rows.len()).sum::<usize>();
        assert!(held.len() == stored, "P19.store-lost: items are lost or invented");
        let size: u64 = held.iter().map(|x| cost(x.1.len())).sum();
        assert!(u.entry_count() == held.len() as u64, "P19.store-count: number of items is not tracked exactly");
        assert!(u.total_entry_size_bytes() == size, "P19.store-size: size is not tracked exactly");
        assert!(u.estimated_disk_usage_bytes() == size + per * held.len() as u64, "P19.store-usage: usage is not size plus the cost of each item");
        assert!(u.estimated_disk_usage_bytes() <= cap, "P19.store-capacity: usage stays above capacity");
        for x in &ids {
            let v = st.lookup_content_value(&ContentId::from(*x)).expect("P19.store-get: lookup fails");
            let w = held.iter().find(|y| y.0 .1 == *x);
            assert!(v.map(|v| v.to_vec()) == w.map(|w| w.1.clone()), "P19.store-value: another value is returned than stored");
            assert!(st.lookup_content_key(&ContentId::from(*x)).expect("P19.store-get: lookup fails") == w.map(|w| w.0.clone()), "P19.store-key: another key is returned than stored");
        }
        for x in &held {
            assert!(short(&x.0 .1) <= st.radius().big_endian_u32(), "P19.store-radius: stored content lies outside the radius");
        }
        assert!(cap > 0 || st.radius() == Distance::ZERO, "P19.store-zero: something fits into no capacity");
    }
}
nd::harnesses! {
    fn p19_usage(unwind = 2) { usage(500); usage(750) }
    fn p19_ask_zero(unwind = 2) { ask(0, 40, 60) }
    fn p19_ask_million(unwind = 2) { ask(1_000_000, 6, 22) }
    fn p19_ask_small(unwind = 2) { ask(3, 8, 8) }
    fn p19_adapt(unwind = 10) { adapt::<8>(2) }
    fn p19_adapt_far(unwind = 10) { adapt::<7>(6) }
    fn p19_combined_two(unwind = 5) { combined([true, true, true]); combined([false, true, true]) }
    fn p19_combined_one(unwind = 5) { combined([true, true, false]); combined([true, false, true]); combined([true, false, false]); combined([false, false, false]) }
    fn p19_specific(unwind = 5) { specific() }
    fn p19_native_ask(unwind = 2) { #[cfg(not(kani))] native_ask() }
    fn p19_native_store(unwind = 2) { #[cfg(not(kani))] native_store() }
}
