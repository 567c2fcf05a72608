#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
extern crate self as ethportal_api;
extern crate self as parking_lot;
extern crate self as serde_yaml;
extern crate self as trin_metrics;

pub mod consensus {
    #[path = "/repo/crates/ethportal-api/src/types/consensus/constants.rs"]
    pub mod constants;
    #[path = "/repo/crates/ethportal-api/src/types/consensus/historical_summaries.rs"]
    pub mod historical_summaries;
    pub mod header {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct BeaconBlockHeader {
            pub slot: u64,
            /// Stands for every other field.
            pub rest: u64,
        }
    }
}
pub mod light_client {
    pub mod header {
        use crate::consensus::header::BeaconBlockHeader;
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct LightClientHeaderElectra {
            pub beacon: BeaconBlockHeader,
        }
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum LightClientHeader {
            Electra(LightClientHeaderElectra),
        }
        impl LightClientHeader {
            pub fn beacon(&self) -> &BeaconBlockHeader {
                match self {
                    LightClientHeader::Electra(h) => &h.beacon,
                }
            }
        }
    }
    macro_rules! update {
        ($m:ident, $t:ident) => {
            pub mod $m {
                use super::header::LightClientHeader;
                #[derive(Debug, Clone, PartialEq, Eq)]
                pub struct $t {
                    pub attested: LightClientHeader,
                    pub finalized: LightClientHeader,
                }
                impl $t {
                    pub fn attested_header(&self) -> LightClientHeader {
                        self.attested.clone()
                    }
                    pub fn finalized_header(&self) -> LightClientHeader {
                        self.finalized.clone()
                    }
                }
            }
        };
    }
    update!(finality_update, LightClientFinalityUpdate);
    update!(optimistic_update, LightClientOptimisticUpdate);
    update!(update, LightClientUpdate);
}
/// parking_lot: one thread, so a lock only hands out access.
#[derive(Debug)]
pub struct RwLock<T>(std::cell::UnsafeCell<T>);
impl<T> RwLock<T> {
    pub fn new(x: T) -> Self {
        RwLock(std::cell::UnsafeCell::new(x))
    }
    pub fn read(&self) -> &T {
        unsafe { &*self.0.get() }
    }
    pub fn write(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}
pub mod chain_head {
    #[path = "/repo/crates/validation/src/chain_head/mod.rs"]
    pub mod inner;
    pub struct ChainHeadMetricsReporter;
    impl ChainHeadMetricsReporter {
        pub fn new() -> Self {
            Self
        }
        pub fn report_optimistic_slot_update(&self, _: u64) {}
        pub fn report_finalized_slot_update(&self, _: u64) {}
    }
}
pub struct Asset {
    pub data: std::borrow::Cow<'static, [u8]>,
}
pub struct TrinValidationAssets;
impl TrinValidationAssets {
    pub fn get(_: &str) -> Option<Asset> {
        Some(Asset { data: std::borrow::Cow::Borrowed(unsafe { &*core::ptr::addr_of!(INITIAL) }) })
    }
}
/// Two embedded summaries, and the embedded header.
// Initial values are set before use; they are unusual because the verifier may merge a static with constants of the same bytes.
static mut INITIAL: [u8; 128] = [0x5e; 128];
static mut FIRST: (u64, u64) = (0x5eed_000a, 0x5eed_000b);
pub fn from_reader<R: std::io::Read, T: From<(u64, u64)>>(_: R) -> Result<T, ()> {
    Ok(T::from(unsafe { FIRST }))
}
impl From<(u64, u64)> for LightClientHeaderElectra {
    fn from((slot, rest): (u64, u64)) -> Self {
        LightClientHeaderElectra { beacon: consensus::header::BeaconBlockHeader { slot, rest } }
    }
}

use alloy::primitives::B256;
use chain_head::inner::ChainHead;
use consensus::historical_summaries::*;
use core::mem::forget;
use light_client::{finality_update::*, header::*, optimistic_update::*, update::*};
use ssz_types::VariableList;

const CAPELLA_SLOT: u64 = 194_048 * 32;

type H = (u64, u64);
fn header(h: H) -> LightClientHeader {
    LightClientHeader::Electra(h.into())
}
fn node() -> B256 {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&nd::any::<u64>().to_le_bytes());
    B256::from(b)
}
fn setup() -> (ChainHead, H) {
    let init: H = (nd::any(), nd::any());
    unsafe {
        FIRST = init;
        let mut k = 0;
        while k < 4 {
            INITIAL[32 * k..32 * k + 32].copy_from_slice(&node().0);
            k += 1;
        }
    }
    (ChainHead::new_pectra_defaults(), init)
}
fn latest(c: &ChainHead) -> H {
    let b = c.latest_beacon_header();
    (b.slot, b.rest)
}
fn finalized(c: &ChainHead) -> H {
    let b = c.finalized_beacon_header();
    (b.slot, b.rest)
}
fn newest(now: H, was: H, offered: H) -> bool {
    (now == was && was.0 >= offered.0) || (now == offered && offered.0 >= was.0)
}
/// Every pair of headers is the state after one finality update; then one arbitrary step.
fn step(kind: u8) {
    let (c, init) = setup();
    let (l, f): (H, H) = ((nd::any(), nd::any()), (nd::any(), nd::any()));
    c.process_finality_update(LightClientFinalityUpdate { attested: header(l), finalized: header(f) });
    let (l1, f1) = (latest(&c), finalized(&c));
    assert!(newest(l1, init, l), "P14.latest-finality: latest header is not the newest offered");
    assert!(newest(f1, init, f), "P14.finalized-finality: finalized header is not the newest offered");
    let (a, b): (H, H) = ((nd::any(), nd::any()), (nd::any(), nd::any()));
    match kind {
        0 => c.process_update(LightClientUpdate { attested: header(a), finalized: header(b) }),
        1 => c.process_optimistic_update(LightClientOptimisticUpdate { attested: header(a), finalized: header(b) }),
        2 => c.process_finality_update(LightClientFinalityUpdate { attested: header(a), finalized: header(b) }),
        _ => c.update_historical_summaries(VariableList::from(Vec::new())),
    }
    let (l2, f2) = (latest(&c), finalized(&c));
    match kind {
        0 | 2 => {
            assert!(newest(l2, l1, a), "P14.latest: latest header is not the newest offered");
            assert!(newest(f2, f1, b), "P14.finalized: finalized header is not the newest offered");
        }
        1 => {
            assert!(newest(l2, l1, a), "P14.latest-optimistic: latest header is not the newest offered");
            assert!(f2 == f1, "P14.finalized-optimistic: optimistic update changed the finalized header");
        }
        _ => assert!(l2 == l1 && f2 == f1, "P14.summaries-headers: new summaries changed a header"),
    }
    nd::cover!(l2 != l1 || kind == 3, "the latest header can move");
    forget(c);
}
fn summaries(n: usize) {
    let (c, _) = setup();
    let mut old = [B256::ZERO; 2];
    unsafe {
        old[0].0.copy_from_slice(&INITIAL[..32]);
        old[1].0.copy_from_slice(&INITIAL[64..96]);
    }
    let mut v = Vec::with_capacity(3);
    let mut new = [B256::ZERO; 3];
    let mut i = 0;
    while i < n {
        new[i] = node();
        v.push(HistoricalSummary { block_summary_root: new[i], state_summary_root: B256::ZERO });
        i += 1;
    }
    c.update_historical_summaries(VariableList::from(v));
    #[cfg(kani)]
    let slot: u64 = nd::any();
    #[cfg(not(kani))]
    let slot: u64 = {
        let s: u64 = nd::any();
        if nd::replaying() || s % 5 == 0 { s } else { CAPELLA_SLOT - 8192 + s % (6 * 8192) }
    };
    let got = c.historical_summary(slot);
    // a list of the same length may stand for either
    let longer = n > 2;
    let len = if longer { n } else { 2 };
    let k = slot.wrapping_sub(CAPELLA_SLOT) / 8192;
    let covered = slot >= CAPELLA_SLOT && k < len as u64;
    match &got {
        None => assert!(!covered, "P14.summary-found: summary of a covered slot is missing, or the list got shorter"),
        Some(s) => {
            assert!(covered, "P14.summary-absent: summary for a slot that has none");
            let k = k as usize;
            let right = if longer { s.block_summary_root == new[k] } else { s.block_summary_root == old[k] || (n == 2 && s.block_summary_root == new[k]) };
            assert!(right, "P14.summary-entry: summary of another period or of a shorter list");
        }
    }
    nd::cover!(got.is_some(), "some summary is found");
    nd::cover!(got.is_none(), "some slot has no summary");
    forget((c, got));
}

nd::harnesses! {
    fn p14_update(unwind = 6) { step(0) }
    fn p14_optimistic(unwind = 6) { step(1) }
    fn p14_finality(unwind = 6) { step(2) }
    fn p14_other(unwind = 6) { step(3) }
    fn p14_summaries_shorter(unwind = 6) { summaries(1) }
    fn p14_summaries_same(unwind = 6) { summaries(2) }
    fn p14_summaries_longer(unwind = 6) { summaries(3) }
}
