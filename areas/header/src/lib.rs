#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
extern crate self as ethportal_api;

pub mod consensus {
    #[path = "/repo/crates/ethportal-api/src/types/consensus/constants.rs"]
    pub mod constants;
    #[path = "/repo/crates/ethportal-api/src/types/consensus/historical_summaries.rs"]
    pub mod historical_summaries;
    pub mod beacon_state {
        pub type HistoricalRoots = ssz_types::VariableList<alloy::primitives::B256, ssz_types::typenum::U16777216>;
    }
}
pub mod types {
    pub mod execution {
        #[path = "/repo/crates/ethportal-api/src/types/execution/accumulator.rs"]
        pub mod accumulator;
        pub mod ssz_header {
            pub mod encode {
                pub fn is_ssz_fixed_len() -> bool { false }
                pub fn ssz_fixed_len() -> usize { 4 }
                pub fn ssz_bytes_len(_: &alloy::consensus::Header) -> usize { 0 }
                pub fn ssz_append(_: &alloy::consensus::Header, _: &mut Vec<u8>) {}
            }
        }
        pub mod header_with_proof {
            use super::ssz_header;
            use alloy::{consensus::Header, primitives::B256};
            use serde::{Deserialize, Serialize};
            use ssz_derive::{Decode, Encode};
            use ssz_types::{typenum, FixedVector};
            impl ssz::Encode for BlockHeaderProof {
                fn is_ssz_fixed_len() -> bool { false }
                fn ssz_bytes_len(&self) -> usize { 0 }
                fn ssz_append(&self, _: &mut Vec<u8>) {}
            }
            include!(concat!(env!("OUT_DIR"), "/header_with_proof.rs"));
        }
    }
    pub mod network_spec {
        use alloy_hardforks::*;
        /// Mainnet.
        pub struct NetworkSpec(EthereumChainHardforks);
        impl EthereumHardforks for NetworkSpec {
            fn ethereum_fork_activation(&self, f: EthereumHardfork) -> ForkCondition {
                self.0.ethereum_fork_activation(f)
            }
        }
        pub fn network_spec() -> NetworkSpec {
            NetworkSpec(EthereumChainHardforks::mainnet())
        }
    }
}
pub mod merkle {
    #[path = "/repo/crates/validation/src/merkle/safe_arith.rs"]
    pub mod safe_arith;
    #[path = "/repo/crates/validation/src/merkle/proof.rs"]
    pub mod real;
    /// Verified against the contract of branch verification (decided in P11), not its body: an
    /// arbitrary relation between leaf, branch, depth, index and root.
    pub mod proof {
        use alloy::primitives::B256;
        pub use super::real::{MerkleTree, MerkleTreeError};

        // What the relation says is fixed for the (at most two) facts a harness asks about first;
        // any other question gets an arbitrary answer. Facts are told apart by a fingerprint: equal
        // questions have equal fingerprints.
        // Initial values are set before use; they are unusual because the verifier may merge a static with constants of the same bytes.
        static mut KEYS: [u128; 2] = [0x5eed_0008; 2];
        static mut HOLDS: [bool; 2] = [false; 2];
        static mut N: usize = 0x5eed_0009;

        pub fn forget_all() {
            unsafe { N = 0 }
        }
        fn low(x: &B256) -> u64 {
            let mut b = [0u8; 8];
            b.copy_from_slice(&x.0[..8]);
            u64::from_le_bytes(b)
        }
        fn key(leaf: B256, branch: &[B256], depth: usize, index: usize, root: B256) -> u128 {
            let mut k = depth as u64;
            let mut i = 0;
            while i < branch.len() {
                k = k.rotate_left(7) ^ low(&branch[i]);
                i += 1;
            }
            let hi = low(&leaf).rotate_left(3).wrapping_add(low(&root));
            ((hi as u128) << 64) | ((k ^ (index as u64).rotate_left(40)) as u128)
        }
        /// Only a branch of the stated depth is accepted, and only the low `depth` bits of the index
        /// matter (P11).
        fn index_bits(branch: &[B256], depth: usize, index: usize) -> Option<usize> {
            if branch.len() != depth {
                return None;
            }
            assert!(depth <= 15, "model capacity exceeded");
            Some(index & ((1 << depth) - 1))
        }
        /// Ask about a fact before the code does.
        pub fn fact(leaf: B256, branch: &[B256], depth: usize, index: usize, root: B256) -> bool {
            match index_bits(branch, depth, index) {
                None => false,
                Some(index) => unsafe {
                    KEYS[N] = key(leaf, branch, depth, index, root);
                    HOLDS[N] = nd::any();
                    if N == 1 && KEYS[1] == KEYS[0] {
                        HOLDS[1] = HOLDS[0];
                    }
                    N += 1;
                    HOLDS[N - 1]
                },
            }
        }
        pub fn verify_merkle_proof(leaf: B256, branch: &[B256], depth: usize, index: usize, root: B256) -> bool {
            match index_bits(branch, depth, index) {
                None => false,
                Some(index) => unsafe {
                    let k = key(leaf, branch, depth, index, root);
                    let other: bool = nd::any();
                    if N > 0 && k == KEYS[0] {
                        HOLDS[0]
                    } else if N > 1 && k == KEYS[1] {
                        HOLDS[1]
                    } else {
                        other
                    }
                },
            }
        }
    }
}
pub mod oracle {
    use crate::consensus::historical_summaries::HistoricalSummaries;
    /// The network answers with some list of summaries, or not at all.
    #[derive(Debug, Clone, Default)]
    pub struct HeaderOracle {
        pub answer: Option<HistoricalSummaries>,
    }
    impl HeaderOracle {
        pub async fn get_historical_summary(&self, _epoch: u64) -> anyhow::Result<HistoricalSummaries> {
            match &self.answer {
                Some(a) => Ok(a.clone()),
                None => Err(anyhow::anyhow!("")),
            }
        }
    }
}
pub struct Asset {
    pub data: Vec<u8>,
}
pub struct TrinValidationAssets;
impl TrinValidationAssets {
    pub fn get(_: &str) -> Option<Asset> {
        None
    }
}
impl tree_hash::TreeHash for accumulator::PreMergeAccumulator {
    fn tree_hash_root(&self) -> alloy::primitives::B256 {
        Default::default()
    }
}
#[path = "/repo/crates/validation/src/accumulator.rs"]
pub mod accumulator;
#[path = "/repo/crates/validation/src/header_validator.rs"]
pub mod header_validator;
#[path = "/repo/crates/validation/src/historical_roots_acc.rs"]
pub mod historical_roots_acc;
#[path = "/repo/crates/validation/src/historical_summaries_provider.rs"]
pub mod historical_summaries_provider;

use accumulator::PreMergeAccumulator;
use alloy::{consensus::Header, primitives::B256};
use consensus::historical_summaries::*;
use core::mem::forget;
use header_validator::HeaderValidator;
use historical_roots_acc::HistoricalRootsAccumulator;
use historical_summaries_provider::*;
use merkle::proof::fact;
use ssz_types::{typenum::Unsigned, FixedVector, VariableList};
use std::sync::Arc;
use types::execution::header_with_proof::*;

const PARIS_BLOCK: u64 = 15_537_394;
const SHANGHAI_TIME: u64 = 1_681_338_455;
const CANCUN_TIME: u64 = 1_710_338_135;
const CAPELLA_SLOT: u64 = 194_048 * 32;
const PERIOD: u64 = 8192;
const EPOCHS: usize = 1897;

fn node() -> B256 {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&nd::any::<u64>().to_le_bytes());
    B256::from(b)
}
fn branch<N: Unsigned>() -> FixedVector<B256, N> {
    let mut v = zeroed(N::USIZE);
    let mut i = 0;
    while i < N::USIZE {
        v[i] = node();
        i += 1;
    }
    FixedVector::new(v).unwrap()
}
fn zeroed(n: usize) -> Vec<B256> {
    #[cfg(kani)]
    unsafe {
        let l = core::alloc::Layout::array::<B256>(n).unwrap();
        Vec::from_raw_parts(std::alloc::alloc_zeroed(l) as *mut B256, n, n)
    }
    #[cfg(not(kani))]
    vec![B256::ZERO; n]
}
/// Numbers and times around the era boundaries, natively; anything for the verifier.
fn header() -> Header {
    #[cfg(kani)]
    let (number, timestamp) = (nd::any(), nd::any());
    #[cfg(not(kani))]
    let (number, timestamp) = {
        let pick = |xs: &[u64]| -> u64 {
            let a: u64 = nd::any();
            let k = nd::below(xs.len() + 1);
            if nd::replaying() { a } else if k == xs.len() { a } else { (xs[k] + a % 3).wrapping_sub(1) }
        };
        (pick(&[0, 1, 8192, PARIS_BLOCK, PARIS_BLOCK - 8192, 15_000_000]), pick(&[1_600_000_000, SHANGHAI_TIME, CANCUN_TIME, SHANGHAI_TIME + 99]))
    };
    Header { number, timestamp, rest: nd::any(), ..Default::default() }
}
fn slot(first: u64) -> u64 {
    #[cfg(kani)]
    {
        let _ = first;
        nd::any()
    }
    #[cfg(not(kani))]
    {
        let a: u64 = nd::any();
        if nd::replaying() || a % 5 == 0 { a } else { (first + a % (5 * PERIOD)).wrapping_sub(PERIOD) }
    }
}
fn summaries<const N: usize>() -> HistoricalSummaries {
    let mut v = Vec::with_capacity(N);
    let mut i = 0;
    while i < N {
        v.push(HistoricalSummary { block_summary_root: node(), state_summary_root: node() });
        i += 1;
    }
    VariableList::from(v)
}
fn validator(epochs: Vec<B256>, roots: Vec<B256>, source: HistoricalSummariesSource) -> HeaderValidator {
    HeaderValidator {
        pre_merge_acc: PreMergeAccumulator { historical_epochs: VariableList::from(epochs) },
        historical_roots_acc: HistoricalRootsAccumulator { historical_roots: VariableList::from(roots) },
        historical_summaries_provider: HistoricalSummariesProvider::new(source),
    }
}
fn nothing() -> HistoricalSummariesSource {
    HistoricalSummariesSource::HistoricalSummaries(Default::default())
}
fn ask(v: &HeaderValidator, h: &HeaderWithProof) -> bool {
    let r = tokio::run(v.validate_header_with_proof(h));
    let ok = r.is_ok();
    forget(r);
    ok
}

fn pre_merge() {
    uf::reset();
    merkle::proof::forget_all();
    let header = header();
    let proof = branch();
    let mut epochs = zeroed(EPOCHS);
    epochs[0] = node();
    epochs[1] = node();
    epochs[EPOCHS - 1] = node();
    let want = {
        let era = header.number < PARIS_BLOCK;
        let e = if era { epochs[(header.number / PERIOD) as usize] } else { B256::ZERO };
        era & fact(header.hash_slow(), &proof, 15, (4 * PERIOD + 2 * (header.number % PERIOD)) as usize, e)
    };
    let v = validator(epochs, Vec::new(), nothing());
    let h = HeaderWithProof { header, proof: BlockHeaderProof::HistoricalHashes(proof) };
    let ok = ask(&v, &h);
    assert!(!ok || want, "P10.pre-merge-sound: pre-merge header accepted without its inclusion proof");
    assert!(ok || !want, "P10.pre-merge-complete: provable pre-merge header refused");
    nd::cover!(ok, "some pre-merge header is accepted");
    nd::cover!(!ok, "some pre-merge header is refused");
    forget((v, h));
}
fn roots() {
    uf::reset();
    merkle::proof::forget_all();
    let header = header();
    let p = BlockProofHistoricalRoots {
        beacon_block_proof: branch(),
        beacon_block_root: node(),
        execution_block_proof: branch(),
        slot: slot(0),
    };
    let mut roots = zeroed(3);
    roots[0] = node();
    roots[1] = node();
    roots[2] = node();
    let era = header.number >= PARIS_BLOCK && header.timestamp < SHANGHAI_TIME;
    let exec = fact(header.hash_slow(), &p.execution_block_proof, 11, 3228, p.beacon_block_root);
    let period = p.slot / PERIOD;
    let root = if period < 3 { roots[period as usize] } else { B256::ZERO };
    let beacon = fact(p.beacon_block_root, &p.beacon_block_proof, 14, (2 * PERIOD + p.slot % PERIOD) as usize, root);
    let want = era && exec && period < 3 && beacon;
    let v = validator(Vec::new(), roots, nothing());
    let h = HeaderWithProof { header, proof: BlockHeaderProof::HistoricalRoots(p) };
    let ok = ask(&v, &h);
    assert!(!ok || want, "P10.roots-sound: merge-to-Shanghai header accepted without a complete chain");
    assert!(ok || !want, "P10.roots-complete: provable merge-to-Shanghai header refused");
    nd::cover!(ok, "some merge-to-Shanghai header is accepted");
    nd::cover!(!ok, "some merge-to-Shanghai header is refused");
    forget((v, h));
}
fn summary_chain(header: &Header, exec_branch: &[B256], depth: usize, index: usize, root: B256, slot: u64, beacon: &[B256], list: &HistoricalSummaries) -> bool {
    let exec = fact(header.hash_slow(), exec_branch, depth, index, root);
    let k = slot.wrapping_sub(CAPELLA_SLOT) / PERIOD;
    let covered = slot >= CAPELLA_SLOT && k < list.len() as u64;
    let entry = if covered { list[k as usize].block_summary_root } else { B256::ZERO };
    let beacon = fact(root, beacon, 13, (PERIOD + slot % PERIOD) as usize, entry);
    exec && covered && beacon
}
fn capella() {
    uf::reset();
    merkle::proof::forget_all();
    let header = header();
    let p = BlockProofHistoricalSummariesCapella {
        beacon_block_proof: branch(),
        beacon_block_root: node(),
        execution_block_proof: branch(),
        slot: slot(CAPELLA_SLOT),
    };
    let list = summaries::<1>();
    let era = header.timestamp >= SHANGHAI_TIME && header.timestamp < CANCUN_TIME;
    let want = summary_chain(&header, &p.execution_block_proof, 11, 3228, p.beacon_block_root, p.slot, &p.beacon_block_proof, &list) && era;
    let v = validator(Vec::new(), Vec::new(), HistoricalSummariesSource::HistoricalSummaries(list));
    let h = HeaderWithProof { header, proof: BlockHeaderProof::HistoricalSummariesCapella(p) };
    let ok = ask(&v, &h);
    assert!(!ok || want, "P10.capella-sound: Shanghai-to-Cancun header accepted without a complete chain");
    assert!(ok || !want, "P10.capella-complete: provable Shanghai-to-Cancun header refused");
    nd::cover!(ok, "some Shanghai-to-Cancun header is accepted");
    nd::cover!(!ok, "some Shanghai-to-Cancun header is refused");
    forget((v, h));
}
fn deneb() {
    uf::reset();
    merkle::proof::forget_all();
    let header = header();
    let p = BlockProofHistoricalSummariesDeneb {
        beacon_block_proof: branch(),
        beacon_block_root: node(),
        execution_block_proof: branch(),
        slot: slot(CAPELLA_SLOT),
    };
    let list = summaries::<1>();
    let era = header.timestamp >= CANCUN_TIME;
    let want = summary_chain(&header, &p.execution_block_proof, 12, 6444, p.beacon_block_root, p.slot, &p.beacon_block_proof, &list) && era;
    let v = validator(Vec::new(), Vec::new(), HistoricalSummariesSource::HistoricalSummaries(list));
    let h = HeaderWithProof { header, proof: BlockHeaderProof::HistoricalSummariesDeneb(p) };
    let ok = ask(&v, &h);
    assert!(!ok || want, "P10.deneb-sound: post-Cancun header accepted without a complete chain");
    assert!(ok || !want, "P10.deneb-complete: provable post-Cancun header refused");
    nd::cover!(ok, "some post-Cancun header is accepted");
    nd::cover!(!ok, "some post-Cancun header is refused");
    forget((v, h));
}
/// The summary of a slot: from the cache or the source, always the entry of the slot's period.
fn provider(oracle: bool, known: bool) {
    let list = summaries::<2>();
    let (a, b) = (slot(CAPELLA_SLOT), slot(CAPELLA_SLOT));
    let want = [list[0].block_summary_root, list[1].block_summary_root];
    let source = if oracle {
        HistoricalSummariesSource::HeaderOracle(Arc::new(tokio::sync::RwLock::new(oracle::HeaderOracle { answer: if known { Some(list) } else { None } })))
    } else {
        HistoricalSummariesSource::HistoricalSummaries(list)
    };
    let p = HistoricalSummariesProvider::new(source);
    let mut i = 0;
    while i < 2 {
        let s = if i == 0 { a } else { b };
        let r = tokio::run(p.get_historical_summary(s));
        let k = s.wrapping_sub(CAPELLA_SLOT) / PERIOD;
        let covered = known && s >= CAPELLA_SLOT && k < 2;
        match &r {
            Ok(x) => {
                assert!(covered, "P10.summary-absent: summary returned for a slot that has none");
                assert!(x.block_summary_root == want[k as usize], "P10.summary-entry: summary of another period returned");
            }
            Err(_) => assert!(!covered, "P10.summary-found: summary of a covered slot not found"),
        }
        forget(r);
        i += 1;
    }
    forget(p);
}

nd::harnesses! {
    #[cfg_attr(kani, kani::solver(z3))]
    fn p10_pre_merge(unwind = 18) { pre_merge() }
    fn p10_roots(unwind = 18) { roots() }
    #[cfg_attr(kani, kani::solver(minisat))]
    fn p10_capella(unwind = 18) { capella() }
    #[cfg_attr(kani, kani::solver(minisat))]
    fn p10_deneb(unwind = 18) { deneb() }
    fn p10_provider(unwind = 4) { provider(false, true) }
    fn p10_provider_network(unwind = 4) { provider(true, true) }
    fn p10_provider_silent(unwind = 4) { provider(true, false) }
}
