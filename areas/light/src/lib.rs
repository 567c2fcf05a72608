#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
extern crate vstd as std;
extern crate self as chrono;
extern crate self as ethportal_api;
extern crate self as milagro_bls;
extern crate self as trin_validation;

use alloy::primitives::{FixedBytes, B256};
use tree_hash::TreeHash;

#[cfg(kani)]
macro_rules! format { ($($t:tt)*) => { String::new() } }

// ---- collaborators -------------------------------------------------------------------------

/// `chrono::Duration`: only read for log lines and the poll interval.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Duration(i64);
impl Duration {
    pub fn from_std(d: core::time::Duration) -> Result<Self, ()> {
        Ok(Duration(d.as_secs() as i64))
    }
    pub fn seconds(s: i64) -> Self {
        Duration(s)
    }
    pub fn num_seconds(&self) -> i64 {
        self.0
    }
    pub fn num_minutes(&self) -> i64 {
        self.0 / 60
    }
    pub fn num_hours(&self) -> i64 {
        self.0 / 3600
    }
    pub fn num_days(&self) -> i64 {
        self.0 / 86400
    }
}

/// BLS: an arbitrary relation between message, signers and signature. A signature whose first byte
/// is zero is malformed.
#[derive(Clone, Debug, PartialEq)]
pub struct PublicKey(u64);
impl PublicKey {
    pub fn from_bytes_unchecked(b: &[u8]) -> Result<Self, ()> {
        let mut a = [0u8; 8];
        a.copy_from_slice(b);
        Ok(PublicKey(u64::from_le_bytes(a)))
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, ()> {
        Self::from_bytes_unchecked(b)
    }
}
pub struct AggregateSignature([u8; 8]);
impl AggregateSignature {
    pub fn from_bytes(b: &[u8]) -> Result<Self, ()> {
        let mut a = [0u8; 8];
        a.copy_from_slice(b);
        if a[0] == 0 {
            return Err(());
        }
        Ok(AggregateSignature(a))
    }
    pub fn fast_aggregate_verify(&self, msg: &[u8], pks: &[&PublicKey]) -> bool {
        let mut m = [0u8; 32];
        m.copy_from_slice(msg);
        let mut acc = no_signers();
        let mut i = 0;
        while i < pks.len() {
            acc = add_signer(acc, pks[i].0);
            i += 1;
        }
        signed(&m, acc, &self.0)
    }
}
/// The set of signers, as the list of their keys in order.
fn no_signers() -> u128 {
    0
}
fn add_signer(acc: u128, key: u64) -> u128 {
    low(&uf::tagged(211, [acc, key as u128, 0, 0]))
}
fn low(b: &[u8]) -> u128 {
    let mut x = [0u8; 16];
    x.copy_from_slice(&b[..16]);
    u128::from_le_bytes(x)
}
fn signed(msg: &[u8; 32], signers: u128, sig: &[u8; 8]) -> bool {
    uf::tagged(212, [low(&msg[..]), low(&msg[16..]), signers, u64::from_le_bytes(*sig) as u128])[0] & 1 == 1
}

/// How many keys of a committee are represented; the verifier draws participants among these.
#[cfg(kani)]
const KEYS: usize = 4;
#[cfg(not(kani))]
const KEYS: usize = 512;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct PubKey([u8; 8]);
impl AsRef<[u8]> for PubKey {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

pub mod merkle {
    #[path = "/repo/crates/validation/src/merkle/proof.rs"]
    pub mod proof;
    #[path = "/repo/crates/validation/src/merkle/safe_arith.rs"]
    pub mod safe_arith;
}
#[path = "/repo/crates/light-client/src/utils.rs"]
pub mod utils;
pub mod config {
    #[path = "/repo/crates/light-client/src/config/types.rs"]
    pub mod types;
    pub use types::*;
    pub mod client_config {
        use crate::config::{ChainConfig, Forks};
        include!(concat!(env!("OUT_DIR"), "/client_config.rs"));
    }
}
/// Subscribers of verified updates; what is sent to them is recorded by kind only.
pub mod watch {
    use core::{cell::Cell, marker::PhantomData};
    #[derive(Debug)]
    pub struct Sender<T>(Cell<u32>, PhantomData<T>);
    unsafe impl<T> Sync for Sender<T> {}
    impl<T> Sender<T> {
        pub fn new() -> Self {
            Sender(Cell::new(0), PhantomData)
        }
        pub fn send_replace(&self, x: T) {
            core::mem::forget(x);
            self.0.set(self.0.get() + 1);
        }
        pub fn sent(&self) -> u32 {
            self.0.get()
        }
    }
    use crate::light_client::{finality_update::*, optimistic_update::*, update::*};
    #[derive(Debug)]
    pub struct LightClientWatchSenders {
        pub update: Sender<Option<LightClientUpdate>>,
        pub optimistic_update: Sender<Option<LightClientOptimisticUpdate>>,
        pub finality_update: Sender<Option<LightClientFinalityUpdate>>,
    }
    pub struct LightClientWatchReceivers;
    impl LightClientWatchSenders {
        pub fn subscribe(&self) -> LightClientWatchReceivers {
            LightClientWatchReceivers
        }
    }
    pub fn light_client_watch_channels() -> (LightClientWatchSenders, LightClientWatchReceivers) {
        (
            LightClientWatchSenders { update: Sender::new(), optimistic_update: Sender::new(), finality_update: Sender::new() },
            LightClientWatchReceivers,
        )
    }
}
pub mod types {
    pub use crate::consensus as consensus;
}
pub mod light_client {
    use super::consensus::{body::SyncAggregate, header::BeaconBlockHeader, sync_committee::SyncCommittee};
    use alloy::primitives::B256;
    use ssz_types::{typenum::*, FixedVector};
    pub mod header {
        #[derive(Clone, Debug, Default, PartialEq)]
        pub struct LightClientHeaderElectra {
            pub beacon: super::BeaconBlockHeader,
        }
    }
    use header::LightClientHeaderElectra;
    pub mod bootstrap {
        use super::*;
        pub type CurrentSyncCommitteeProofLenElectra = U6;
        #[derive(Clone, Debug)]
        pub struct LightClientBootstrapElectra {
            pub header: LightClientHeaderElectra,
            pub current_sync_committee: SyncCommittee,
            pub current_sync_committee_branch: FixedVector<B256, U6>,
        }
    }
    macro_rules! kinds {
        ($e:ident $t:ident) => {
            #[derive(Clone, Debug)]
            pub enum $e {
                Electra($t),
            }
            impl From<$t> for $e {
                fn from(x: $t) -> Self {
                    $e::Electra(x)
                }
            }
        };
    }
    pub mod update {
        use super::*;
        pub type FinalizedRootProofLenElectra = U7;
        #[derive(Clone, Debug)]
        pub struct LightClientUpdateElectra {
            pub attested_header: LightClientHeaderElectra,
            pub next_sync_committee: SyncCommittee,
            pub next_sync_committee_branch: FixedVector<B256, U6>,
            pub finalized_header: LightClientHeaderElectra,
            pub finality_branch: FixedVector<B256, U7>,
            pub sync_aggregate: SyncAggregate,
            pub signature_slot: u64,
        }
        kinds!(LightClientUpdate LightClientUpdateElectra);
    }
    pub mod finality_update {
        use super::*;
        #[derive(Clone, Debug)]
        pub struct LightClientFinalityUpdateElectra {
            pub attested_header: LightClientHeaderElectra,
            pub finalized_header: LightClientHeaderElectra,
            pub finality_branch: FixedVector<B256, U7>,
            pub sync_aggregate: SyncAggregate,
            pub signature_slot: u64,
        }
        kinds!(LightClientFinalityUpdate LightClientFinalityUpdateElectra);
    }
    pub mod optimistic_update {
        use super::*;
        #[derive(Clone, Debug)]
        pub struct LightClientOptimisticUpdateElectra {
            pub attested_header: LightClientHeaderElectra,
            pub sync_aggregate: SyncAggregate,
            pub signature_slot: u64,
        }
        kinds!(LightClientOptimisticUpdate LightClientOptimisticUpdateElectra);
    }
    pub mod store {
        include!(concat!(env!("OUT_DIR"), "/store.rs"));
    }
}

pub mod consensus {
    // ---- types of the API crate
    #[path = "/repo/crates/ethportal-api/src/types/consensus/constants.rs"]
    mod api_constants;
    pub mod header {
        use alloy::primitives::B256;
        use serde::{Deserialize, Serialize};
        use ssz_derive::{Decode, Encode};
        use tree_hash_derive::TreeHash;
        include!(concat!(env!("OUT_DIR"), "/header.rs"));
    }
    pub mod signature {
        #[derive(Clone, Debug, Default, PartialEq)]
        pub struct BlsSignature {
            pub signature: [u8; 8],
        }
    }
    pub mod body {
        use ssz_types::{typenum::U512, BitVector};
        #[derive(Clone, Debug, PartialEq)]
        pub struct SyncAggregate {
            pub sync_committee_bits: BitVector<U512>,
            pub sync_committee_signature: super::signature::BlsSignature,
        }
    }
    pub mod sync_committee {
        use alloy::primitives::B256;
        #[derive(Clone, Debug, PartialEq)]
        pub struct SyncCommittee {
            pub pubkeys: [crate::PubKey; crate::KEYS],
        }
        impl Default for SyncCommittee {
            fn default() -> Self {
                SyncCommittee { pubkeys: [crate::PubKey([0; 8]); crate::KEYS] }
            }
        }
        impl SyncCommittee {
            /// The committee a seed stands for; different seeds, different keys.
            pub fn seeded(seed: [u64; 4]) -> Self {
                let mut c = Self::default();
                let mut i = 0;
                while i < crate::KEYS {
                    c.pubkeys[i] = crate::PubKey((seed[i % 4] ^ (i as u64 / 4) << 40).to_le_bytes());
                    i += 1;
                }
                c
            }
        }
        impl tree_hash::TreeHash for SyncCommittee {
            fn tree_hash_root(&self) -> B256 {
                let k = |i: usize| u64::from_le_bytes(self.pubkeys[i].0) as u128;
                B256::from(uf::tagged(213, [k(0), k(1), k(2), k(3)]))
            }
        }
    }
    // ---- the light client
    pub mod constants {
        pub use super::api_constants::*;
        include!("/repo/crates/light-client/src/consensus/constants.rs");
    }
    #[path = "/repo/crates/light-client/src/consensus/errors.rs"]
    pub mod errors;
    #[path = "/repo/crates/light-client/src/consensus/utils.rs"]
    pub mod utils;
    pub mod types {
        include!(concat!(env!("OUT_DIR"), "/types.rs"));
    }
    pub mod rpc {
        use super::types::*;
        use alloy::primitives::B256;
        use anyhow::Result;
        pub mod portal_rpc {
            include!(concat!(env!("OUT_DIR"), "/portal_rpc.rs"));
        }
        #[allow(async_fn_in_trait)]
        pub trait ConsensusRpc: Send + Sync + Clone {
            fn new(path: &str) -> Self;
            async fn get_bootstrap(&self, block_root: B256) -> Result<LightClientBootstrapElectra>;
            async fn get_updates(&self, period: u64, count: u8) -> Result<Vec<LightClientUpdateElectra>>;
            async fn get_finality_update(&self) -> Result<LightClientFinalityUpdateElectra>;
            async fn get_optimistic_update(&self) -> Result<LightClientOptimisticUpdateElectra>;
            async fn chain_id(&self) -> Result<u64>;
            fn name(&self) -> String;
        }
    }
    pub mod consensus_client {
        include!(concat!(env!("OUT_DIR"), "/consensus_client.rs"));
        /// Access to private state and functions, for the harnesses.
        pub mod contract {
            use super::*;
            pub fn client<R: ConsensusRpc>(rpc: R, store: LightClientStore, checkpoint: B256, config: Arc<Config>) -> ConsensusLightClient<R> {
                let mut c = ConsensusLightClient::with_custom_rpc(rpc, checkpoint, config);
                core::mem::forget(core::mem::replace(&mut c.store, store));
                c
            }
            pub fn store<R: ConsensusRpc>(c: &ConsensusLightClient<R>) -> &LightClientStore {
                &c.store
            }
            pub fn verify_update<R: ConsensusRpc>(c: &ConsensusLightClient<R>, u: &LightClientUpdateElectra) -> Result<()> {
                c.verify_update(u)
            }
            pub fn verify_finality_update<R: ConsensusRpc>(c: &ConsensusLightClient<R>, u: &LightClientFinalityUpdateElectra) -> Result<()> {
                c.verify_finality_update(u)
            }
            pub fn verify_optimistic_update<R: ConsensusRpc>(c: &ConsensusLightClient<R>, u: &LightClientOptimisticUpdateElectra) -> Result<()> {
                c.verify_optimistic_update(u)
            }
            pub fn apply_update<R: ConsensusRpc>(c: &mut ConsensusLightClient<R>, u: &LightClientUpdateElectra) {
                c.apply_update(u)
            }
            pub fn apply_finality_update<R: ConsensusRpc>(c: &mut ConsensusLightClient<R>, u: &LightClientFinalityUpdateElectra) {
                c.apply_finality_update(u)
            }
            pub fn apply_optimistic_update<R: ConsensusRpc>(c: &mut ConsensusLightClient<R>, u: &LightClientOptimisticUpdateElectra) {
                c.apply_optimistic_update(u)
            }
            pub async fn bootstrap<R: ConsensusRpc>(c: &mut ConsensusLightClient<R>) -> Result<()> {
                c.bootstrap().await
            }
        }
    }
}

include!("spec.rs");
