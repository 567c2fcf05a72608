#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
extern crate vstd as std;
extern crate self as eth_trie;
extern crate self as ethportal_api;
extern crate self as trin_validation;

use alloy::primitives::B256;
use core::mem::forget;
use std::sync::Arc;

#[cfg(kani)]
macro_rules! format { ($($t:tt)*) => { String::new() } }

// ---- decoded trie nodes, as the trie crate defines them -------------------------------------

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TrieError;
impl core::fmt::Display for TrieError {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for TrieError {}
/// Data of decoded nodes lives in static storage and is never dropped: nodes then have no recursive
/// drop, and the verifier sees their shape. Natively references, for the verifier positions.
pub struct P<T: Pooled>(T::At);
pub trait Pooled: Sized + 'static {
    type At: Copy;
    fn keep(self) -> Self::At;
    fn at(i: Self::At) -> &'static Self;
}
impl<T: Pooled> P<T> {
    pub fn new(x: T) -> Self {
        P(x.keep())
    }
    /// Shared nodes are behind a lock in the trie crate.
    pub fn read(&self) -> Result<&T, ()> {
        Ok(T::at(self.0))
    }
}
impl<T: Pooled> Clone for P<T> {
    fn clone(&self) -> Self {
        P(self.0)
    }
}
impl<T: Pooled> core::ops::Deref for P<T> {
    type Target = T;
    fn deref(&self) -> &T {
        T::at(self.0)
    }
}
#[cfg(not(kani))]
impl<T: 'static> Pooled for T {
    type At = &'static T;
    fn keep(self) -> &'static T {
        Box::leak(Box::new(self))
    }
    fn at(i: &'static T) -> &'static T {
        i
    }
}
/// A byte list of up to 64 bytes.
pub struct Bytes64([u8; 64]);
pub struct List(P<Bytes64>, usize);
impl List {
    pub fn of(b: &[u8]) -> Self {
        let mut a = [0u8; 64];
        a[..b.len()].copy_from_slice(b);
        List(P::new(Bytes64(a)), b.len())
    }
}
impl Clone for List {
    fn clone(&self) -> Self {
        List(self.0.clone(), self.1)
    }
}
impl core::ops::Deref for List {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &Bytes64::at(self.0 .0).0[..self.1]
    }
}
impl AsRef<[u8]> for List {
    fn as_ref(&self) -> &[u8] {
        self
    }
}
impl<'a> IntoIterator for &'a List {
    type Item = &'a u8;
    type IntoIter = core::slice::Iter<'a, u8>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl From<List> for alloy::primitives::Bytes {
    fn from(l: List) -> Self {
        l.iter().collect()
    }
}
pub mod node {
    use crate::{List, P};
    use alloy::primitives::B256;
    #[derive(Clone)]
    pub enum Node {
        Empty,
        Leaf(P<LeafNode>),
        Extension(P<ExtensionNode>),
        Branch(P<BranchNode>),
        Hash(P<HashNode>),
    }
    #[derive(Clone)]
    pub struct KeyNibbles(pub List);
    impl KeyNibbles {
        pub fn get_data(&self) -> &[u8] {
            &self.0
        }
        pub fn is_leaf(&self) -> bool {
            self.0.last() == Some(&16)
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
    }
    pub struct LeafNode {
        pub key: KeyNibbles,
        pub value: List,
    }
    pub struct ExtensionNode {
        pub prefix: KeyNibbles,
        pub node: Node,
    }
    pub struct BranchNode {
        pub children: [Node; 16],
        pub value: Option<List>,
    }
    pub struct HashNode {
        pub hash: B256,
    }
}
use node::*;
#[cfg(kani)]
mod pool {
    use super::{node::*, Bytes64, List, Pooled, P};
    use alloy::primitives::B256;
    macro_rules! pool {
        ($t:ty, $n:ident, $c:ident, $size:literal, $init:expr, $unusual:literal) => {
            // Initial values are set before use; they are unusual because the verifier may merge a static with constants of the same bytes.
            static mut $n: [$t; $size] = [const { $init }; $size];
            static mut $c: usize = $unusual;
            impl Pooled for $t {
                type At = usize;
                fn keep(self) -> usize {
                    unsafe {
                        let i = $c;
                        assert!(i < $size, "model capacity exceeded");
                        core::ptr::write(core::ptr::addr_of_mut!($n[i]), self);
                        $c = i + 1;
                        i
                    }
                }
                fn at(i: usize) -> &'static Self {
                    unsafe { &*core::ptr::addr_of!($n[i]) }
                }
            }
        };
    }
    const L: List = List(P(0), 0);
    const N: Node = Node::Empty;
    pool!(Bytes64, BYTES, NBYTES, 60, Bytes64([77; 64]), 0x5eed_0021);
    pool!(LeafNode, LEAVES, NLEAVES, 24, LeafNode { key: KeyNibbles(L), value: L }, 0x5eed_0022);
    pool!(HashNode, HASHES, NHASHES, 48, HashNode { hash: B256::repeat_byte(78) }, 0x5eed_0023);
    pool!(ExtensionNode, EXTENSIONS, NEXTENSIONS, 6, ExtensionNode { prefix: KeyNibbles(L), node: N }, 0x5eed_0024);
    pool!(BranchNode, BRANCHES, NBRANCHES, 8, BranchNode { children: [N, N, N, N, N, N, N, N, N, N, N, N, N, N, N, N], value: None }, 0x5eed_0025);
    pub fn reset() {
        unsafe {
            NBYTES = 0;
            NLEAVES = 0;
            NHASHES = 0;
            NEXTENSIONS = 0;
            NBRANCHES = 0;
        }
    }
}
#[cfg(not(kani))]
mod pool {
    pub fn reset() {}
}

pub mod types {
    pub mod state_trie {
        #[path = "/repo/crates/ethportal-api/src/types/state_trie/nibbles.rs"]
        pub mod nibbles;
        #[path = "/repo/crates/ethportal-api/src/types/state_trie/trie_traversal.rs"]
        pub mod trie_traversal;
        pub mod account_state {
            use alloy::primitives::B256;
            /// The account a value encodes; a value whose first byte is not 1 encodes none.
            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct AccountState {
                pub storage_root: B256,
                pub code_hash: B256,
            }
            impl alloy::rlp::Decodable for AccountState {
                fn decode(b: &mut &[u8]) -> Result<Self, alloy::rlp::Error> {
                    if b.len() != 17 || b[0] != 1 {
                        return Err(alloy::rlp::Error::Custom("value"));
                    }
                    Ok(AccountState { storage_root: crate::short(&b[1..9]), code_hash: crate::short(&b[9..17]) })
                }
            }
        }
        /// An encoded node: what it decodes to is given; its hash is an arbitrary function of it.
        #[derive(Clone)]
        pub struct EncodedTrieNode(pub crate::Shape);
        impl EncodedTrieNode {
            pub fn node_hash(&self) -> alloy::primitives::B256 {
                crate::hash_of(&self.0)
            }
            pub fn as_trie_node(&self) -> Result<crate::node::Node, crate::TrieError> {
                crate::decoded(&self.0)
            }
        }
        #[derive(Clone)]
        pub struct TrieProof(pub Vec<EncodedTrieNode>);
        impl core::ops::Deref for TrieProof {
            type Target = [EncodedTrieNode];
            fn deref(&self) -> &[EncodedTrieNode] {
                &self.0
            }
        }
        impl<'a> IntoIterator for &'a TrieProof {
            type Item = &'a EncodedTrieNode;
            type IntoIter = core::slice::Iter<'a, EncodedTrieNode>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.iter()
            }
        }
    }
    pub mod content_key {
        pub mod state {
            use crate::types::state_trie::nibbles::Nibbles;
            use alloy::primitives::B256;
            #[derive(Debug, Clone)]
            pub struct AccountTrieNodeKey {
                pub path: Nibbles,
                pub node_hash: B256,
            }
            #[derive(Debug, Clone)]
            pub struct ContractStorageTrieNodeKey {
                pub address_hash: B256,
                pub path: Nibbles,
                pub node_hash: B256,
            }
            #[derive(Debug, Clone)]
            pub struct ContractBytecodeKey {
                pub address_hash: B256,
                pub code_hash: B256,
            }
        }
    }
}
use types::{content_key::state::*, state_trie::*};

#[derive(Debug, Clone)]
pub enum StateContentKey {
    AccountTrieNode(AccountTrieNodeKey),
    ContractStorageTrieNode(ContractStorageTrieNodeKey),
    ContractBytecode(ContractBytecodeKey),
}
pub trait OverlayContentKey {
    fn to_hex(&self) -> String {
        String::new()
    }
}
impl OverlayContentKey for StateContentKey {}
pub struct TrieNode {
    pub node: EncodedTrieNode,
}
pub struct AccountTrieNodeWithProof {
    pub proof: TrieProof,
    pub block_hash: B256,
}
pub struct ContractStorageTrieNodeWithProof {
    pub storage_proof: TrieProof,
    pub account_proof: TrieProof,
    pub block_hash: B256,
}
pub struct ContractBytecode {
    pub code: Vec<u8>,
}
pub struct ContractBytecodeWithProof {
    pub code: Vec<u8>,
    pub account_proof: TrieProof,
    pub block_hash: B256,
}
pub enum StateContentValue {
    TrieNode(TrieNode),
    AccountTrieNodeWithProof(AccountTrieNodeWithProof),
    ContractStorageTrieNodeWithProof(ContractStorageTrieNodeWithProof),
    ContractBytecode(ContractBytecode),
    ContractBytecodeWithProof(ContractBytecodeWithProof),
}
/// Decoding of values (its own codec): the harness gives the decoded value.
static mut VALUE: Option<StateContentValue> = None;
pub trait ContentValue: Sized {
    fn decode(key: &StateContentKey, b: &[u8]) -> Result<Self, ()>;
}
impl ContentValue for StateContentValue {
    fn decode(_: &StateContentKey, _: &[u8]) -> Result<Self, ()> {
        unsafe { (*core::ptr::addr_of_mut!(VALUE)).take().ok_or(()) }
    }
}
pub mod oracle {
    use alloy::primitives::B256;
    pub struct OracleHeader {
        pub state_root: B256,
    }
    pub struct OracleHeaderWithProof {
        pub header: OracleHeader,
    }
    pub struct HeaderOracle;
    impl HeaderOracle {
        pub async fn recursive_find_header_by_hash_with_proof(&self, h: B256) -> anyhow::Result<OracleHeaderWithProof> {
            Ok(OracleHeaderWithProof { header: OracleHeader { state_root: crate::state_root(h) } })
        }
    }
}
pub mod validator {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum ValidationResult {
        CanonicallyValid,
        Valid,
        Invalid(String),
    }
    #[allow(async_fn_in_trait)]
    pub trait Validator<K> {
        async fn validate_content(&self, content_key: &K, content_value: &[u8]) -> ValidationResult;
    }
}
pub mod validation {
    #[path = "/repo/crates/subnetworks/state/src/validation/error.rs"]
    pub mod error;
    pub mod trie {
        include!(concat!(env!("OUT_DIR"), "/trie.rs"));
    }
    pub mod state_validator {
        include!(concat!(env!("OUT_DIR"), "/validator.rs"));
    }
}

include!("spec.rs");
