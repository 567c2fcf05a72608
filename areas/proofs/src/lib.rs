#![allow(dead_code, unused_imports, unused_macros, clippy::all)]
extern crate vstd as std;
extern crate self as eth_trie;
extern crate self as ethportal_api;
extern crate self as trin_validation;

use alloy::primitives::B256;
use core::mem::forget;
use std::sync::Arc;

#[cfg(kani)]
macro_rules! format { ($($t:tt)*) => { String::new() } }

// ---- trie nodes, known only by where they lead ------------------------------------------------

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TrieError;
impl core::fmt::Display for TrieError {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for TrieError {}
pub mod node {
    #[derive(Clone, Copy)]
    pub struct Node(pub &'static crate::Entry);
}
use node::*;

pub mod types {
    pub mod state_trie {
        #[path = "/repo/crates/ethportal-api/src/types/state_trie/nibbles.rs"]
        pub mod nibbles;
        pub mod trie_traversal {
            include!(concat!(env!("OUT_DIR"), "/trie_traversal.rs"));
            impl NodeTraversal for Node {
                fn traverse<'path>(&self, path: &'path [u8]) -> TraversalResult<'path> {
                    let o = crate::outcome(self.0, path);
                    match o.t {
                        crate::T::Empty => TraversalResult::Empty(EmptyNodeInfo::EmptyNode),
                        crate::T::Malformed => TraversalResult::Error(TraversalError::InvalidLeafKey),
                        crate::T::Value => TraversalResult::Value(o.value.iter().collect()),
                        crate::T::Node => TraversalResult::Node(NextTraversalNode { hash: crate::hash(o.x), remaining_path: &path[o.cut..] }),
                    }
                }
            }
        }
        pub mod account_state {
            use alloy::primitives::B256;
            /// The account a value encodes; a value whose first byte is not 1 encodes none.
            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct AccountState {
                pub storage_root: B256,
                pub code_hash: B256,
            }
            impl alloy::rlp::Decodable for AccountState {
                fn decode(b: &mut &[u8]) -> Result<Self, alloy::rlp::Error> {
                    if b.len() != 17 || b[0] != 1 {
                        return Err(alloy::rlp::Error::Custom("value"));
                    }
                    Ok(AccountState { storage_root: crate::short(&b[1..9]), code_hash: crate::short(&b[9..17]) })
                }
            }
        }
        /// An encoded node: whether it decodes and its hash are arbitrary.
        #[derive(Clone)]
        pub struct EncodedTrieNode(pub &'static crate::Entry);
        impl EncodedTrieNode {
            pub fn node_hash(&self) -> alloy::primitives::B256 {
                crate::hash_of(self.0)
            }
            pub fn as_trie_node(&self) -> Result<crate::node::Node, crate::TrieError> {
                crate::decoded(self.0)
            }
        }
        /// The nodes of a proof: a list, as the decoded type is.
        #[derive(Clone)]
        pub struct TrieProof(pub &'static [EncodedTrieNode]);
        impl core::ops::Deref for TrieProof {
            type Target = [EncodedTrieNode];
            fn deref(&self) -> &[EncodedTrieNode] {
                self.0
            }
        }
        impl<'a> IntoIterator for &'a TrieProof {
            type Item = &'a EncodedTrieNode;
            type IntoIter = core::slice::Iter<'a, EncodedTrieNode>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.iter()
            }
        }
    }
    pub mod content_key {
        pub mod state {
            use crate::types::state_trie::nibbles::Nibbles;
            use alloy::primitives::B256;
            #[derive(Debug, Clone)]
            pub struct AccountTrieNodeKey {
                pub path: Nibbles,
                pub node_hash: B256,
            }
            #[derive(Debug, Clone)]
            pub struct ContractStorageTrieNodeKey {
                pub address_hash: B256,
                pub path: Nibbles,
                pub node_hash: B256,
            }
            #[derive(Debug, Clone)]
            pub struct ContractBytecodeKey {
                pub address_hash: B256,
                pub code_hash: B256,
            }
        }
    }
}
use types::{content_key::state::*, state_trie::*};

#[derive(Debug, Clone)]
#[repr(u8)]
pub enum StateContentKey {
    AccountTrieNode(AccountTrieNodeKey),
    ContractStorageTrieNode(ContractStorageTrieNodeKey),
    ContractBytecode(ContractBytecodeKey),
}
pub trait OverlayContentKey {
    fn to_hex(&self) -> String {
        String::new()
    }
}
impl OverlayContentKey for StateContentKey {}
pub struct TrieNode {
    pub node: EncodedTrieNode,
}
pub struct AccountTrieNodeWithProof {
    pub proof: TrieProof,
    pub block_hash: B256,
}
pub struct ContractStorageTrieNodeWithProof {
    pub storage_proof: TrieProof,
    pub account_proof: TrieProof,
    pub block_hash: B256,
}
pub struct ContractBytecode {
    pub code: &'static [u8],
}
pub struct ContractBytecodeWithProof {
    pub code: &'static [u8],
    pub account_proof: TrieProof,
    pub block_hash: B256,
}
#[repr(u8)]
pub enum StateContentValue {
    TrieNode(TrieNode),
    AccountTrieNodeWithProof(AccountTrieNodeWithProof),
    ContractStorageTrieNodeWithProof(ContractStorageTrieNodeWithProof),
    ContractBytecode(ContractBytecode),
    ContractBytecodeWithProof(ContractBytecodeWithProof),
}
/// Decoding of values (its own codec): the harness gives the decoded value.
pub trait ContentValue: Sized {
    fn decode(key: &StateContentKey, b: &[u8]) -> Result<Self, ()>;
}
impl ContentValue for StateContentValue {
    fn decode(_: &StateContentKey, _: &[u8]) -> Result<Self, ()> {
        Ok(crate::given())
    }
}
pub mod oracle {
    use alloy::primitives::B256;
    pub struct OracleHeader {
        pub state_root: B256,
    }
    pub struct OracleHeaderWithProof {
        pub header: OracleHeader,
    }
    pub struct HeaderOracle;
    impl HeaderOracle {
        pub async fn recursive_find_header_by_hash_with_proof(&self, h: B256) -> anyhow::Result<OracleHeaderWithProof> {
            Ok(OracleHeaderWithProof { header: OracleHeader { state_root: crate::state_root(h) } })
        }
    }
}
pub mod validator {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum ValidationResult {
        CanonicallyValid,
        Valid,
        Invalid(String),
    }
    #[allow(async_fn_in_trait)]
    pub trait Validator<K> {
        async fn validate_content(&self, content_key: &K, content_value: &[u8]) -> ValidationResult;
    }
}
pub mod validation {
    #[path = "/repo/crates/subnetworks/state/src/validation/error.rs"]
    pub mod error;
    pub mod trie {
        include!(concat!(env!("OUT_DIR"), "/trie.rs"));
    }
}
/// The validator over the contracts of the two proof checks instead of their code.
pub mod over_contracts {
    pub use crate::validation::error;
    pub mod trie {
        use super::error::StateValidationError;
        use crate::types::state_trie::{account_state::AccountState, nibbles::Nibbles, TrieProof};
        use alloy::primitives::B256;
        pub fn validate_node_trie_proof(root: Option<B256>, node: B256, path: &Nibbles, proof: &TrieProof) -> Result<(), StateValidationError> {
            if crate::node_proven(root, node, path.nibbles(), proof) { Ok(()) } else { Err(StateValidationError::PathTooLong) }
        }
        pub fn validate_account_state(root: Option<B256>, address: &B256, proof: &TrieProof) -> Result<AccountState, StateValidationError> {
            match crate::account_proven(root, address, proof) {
                Some((storage_root, code_hash)) => Ok(AccountState { storage_root, code_hash }),
                None => Err(StateValidationError::UnexpectedValue),
            }
        }
    }
    pub mod state_validator {
        include!(concat!(env!("OUT_DIR"), "/validator.rs"));
    }
}

include!("spec.rs");
