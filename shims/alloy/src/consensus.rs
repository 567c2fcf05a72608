use crate::primitives::{Bytes, B256, U256};

/// Execution header: the fields the verified code reads; `rest` stands for all others.
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Header {
    pub parent_hash: B256,
    pub state_root: B256,
    pub transactions_root: B256,
    pub receipts_root: B256,
    pub withdrawals_root: Option<B256>,
    pub difficulty: U256,
    pub number: u64,
    pub gas_used: u64,
    pub timestamp: u64,
    pub extra_data: Bytes,
    pub rest: u64,
}

impl Header {
    /// keccak of the encoding: some function of the whole header (`rest` identifies it; number and
    /// timestamp are listed so that headers differing in them are different inputs).
    pub fn hash_slow(&self) -> B256 {
        B256::from(uf::tagged(200, [self.number as u128, self.timestamp as u128, self.rest as u128, 0]))
    }
}
