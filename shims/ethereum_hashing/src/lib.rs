//! The ethereum_hashing functions trin uses, over an arbitrary hash function.

pub fn hash(input: &[u8]) -> Vec<u8> {
    uf::hash(input).to_vec()
}

pub fn hash_fixed(input: &[u8]) -> [u8; 32] {
    uf::hash(input)
}

pub fn hash32_concat(h1: &[u8], h2: &[u8]) -> [u8; 32] {
    assert!(h1.len() == 32 && h2.len() == 32);
    uf::hash2(h1, h2)
}

/// `ZERO_HASHES[0]` is 32 zero bytes, `ZERO_HASHES[i + 1] = hash(ZERO_HASHES[i] ++ ZERO_HASHES[i])`.
pub struct ZeroHashes;
pub static ZERO_HASHES: ZeroHashes = ZeroHashes;
pub const ZERO_HASHES_MAX_INDEX: usize = 48;

impl core::ops::Index<usize> for ZeroHashes {
    type Output = Vec<u8>;
    fn index(&self, depth: usize) -> &Vec<u8> {
        assert!(depth <= ZERO_HASHES_MAX_INDEX);
        let mut z = [0u8; 32];
        let mut i = 0;
        while i < depth {
            z = uf::hash2(&z, &z);
            i += 1;
        }
        Box::leak(Box::new(z.to_vec()))
    }
}
