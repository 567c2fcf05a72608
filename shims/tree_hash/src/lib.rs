//! Interface of SSZ merkleisation.
pub type Hash256 = alloy::primitives::B256;
pub enum TreeHashType {
    Basic,
    Vector,
    List,
    Container,
}
pub type PackedEncoding = Vec<u8>;
pub trait TreeHash {
    fn tree_hash_type() -> TreeHashType {
        TreeHashType::Container
    }
    fn tree_hash_packed_encoding(&self) -> PackedEncoding {
        unreachable!()
    }
    fn tree_hash_packing_factor() -> usize {
        unreachable!()
    }
    fn tree_hash_root(&self) -> Hash256;
}

/// Root of a chunk tree: the leaves, padded with zero chunks to a power of two.
pub fn container<const N: usize>(roots: [Hash256; N]) -> Hash256 {
    let mut a = [Hash256::ZERO; 8];
    assert!(N <= 8, "model capacity exceeded");
    let mut i = 0;
    while i < N {
        a[i] = roots[i];
        i += 1;
    }
    let mut n = N.next_power_of_two();
    while n > 1 {
        let mut i = 0;
        while i < n / 2 {
            a[i] = Hash256::from(uf::hash2(&a[2 * i].0, &a[2 * i + 1].0));
            i += 1;
        }
        n /= 2;
    }
    a[0]
}
impl TreeHash for u64 {
    fn tree_hash_root(&self) -> Hash256 {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&self.to_le_bytes());
        Hash256::from(b)
    }
}
impl<const N: usize> TreeHash for alloy::primitives::FixedBytes<N> {
    fn tree_hash_root(&self) -> Hash256 {
        assert!(N <= 32, "model capacity exceeded");
        let mut b = [0u8; 32];
        b[..N].copy_from_slice(&self.0);
        Hash256::from(b)
    }
}
