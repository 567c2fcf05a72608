//! Fixed-length vectors, bounded lists and bit fields of SSZ.
use core::{marker::PhantomData, ops::*};
use ssz::{Decode, DecodeError, Encode};

pub mod typenum {
    pub trait Unsigned {
        const USIZE: usize;
        fn to_usize() -> usize {
            Self::USIZE
        }
    }
    macro_rules! u {
        ($($n:ident $v:literal),* $(,)?) => {$(
            #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
            pub struct $n;
            impl Unsigned for $n { const USIZE: usize = $v; }
        )*};
    }
    u!(U0 0, U1 1, U2 2, U4 4, U5 5, U6 6, U7 7, U8 8, U9 9, U11 11, U12 12, U13 13, U14 14, U15 15, U16 16, U17 17, U20 20, U24 24,
       U31 31, U32 32, U33 33, U48 48, U64 64, U65 65, U96 96, U128 128, U256 256, U512 512, U1024 1024, U2048 2048, U4096 4096,
       U8192 8192, U16384 16384, U32768 32768, U65536 65536, U131072 131072, U262144 262144, U524288 524288, U1048576 1048576,
       U16777216 16777216, U33554432 33554432, U134217728 134217728, U1073741824 1073741824, U1099511627776 1099511627776);
}
use typenum::Unsigned;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    OutOfBounds { i: usize, len: usize },
    MissingLengthInformation,
    ExcessBits,
    InvalidByteCount { given: usize, expected: usize },
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("length error")
    }
}
impl std::error::Error for Error {}

/// The elements. For the verifier, copies of a list share its elements (they are never dropped, and
/// changing an element of a shared list is refused).
#[cfg(not(kani))]
#[derive(Debug, Clone, PartialEq)]
struct Store<T>(Vec<T>);
#[cfg(kani)]
#[derive(Debug)]
struct Store<T>(core::mem::ManuallyDrop<Vec<T>>, core::cell::Cell<bool>);
#[cfg(kani)]
unsafe impl<T: Send> Sync for Store<T> {}
#[cfg(kani)]
impl<T: Clone> Clone for Store<T> {
    fn clone(&self) -> Self {
        self.1.set(true);
        Store(unsafe { core::ptr::read(&self.0) }, core::cell::Cell::new(true))
    }
}
#[cfg(kani)]
impl<T: PartialEq> PartialEq for Store<T> {
    fn eq(&self, o: &Self) -> bool {
        *self.0 == *o.0
    }
}
impl<T> Store<T> {
    fn new(v: Vec<T>) -> Self {
        #[cfg(kani)]
        {
            Store(core::mem::ManuallyDrop::new(v), core::cell::Cell::new(false))
        }
        #[cfg(not(kani))]
        Store(v)
    }
    fn into_vec(self) -> Vec<T> {
        #[cfg(kani)]
        {
            assert!(!self.1.get(), "model capacity exceeded");
            core::mem::ManuallyDrop::into_inner(self.0)
        }
        #[cfg(not(kani))]
        self.0
    }
    fn get_mut(&mut self) -> &mut Vec<T> {
        #[cfg(kani)]
        assert!(!self.1.get(), "model capacity exceeded");
        &mut self.0
    }
}
impl<T> Deref for Store<T> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.0
    }
}

macro_rules! seq {
    ($n:ident) => {
        #[derive(Debug)]
        pub struct $n<T, N> {
            vec: Store<T>,
            _n: PhantomData<N>,
        }
        impl<T: Clone, N> Clone for $n<T, N> {
            fn clone(&self) -> Self {
                Self { vec: self.vec.clone(), _n: PhantomData }
            }
        }
        impl<T: PartialEq, N> PartialEq for $n<T, N> {
            fn eq(&self, o: &Self) -> bool {
                self.vec == o.vec
            }
        }
        impl<T: Eq, N> Eq for $n<T, N> {}
        impl<T: core::hash::Hash, N> core::hash::Hash for $n<T, N> {
            fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
                self.vec.hash(h)
            }
        }
        impl<T, N> Deref for $n<T, N> {
            type Target = [T];
            fn deref(&self) -> &[T] {
                &self.vec
            }
        }
        impl<T, N> DerefMut for $n<T, N> {
            fn deref_mut(&mut self) -> &mut [T] {
                self.vec.get_mut()
            }
        }
        impl<T, N> AsRef<[T]> for $n<T, N> {
            fn as_ref(&self) -> &[T] {
                &self.vec
            }
        }
        impl<'a, T, N> IntoIterator for &'a $n<T, N> {
            type Item = &'a T;
            type IntoIter = core::slice::Iter<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.vec.iter()
            }
        }
        impl<T, N> IntoIterator for $n<T, N> {
            type Item = T;
            type IntoIter = std::vec::IntoIter<T>;
            fn into_iter(self) -> Self::IntoIter {
                self.vec.into_vec().into_iter()
            }
        }
        impl<T, N> From<$n<T, N>> for Vec<T> {
            fn from(x: $n<T, N>) -> Vec<T> {
                x.vec.into_vec()
            }
        }
        impl<T, N> $n<T, N> {
            pub fn to_vec(&self) -> Vec<T> where T: Clone {
                self.vec.to_vec()
            }
            pub fn into_vec(self) -> Vec<T> {
                self.vec.into_vec()
            }
        }
    };
}
seq!(FixedVector);
seq!(VariableList);

impl<T, N: Unsigned> FixedVector<T, N> {
    pub fn new(vec: Vec<T>) -> Result<Self, Error> {
        if vec.len() == N::USIZE {
            Ok(Self { vec: Store::new(vec), _n: PhantomData })
        } else {
            Err(Error::OutOfBounds { i: vec.len(), len: N::USIZE })
        }
    }
    pub fn from_elem(x: T) -> Self where T: Clone {
        Self { vec: Store::new(vec![x; N::USIZE]), _n: PhantomData }
    }
    pub fn capacity() -> usize {
        N::USIZE
    }
}
impl<T: Default, N: Unsigned> From<Vec<T>> for FixedVector<T, N> {
    fn from(mut vec: Vec<T>) -> Self {
        vec.resize_with(N::USIZE, T::default);
        Self { vec: Store::new(vec), _n: PhantomData }
    }
}
impl<T: Default + Clone, N: Unsigned> Default for FixedVector<T, N> {
    fn default() -> Self {
        Self { vec: Store::new(vec![T::default(); N::USIZE]), _n: PhantomData }
    }
}
impl<T, N: Unsigned> VariableList<T, N> {
    pub fn new(vec: Vec<T>) -> Result<Self, Error> {
        if vec.len() <= N::USIZE {
            Ok(Self { vec: Store::new(vec), _n: PhantomData })
        } else {
            Err(Error::OutOfBounds { i: vec.len(), len: N::USIZE })
        }
    }
    pub fn empty() -> Self {
        Self { vec: Store::new(Vec::new()), _n: PhantomData }
    }
    pub fn max_len() -> usize {
        N::USIZE
    }
    pub fn push(&mut self, x: T) -> Result<(), Error> {
        if self.vec.len() < N::USIZE {
            self.vec.get_mut().push(x);
            Ok(())
        } else {
            Err(Error::OutOfBounds { i: self.vec.len() + 1, len: N::USIZE })
        }
    }
}
impl<T, N: Unsigned> From<Vec<T>> for VariableList<T, N> {
    fn from(mut vec: Vec<T>) -> Self {
        vec.truncate(N::USIZE);
        Self { vec: Store::new(vec), _n: PhantomData }
    }
}
impl<T, N> Default for VariableList<T, N> {
    fn default() -> Self {
        Self { vec: Store::new(Vec::new()), _n: PhantomData }
    }
}
impl<T: Encode, N: Unsigned> Encode for FixedVector<T, N> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        if T::is_ssz_fixed_len() { T::ssz_fixed_len() * N::USIZE } else { 4 }
    }
    fn ssz_bytes_len(&self) -> usize {
        ssz::list_len(&self.vec)
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        ssz::encode_list(&self.vec, buf)
    }
}
impl<T: Decode, N: Unsigned> Decode for FixedVector<T, N> {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        if T::is_ssz_fixed_len() { T::ssz_fixed_len() * N::USIZE } else { 4 }
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        let v = ssz::decode_list(b, Some(N::USIZE))?;
        Self::new(v).map_err(|_| DecodeError::BytesInvalid(String::new()))
    }
}
impl<T: Encode, N: Unsigned> Encode for VariableList<T, N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        ssz::list_len(&self.vec)
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        ssz::encode_list(&self.vec, buf)
    }
}
impl<T: Decode, N: Unsigned> Decode for VariableList<T, N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        Ok(Self { vec: Store::new(ssz::decode_list(b, Some(N::USIZE))?), _n: PhantomData })
    }
}
impl<T, N> tree_hash::TreeHash for VariableList<T, N> {
    fn tree_hash_root(&self) -> tree_hash::Hash256 {
        Default::default()
    }
}
impl<T, N> tree_hash::TreeHash for FixedVector<T, N> {
    fn tree_hash_root(&self) -> tree_hash::Hash256 {
        Default::default()
    }
}

/// Bit fields of up to 512 bits.
const BIT_WORDS: usize = 4;
macro_rules! bits {
    ($n:ident) => {
        #[derive(Debug)]
        pub struct $n<N> {
            words: [u128; BIT_WORDS],
            len: usize,
            _n: PhantomData<N>,
        }
        impl<N> Clone for $n<N> {
            fn clone(&self) -> Self {
                Self { words: self.words, len: self.len, _n: PhantomData }
            }
        }
        impl<N> PartialEq for $n<N> {
            fn eq(&self, o: &Self) -> bool {
                self.len == o.len && self.words[0] == o.words[0] && self.words[1] == o.words[1] && self.words[2] == o.words[2] && self.words[3] == o.words[3]
            }
        }
        impl<N> Eq for $n<N> {}
        impl<N: Unsigned> $n<N> {
            pub fn len(&self) -> usize {
                self.len
            }
            pub fn is_empty(&self) -> bool {
                self.len == 0
            }
            pub fn set(&mut self, i: usize, v: bool) -> Result<(), ssz::BitfieldError> {
                if i >= self.len {
                    return Err(ssz::BitfieldError::OutOfBounds { i, len: self.len });
                }
                let m = 1u128 << (i % 128);
                if v {
                    self.words[i / 128] |= m
                } else {
                    self.words[i / 128] &= !m
                }
                Ok(())
            }
            pub fn get(&self, i: usize) -> Result<bool, ssz::BitfieldError> {
                if i >= self.len {
                    return Err(ssz::BitfieldError::OutOfBounds { i, len: self.len });
                }
                Ok(self.words[i / 128] >> (i % 128) & 1 == 1)
            }
            pub fn is_zero(&self) -> bool {
                self.words[0] == 0 && self.words[1] == 0 && self.words[2] == 0 && self.words[3] == 0
            }
            pub fn num_set_bits(&self) -> usize {
                (self.words[0].count_ones() + self.words[1].count_ones() + self.words[2].count_ones() + self.words[3].count_ones()) as usize
            }
            pub fn iter(&self) -> BitIter<'_> {
                BitIter { words: &self.words, at: 0, len: self.len }
            }
        }
    };
}
bits!(BitList);
bits!(BitVector);
pub struct BitIter<'a> {
    words: &'a [u128; BIT_WORDS],
    at: usize,
    len: usize,
}
impl Iterator for BitIter<'_> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.at >= self.len {
            return None;
        }
        let b = self.words[self.at / 128] >> (self.at % 128) & 1 == 1;
        self.at += 1;
        Some(b)
    }
}
impl<N: Unsigned> BitList<N> {
    pub fn with_capacity(len: usize) -> Result<Self, ssz::BitfieldError> {
        if len > N::USIZE {
            return Err(ssz::BitfieldError::OutOfBounds { i: len, len: N::USIZE });
        }
        assert!(len <= 128 * BIT_WORDS, "model capacity exceeded");
        Ok(Self { words: [0; BIT_WORDS], len, _n: PhantomData })
    }
    pub fn max_len() -> usize {
        N::USIZE
    }
}
impl<N: Unsigned> BitVector<N> {
    pub fn new() -> Self {
        assert!(N::USIZE <= 128 * BIT_WORDS, "model capacity exceeded");
        Self { words: [0; BIT_WORDS], len: N::USIZE, _n: PhantomData }
    }
    pub fn capacity() -> usize {
        N::USIZE
    }
    /// All bits at once, least significant first.
    pub fn from_words(words: [u128; BIT_WORDS]) -> Self {
        let mut x = Self::new();
        x.words = words;
        x
    }
}
impl<N: Unsigned> Default for BitVector<N> {
    fn default() -> Self {
        Self::new()
    }
}
/// Bits least significant first, then a one that marks the length.
impl<N: Unsigned> Encode for BitList<N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn ssz_bytes_len(&self) -> usize {
        self.len / 8 + 1
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        assert!(self.len < 128, "model capacity exceeded");
        let b = (self.words[0] | 1 << self.len).to_le_bytes();
        buf.extend_from_slice(&b[..self.len / 8 + 1]);
    }
}
impl<N: Unsigned> Decode for BitList<N> {
    fn is_ssz_fixed_len() -> bool {
        false
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        let n = b.len();
        if n == 0 || b[n - 1] == 0 || n > N::USIZE / 8 + 1 {
            return Err(DecodeError::NoMatchingVariant);
        }
        assert!(n <= 16, "model capacity exceeded");
        let mut w = [0u8; 16];
        w[..n].copy_from_slice(b);
        let w = u128::from_le_bytes(w);
        let len = 127 - w.leading_zeros() as usize;
        if len > N::USIZE {
            return Err(DecodeError::NoMatchingVariant);
        }
        Ok(Self { words: [w & !(1 << len), 0, 0, 0], len, _n: PhantomData })
    }
}
impl<N: Unsigned> Encode for BitVector<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        (N::USIZE + 7) / 8
    }
    fn ssz_bytes_len(&self) -> usize {
        (N::USIZE + 7) / 8
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        let mut i = 0;
        while i < (N::USIZE + 7) / 8 {
            buf.push((self.words[i / 16] >> (8 * (i % 16))) as u8);
            i += 1;
        }
    }
}
impl<N: Unsigned> Decode for BitVector<N> {
    fn is_ssz_fixed_len() -> bool {
        true
    }
    fn ssz_fixed_len() -> usize {
        (N::USIZE + 7) / 8
    }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        let n = (N::USIZE + 7) / 8;
        if b.len() != n {
            return Err(DecodeError::InvalidByteLength { len: b.len(), expected: n });
        }
        let mut x = Self::new();
        let mut i = 0;
        while i < n {
            x.words[i / 16] |= (b[i] as u128) << (8 * (i % 16));
            i += 1;
        }
        if N::USIZE % 8 != 0 && b[n - 1] >> (N::USIZE % 8) != 0 {
            return Err(DecodeError::NoMatchingVariant);
        }
        Ok(x)
    }
}
impl<N> tree_hash::TreeHash for BitList<N> {
    fn tree_hash_root(&self) -> tree_hash::Hash256 {
        Default::default()
    }
}
impl<N> tree_hash::TreeHash for BitVector<N> {
    fn tree_hash_root(&self) -> tree_hash::Hash256 {
        Default::default()
    }
}
