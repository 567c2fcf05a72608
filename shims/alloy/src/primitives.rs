use core::{cmp::Ordering, fmt, ops::*};

#[derive(Clone, Copy, Hash)]
#[repr(transparent)]
pub struct FixedBytes<const N: usize>(pub [u8; N]);
pub type B256 = FixedBytes<32>;
pub type B64 = FixedBytes<8>;
pub type BlockHash = B256;
pub type TxHash = B256;
pub type BlockNumber = u64;

impl<const N: usize> FixedBytes<N> {
    pub const ZERO: Self = Self([0; N]);
    pub const fn new(b: [u8; N]) -> Self {
        Self(b)
    }
    pub const fn repeat_byte(x: u8) -> Self {
        Self([x; N])
    }
    pub const fn with_last_byte(x: u8) -> Self {
        let mut b = [0; N];
        if N > 0 {
            b[N - 1] = x;
        }
        Self(b)
    }
    pub fn from_slice(s: &[u8]) -> Self {
        assert!(s.len() == N, "cannot convert slice to fixed bytes");
        let mut b = [0; N];
        b.copy_from_slice(s);
        Self(b)
    }
    pub fn left_padding_from(s: &[u8]) -> Self {
        let mut b = [0; N];
        b[N - s.len()..].copy_from_slice(s);
        Self(b)
    }
    pub fn right_padding_from(s: &[u8]) -> Self {
        let mut b = [0; N];
        b[..s.len()].copy_from_slice(s);
        Self(b)
    }
    pub const fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    pub fn random() -> Self {
        Self(nd::bytes())
    }
}
fn words(b: &[u8]) -> [u128; 2] {
    let (mut x, mut y) = ([0u8; 16], [0u8; 16]);
    x.copy_from_slice(&b[..16]);
    y.copy_from_slice(&b[16..32]);
    [u128::from_be_bytes(x), u128::from_be_bytes(y)]
}
impl<const N: usize> PartialEq for FixedBytes<N> {
    fn eq(&self, o: &Self) -> bool {
        if N == 32 {
            let (a, b) = (words(&self.0), words(&o.0));
            return a[0] == b[0] && a[1] == b[1];
        }
        let mut i = 0;
        while i < N {
            if self.0[i] != o.0[i] {
                return false;
            }
            i += 1;
        }
        true
    }
}
impl<const N: usize> Eq for FixedBytes<N> {}
impl<const N: usize> PartialOrd for FixedBytes<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for FixedBytes<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        if N == 32 {
            let (a, b) = (words(&self.0), words(&o.0));
            return a[0].cmp(&b[0]).then(a[1].cmp(&b[1]));
        }
        self.0.cmp(&o.0)
    }
}
impl<const N: usize> Default for FixedBytes<N> {
    fn default() -> Self {
        Self::ZERO
    }
}
impl<const N: usize> From<[u8; N]> for FixedBytes<N> {
    fn from(b: [u8; N]) -> Self {
        Self(b)
    }
}
impl<const N: usize> From<&[u8; N]> for FixedBytes<N> {
    fn from(b: &[u8; N]) -> Self {
        Self(*b)
    }
}
impl<const N: usize> From<FixedBytes<N>> for [u8; N] {
    fn from(b: FixedBytes<N>) -> Self {
        b.0
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TryFromSliceError;
impl fmt::Display for TryFromSliceError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("wrong length or digit")
    }
}
impl std::error::Error for TryFromSliceError {}
impl<const N: usize> TryFrom<&[u8]> for FixedBytes<N> {
    type Error = TryFromSliceError;
    fn try_from(b: &[u8]) -> Result<Self, TryFromSliceError> {
        if b.len() == N {
            Ok(Self::from_slice(b))
        } else {
            Err(TryFromSliceError)
        }
    }
}
impl From<U256> for B256 {
    fn from(x: U256) -> Self {
        Self(x.to_be_bytes())
    }
}
impl From<B256> for U256 {
    fn from(x: B256) -> Self {
        U256::from_be_bytes(x.0)
    }
}
impl<const N: usize> Deref for FixedBytes<N> {
    type Target = [u8; N];
    fn deref(&self) -> &[u8; N] {
        &self.0
    }
}
impl<const N: usize> DerefMut for FixedBytes<N> {
    fn deref_mut(&mut self) -> &mut [u8; N] {
        &mut self.0
    }
}
impl<const N: usize> AsRef<[u8]> for FixedBytes<N> {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl<const N: usize> fmt::Debug for FixedBytes<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        #[cfg(not(kani))]
        for b in self.0 {
            write!(f, "{b:02x}")?;
        }
        let _ = f;
        Ok(())
    }
}
impl<const N: usize> fmt::Display for FixedBytes<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl<const N: usize> fmt::LowerHex for FixedBytes<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}

/// 256-bit unsigned integer.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Uint<const BITS: usize, const LIMBS: usize> {
    hi: u128,
    lo: u128,
}
pub type U256 = Uint<256, 4>;

impl U256 {
    pub const ZERO: Self = Self { hi: 0, lo: 0 };
    pub const MIN: Self = Self::ZERO;
    pub const MAX: Self = Self { hi: u128::MAX, lo: u128::MAX };
    pub const BITS: usize = 256;
    pub const BYTES: usize = 32;
    pub const fn parts(hi: u128, lo: u128) -> Self {
        Self { hi, lo }
    }
    pub const fn from_limbs(l: [u64; 4]) -> Self {
        Self { lo: l[0] as u128 | (l[1] as u128) << 64, hi: l[2] as u128 | (l[3] as u128) << 64 }
    }
    pub fn from_be_bytes<const N: usize>(b: [u8; N]) -> Self {
        assert!(N == 32);
        let w = words(&b);
        Self { hi: w[0], lo: w[1] }
    }
    pub fn from_be_slice(b: &[u8]) -> Self {
        assert!(b.len() <= 32);
        let mut p = [0u8; 32];
        p[32 - b.len()..].copy_from_slice(b);
        Self::from_be_bytes(p)
    }
    pub fn from_le_bytes<const N: usize>(b: [u8; N]) -> Self {
        assert!(N == 32);
        let mut p = [0u8; 32];
        let mut i = 0;
        while i < 32 {
            p[31 - i] = b[i];
            i += 1;
        }
        Self::from_be_bytes(p)
    }
    pub fn to_be_bytes<const N: usize>(&self) -> [u8; N] {
        assert!(N == 32);
        let mut o = [0u8; N];
        o[..16].copy_from_slice(&self.hi.to_be_bytes());
        o[16..].copy_from_slice(&self.lo.to_be_bytes());
        o
    }
    pub fn to_be_bytes_vec(&self) -> Vec<u8> {
        self.to_be_bytes::<32>().to_vec()
    }
    pub fn to_le_bytes<const N: usize>(&self) -> [u8; N] {
        assert!(N == 32);
        let mut o = [0u8; N];
        o[..16].copy_from_slice(&self.lo.to_le_bytes());
        o[16..].copy_from_slice(&self.hi.to_le_bytes());
        o
    }
    pub fn as_le_slice(&self) -> &[u8] {
        Box::leak(Box::new(self.to_le_bytes::<32>()))
    }
    pub fn leading_zeros(&self) -> usize {
        if self.hi != 0 {
            self.hi.leading_zeros() as usize
        } else {
            128 + self.lo.leading_zeros() as usize
        }
    }
    pub fn bit_len(&self) -> usize {
        256 - self.leading_zeros()
    }
    pub fn is_zero(&self) -> bool {
        self.hi == 0 && self.lo == 0
    }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) {
        let (lo, c) = self.lo.overflowing_add(o.lo);
        let (hi, c1) = self.hi.overflowing_add(o.hi);
        let (hi, c2) = hi.overflowing_add(c as u128);
        (Self { hi, lo }, c1 | c2)
    }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
        let (lo, c) = self.lo.overflowing_sub(o.lo);
        let (hi, c1) = self.hi.overflowing_sub(o.hi);
        let (hi, c2) = hi.overflowing_sub(c as u128);
        (Self { hi, lo }, c1 | c2)
    }
    pub fn checked_add(self, o: Self) -> Option<Self> {
        let (v, c) = self.overflowing_add(o);
        if c { None } else { Some(v) }
    }
    pub fn checked_sub(self, o: Self) -> Option<Self> {
        let (v, c) = self.overflowing_sub(o);
        if c { None } else { Some(v) }
    }
    pub fn wrapping_add(self, o: Self) -> Self {
        self.overflowing_add(o).0
    }
    pub fn wrapping_sub(self, o: Self) -> Self {
        self.overflowing_sub(o).0
    }
    pub fn saturating_add(self, o: Self) -> Self {
        self.checked_add(o).unwrap_or(Self::MAX)
    }
    pub fn saturating_sub(self, o: Self) -> Self {
        self.checked_sub(o).unwrap_or(Self::ZERO)
    }
    pub fn abs_diff(self, o: Self) -> Self {
        if self < o { o.wrapping_sub(self) } else { self.wrapping_sub(o) }
    }
    pub fn bit(&self, i: usize) -> bool {
        if i >= 128 { (self.hi >> (i - 128)) & 1 == 1 } else { (self.lo >> i) & 1 == 1 }
    }
    pub fn from<T>(x: T) -> Self
    where
        Self: FromInt<T>,
    {
        <Self as FromInt<T>>::from_int(x)
    }
    pub fn to<T: FromU256>(&self) -> T {
        T::from_u256(self)
    }
    pub fn random() -> Self {
        Self { hi: nd::any(), lo: nd::any() }
    }
}
pub trait FromU256 {
    fn from_u256(x: &U256) -> Self;
}
impl FromU256 for u64 {
    fn from_u256(x: &U256) -> u64 {
        assert!(x.hi == 0 && x.lo <= u64::MAX as u128, "Uint conversion error");
        x.lo as u64
    }
}
impl FromU256 for usize {
    fn from_u256(x: &U256) -> usize {
        u64::from_u256(x) as usize
    }
}
pub trait FromInt<T> {
    fn from_int(x: T) -> Self;
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl FromInt<$t> for U256 {
            fn from_int(x: $t) -> Self {
                Self { hi: 0, lo: x as u128 }
            }
        }
        impl From<$t> for U256 {
            fn from(x: $t) -> Self {
                Self { hi: 0, lo: x as u128 }
            }
        }
    )*};
}
ints!(u8, u16, u32, u64, u128, usize);
impl FromInt<i32> for U256 {
    fn from_int(x: i32) -> Self {
        assert!(x >= 0);
        Self { hi: 0, lo: x as u128 }
    }
}
impl FromInt<U256> for U256 {
    fn from_int(x: U256) -> Self {
        x
    }
}
impl FromInt<B256> for U256 {
    fn from_int(x: B256) -> Self {
        U256::from_be_bytes(x.0)
    }
}
macro_rules! bits {
    ($($tr:ident $f:ident $op:tt),*) => {$(
        impl $tr for U256 {
            type Output = U256;
            fn $f(self, o: U256) -> U256 {
                U256 { hi: self.hi $op o.hi, lo: self.lo $op o.lo }
            }
        }
    )*};
}
bits!(BitXor bitxor ^, BitAnd bitand &, BitOr bitor |);
impl Not for U256 {
    type Output = U256;
    fn not(self) -> U256 {
        U256 { hi: !self.hi, lo: !self.lo }
    }
}
impl Add for U256 {
    type Output = U256;
    fn add(self, o: U256) -> U256 {
        self.wrapping_add(o)
    }
}
impl Sub for U256 {
    type Output = U256;
    fn sub(self, o: U256) -> U256 {
        self.wrapping_sub(o)
    }
}
macro_rules! shifts {
    ($($t:ty),*) => {$(
        impl Shl<$t> for U256 {
            type Output = U256;
            fn shl(self, n: $t) -> U256 {
                let n = n as usize;
                if n >= 256 {
                    U256::ZERO
                } else if n >= 128 {
                    U256 { hi: self.lo << (n - 128), lo: 0 }
                } else if n == 0 {
                    self
                } else {
                    U256 { hi: self.hi << n | self.lo >> (128 - n), lo: self.lo << n }
                }
            }
        }
        impl Shr<$t> for U256 {
            type Output = U256;
            fn shr(self, n: $t) -> U256 {
                let n = n as usize;
                if n >= 256 {
                    U256::ZERO
                } else if n >= 128 {
                    U256 { hi: 0, lo: self.hi >> (n - 128) }
                } else if n == 0 {
                    self
                } else {
                    U256 { hi: self.hi >> n, lo: self.lo >> n | self.hi << (128 - n) }
                }
            }
        }
    )*};
}
shifts!(usize, u32, i32, u64, u8);
impl AddAssign for U256 {
    fn add_assign(&mut self, o: U256) {
        *self = *self + o
    }
}
impl SubAssign for U256 {
    fn sub_assign(&mut self, o: U256) {
        *self = *self - o
    }
}
impl PartialEq<u64> for U256 {
    fn eq(&self, o: &u64) -> bool {
        self.hi == 0 && self.lo == *o as u128
    }
}
impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        #[cfg(not(kani))]
        write!(f, "0x{:032x}{:032x}", self.hi, self.lo)?;
        let _ = f;
        Ok(())
    }
}
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl fmt::LowerHex for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}

/// A `bytes::Bytes` in all but name.
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Bytes(pub bytes::Bytes);
impl Bytes {
    pub const fn new() -> Self {
        Self(bytes::Bytes::new())
    }
    pub fn copy_from_slice(b: &[u8]) -> Self {
        Self(bytes::Bytes::copy_from_slice(b))
    }
    pub fn from_static(b: &'static [u8]) -> Self {
        Self(bytes::Bytes::from_static(b))
    }
    pub fn slice(&self, r: impl core::ops::RangeBounds<usize>) -> Self {
        Self(self.0.slice(r))
    }
}
impl From<Vec<u8>> for Bytes {
    fn from(v: Vec<u8>) -> Self {
        Self(v.into())
    }
}
impl From<Bytes> for Vec<u8> {
    fn from(v: Bytes) -> Self {
        v.0.into_vec()
    }
}
impl From<bytes::Bytes> for Bytes {
    fn from(v: bytes::Bytes) -> Self {
        Self(v)
    }
}
impl From<Bytes> for bytes::Bytes {
    fn from(v: Bytes) -> Self {
        v.0
    }
}
impl<const N: usize> From<[u8; N]> for Bytes {
    fn from(v: [u8; N]) -> Self {
        Self::copy_from_slice(&v)
    }
}
impl From<&'static [u8]> for Bytes {
    fn from(v: &'static [u8]) -> Self {
        Self::copy_from_slice(v)
    }
}
impl<const N: usize> From<FixedBytes<N>> for Bytes {
    fn from(v: FixedBytes<N>) -> Self {
        Self::copy_from_slice(&v.0)
    }
}
impl FromIterator<u8> for Bytes {
    fn from_iter<I: IntoIterator<Item = u8>>(i: I) -> Self {
        Self(i.into_iter().collect())
    }
}
impl<'a> FromIterator<&'a u8> for Bytes {
    fn from_iter<I: IntoIterator<Item = &'a u8>>(i: I) -> Self {
        Self(i.into_iter().copied().collect())
    }
}
impl Deref for Bytes {
    type Target = bytes::Bytes;
    fn deref(&self) -> &bytes::Bytes {
        &self.0
    }
}
impl DerefMut for Bytes {
    fn deref_mut(&mut self) -> &mut bytes::Bytes {
        &mut self.0
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl PartialEq<[u8]> for Bytes {
    fn eq(&self, o: &[u8]) -> bool {
        &self.0[..] == o
    }
}
impl bytes::Buf for Bytes {
    fn remaining(&self) -> usize {
        self.0.len()
    }
    fn chunk(&self) -> &[u8] {
        &self.0
    }
    fn advance(&mut self, n: usize) {
        self.0.advance(n)
    }
}
impl core::str::FromStr for Bytes {
    type Err = TryFromSliceError;
    /// Hexadecimal digits, with or without `0x`.
    fn from_str(s: &str) -> Result<Self, TryFromSliceError> {
        let b = s.as_bytes();
        let b = if b.len() >= 2 && b[0] == b'0' && (b[1] == b'x' || b[1] == b'X') { &b[2..] } else { b };
        if b.len() % 2 != 0 {
            return Err(TryFromSliceError);
        }
        let mut v = Vec::new();
        for p in b.chunks(2) {
            let d = |c: u8| (c as char).to_digit(16).ok_or(TryFromSliceError);
            v.push((d(p[0])? * 16 + d(p[1])?) as u8);
        }
        Ok(Self(v.into()))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Debug)]
pub struct Address(pub FixedBytes<20>);
impl Address {
    pub const ZERO: Self = Self(FixedBytes::ZERO);
    pub fn as_slice(&self) -> &[u8] {
        &self.0 .0
    }
}
impl Deref for Address {
    type Target = FixedBytes<20>;
    fn deref(&self) -> &FixedBytes<20> {
        &self.0
    }
}
impl AsRef<[u8]> for Address {
    fn as_ref(&self) -> &[u8] {
        &self.0 .0
    }
}

/// keccak-256: an arbitrary function.
pub fn keccak256<T: AsRef<[u8]>>(x: T) -> B256 {
    B256::from(uf::hash(x.as_ref()))
}

const fn nib(c: u8) -> u8 {
    match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'f' => c - b'a' + 10,
        b'A'..=b'F' => c - b'A' + 10,
        _ => panic!("not a hex digit"),
    }
}
/// Compile-time value of a hex literal.
pub const fn hex_literal<const N: usize>(s: &str) -> [u8; N] {
    let b = s.as_bytes();
    let o = if b.len() == 2 * N + 2 { 2 } else { 0 };
    assert!(b.len() == 2 * N + o);
    let mut r = [0u8; N];
    let mut i = 0;
    while i < N {
        r[i] = nib(b[o + 2 * i]) << 4 | nib(b[o + 2 * i + 1]);
        i += 1;
    }
    r
}
#[macro_export]
macro_rules! __b256 {
    ($s:literal) => {{
        const B: [u8; 32] = $crate::primitives::hex_literal($s);
        $crate::primitives::FixedBytes::<32>(B)
    }};
}
pub use crate::__b256 as b256;
#[macro_export]
macro_rules! __fixed_bytes {
    ($s:literal) => {{
        const N: usize = $crate::primitives::hex_literal_len($s);
        const B: [u8; N] = $crate::primitives::hex_literal($s);
        $crate::primitives::FixedBytes::<N>(B)
    }};
}
pub use crate::__fixed_bytes as fixed_bytes;
pub const fn hex_literal_len(s: &str) -> usize {
    let b = s.as_bytes();
    if b.len() >= 2 && b[1] == b'x' { b.len() / 2 - 1 } else { b.len() / 2 }
}
