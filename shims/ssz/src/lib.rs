//! SSZ serialisation as specified (consensus-specs, simple-serialize), through the interface of the
//! `ethereum_ssz` crate.
use alloy::primitives::{Address, Bytes, FixedBytes, U256};

pub const BYTES_PER_LENGTH_OFFSET: usize = 4;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByteLength { len: usize, expected: usize },
    InvalidLengthPrefix { len: usize, expected: usize },
    OutOfBoundsByte { i: usize },
    OffsetIntoFixedPortion(usize),
    OffsetSkipsVariableBytes(usize),
    OffsetsAreDecreasing(usize),
    OffsetOutOfBounds(usize),
    InvalidListFixedBytesLen(usize),
    ZeroLengthItem,
    BytesInvalid(String),
    UnionSelectorInvalid(u8),
    NoMatchingVariant,
}
impl core::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("decode error")
    }
}
impl std::error::Error for DecodeError {}

pub trait Encode {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_append(&self, buf: &mut Vec<u8>);
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn ssz_bytes_len(&self) -> usize;
    fn as_ssz_bytes(&self) -> Vec<u8> {
        // A constant capacity spares the verifier the growth paths.
        let mut v = Vec::with_capacity(if cfg!(kani) { 192 } else { self.ssz_bytes_len() });
        self.ssz_append(&mut v);
        v
    }
}
pub trait Decode: Sized {
    fn is_ssz_fixed_len() -> bool;
    fn ssz_fixed_len() -> usize {
        BYTES_PER_LENGTH_OFFSET
    }
    fn from_ssz_bytes(bytes: &[u8]) -> Result<Self, DecodeError>;
}
impl<T: Encode> Encode for &T {
    fn is_ssz_fixed_len() -> bool {
        T::is_ssz_fixed_len()
    }
    fn ssz_fixed_len() -> usize {
        T::ssz_fixed_len()
    }
    fn ssz_append(&self, buf: &mut Vec<u8>) {
        T::ssz_append(self, buf)
    }
    fn ssz_bytes_len(&self) -> usize {
        T::ssz_bytes_len(self)
    }
}
macro_rules! uints {
    ($($t:ty),*) => {$(
        impl Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { core::mem::size_of::<$t>() }
            fn ssz_bytes_len(&self) -> usize { core::mem::size_of::<$t>() }
            fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(&self.to_le_bytes()) }
        }
        impl Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { core::mem::size_of::<$t>() }
            fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
                let n = core::mem::size_of::<$t>();
                if b.len() != n {
                    return Err(DecodeError::InvalidByteLength { len: b.len(), expected: n });
                }
                let mut x = [0u8; core::mem::size_of::<$t>()];
                x.copy_from_slice(b);
                Ok(<$t>::from_le_bytes(x))
            }
        }
    )*};
}
uints!(u8, u16, u32, u64, u128, usize);
impl Encode for bool {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 1 }
    fn ssz_bytes_len(&self) -> usize { 1 }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.push(*self as u8) }
}
impl Decode for bool {
    fn is_ssz_fixed_len() -> bool { true }
    fn ssz_fixed_len() -> usize { 1 }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
        match b {
            [0] => Ok(false),
            [1] => Ok(true),
            [_] => Err(DecodeError::BytesInvalid(String::new())),
            _ => Err(DecodeError::InvalidByteLength { len: b.len(), expected: 1 }),
        }
    }
}
macro_rules! fixed {
    ($({$($g:tt)*})? $t:ty, $n:expr, |$s:ident| $enc:expr, |$b:ident| $dec:expr) => {
        impl $(<$($g)*>)? Encode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn ssz_bytes_len(&self) -> usize { $n }
            fn ssz_append(&self, buf: &mut Vec<u8>) { let $s = self; buf.extend_from_slice(&$enc) }
        }
        impl $(<$($g)*>)? Decode for $t {
            fn is_ssz_fixed_len() -> bool { true }
            fn ssz_fixed_len() -> usize { $n }
            fn from_ssz_bytes($b: &[u8]) -> Result<Self, DecodeError> {
                if $b.len() != $n {
                    return Err(DecodeError::InvalidByteLength { len: $b.len(), expected: $n });
                }
                Ok($dec)
            }
        }
    };
}
fixed!({const N: usize} FixedBytes<N>, N, |s| s.0, |b| FixedBytes::from_slice(b));
fixed!({const N: usize} [u8; N], N, |s| *s, |b| { let mut x = [0u8; N]; x.copy_from_slice(b); x });
fixed!(U256, 32, |s| s.to_le_bytes::<32>(), |b| { let mut x = [0u8; 32]; x.copy_from_slice(b); U256::from_le_bytes(x) });
fixed!(Address, 20, |s| s.0 .0, |b| Address(FixedBytes::from_slice(b)));
impl Encode for Bytes {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_bytes_len(&self) -> usize { self.len() }
    fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(self) }
}
impl Decode for Bytes {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> { Ok(Bytes::from(b.to_vec())) }
}

pub fn encode_list<T: Encode>(items: &[T], buf: &mut Vec<u8>) {
    if T::is_ssz_fixed_len() {
        for x in items {
            x.ssz_append(buf);
        }
    } else {
        let mut e = SszEncoder::container(buf, items.len() * BYTES_PER_LENGTH_OFFSET);
        for x in items {
            e.append(x);
        }
        e.finalize();
    }
}
pub fn list_len<T: Encode>(items: &[T]) -> usize {
    if T::is_ssz_fixed_len() {
        T::ssz_fixed_len() * items.len()
    } else {
        let mut n = BYTES_PER_LENGTH_OFFSET * items.len();
        for x in items {
            n += x.ssz_bytes_len();
        }
        n
    }
}
pub fn decode_list<T: Decode>(bytes: &[u8], max: Option<usize>) -> Result<Vec<T>, DecodeError> {
    if bytes.is_empty() {
        return Ok(Vec::new());
    }
    if T::is_ssz_fixed_len() {
        let k = T::ssz_fixed_len();
        if bytes.len() % k != 0 {
            return Err(DecodeError::InvalidByteLength { len: bytes.len(), expected: (bytes.len() / k + 1) * k });
        }
        let n = bytes.len() / k;
        if max.is_some_and(|m| n > m) {
            return Err(DecodeError::BytesInvalid(String::new()));
        }
        let mut v = Vec::with_capacity(n);
        let mut i = 0;
        while i < n {
            v.push(T::from_ssz_bytes(&bytes[i * k..i * k + k])?);
            i += 1;
        }
        Ok(v)
    } else {
        let first = read_offset(bytes)?;
        if first > bytes.len() {
            return Err(DecodeError::OffsetOutOfBounds(first));
        }
        if first < BYTES_PER_LENGTH_OFFSET || first % BYTES_PER_LENGTH_OFFSET != 0 {
            return Err(DecodeError::InvalidListFixedBytesLen(first));
        }
        let n = first / BYTES_PER_LENGTH_OFFSET;
        if max.is_some_and(|m| n > m) {
            return Err(DecodeError::BytesInvalid(String::new()));
        }
        let mut v = Vec::with_capacity(n);
        let mut start = first;
        let mut i = 1;
        while i <= n {
            let end = if i == n { bytes.len() } else { read_offset(&bytes[i * BYTES_PER_LENGTH_OFFSET..])? };
            if end > bytes.len() {
                return Err(DecodeError::OffsetOutOfBounds(end));
            }
            if end < start {
                return Err(DecodeError::OffsetsAreDecreasing(end));
            }
            v.push(T::from_ssz_bytes(&bytes[start..end])?);
            start = end;
            i += 1;
        }
        Ok(v)
    }
}
impl<T: Encode> Encode for Vec<T> {
    fn is_ssz_fixed_len() -> bool { false }
    fn ssz_bytes_len(&self) -> usize { list_len(self) }
    fn ssz_append(&self, buf: &mut Vec<u8>) { encode_list(self, buf) }
}
impl<T: Decode> Decode for Vec<T> {
    fn is_ssz_fixed_len() -> bool { false }
    fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> { decode_list(b, None) }
}

pub fn read_offset(bytes: &[u8]) -> Result<usize, DecodeError> {
    if bytes.len() < 4 {
        return Err(DecodeError::InvalidLengthPrefix { len: bytes.len(), expected: 4 });
    }
    Ok(u32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]) as usize)
}
pub fn encode_length(n: usize) -> [u8; 4] {
    (n as u32).to_le_bytes()
}
pub fn split_union_bytes(bytes: &[u8]) -> Result<(UnionSelector, &[u8]), DecodeError> {
    if bytes.is_empty() {
        return Err(DecodeError::OutOfBoundsByte { i: 0 });
    }
    if bytes[0] > 127 {
        return Err(DecodeError::UnionSelectorInvalid(bytes[0]));
    }
    Ok((UnionSelector(bytes[0]), &bytes[1..]))
}
pub struct UnionSelector(u8);
impl From<UnionSelector> for u8 {
    fn from(u: UnionSelector) -> u8 {
        u.0
    }
}

pub struct SszEncoder<'a> {
    offset: usize,
    buf: &'a mut Vec<u8>,
    variable_bytes: core::mem::ManuallyDrop<Vec<u8>>,
}
impl<'a> SszEncoder<'a> {
    pub fn container(buf: &'a mut Vec<u8>, num_fixed_bytes: usize) -> Self {
        Self { offset: num_fixed_bytes, buf, variable_bytes: core::mem::ManuallyDrop::new(Vec::with_capacity(192)) }
    }
    pub fn append<T: Encode>(&mut self, item: &T) {
        self.append_parameterized(T::is_ssz_fixed_len(), |buf| item.ssz_append(buf))
    }
    pub fn append_parameterized<F: Fn(&mut Vec<u8>)>(&mut self, fixed: bool, f: F) {
        if fixed {
            f(self.buf);
        } else {
            self.buf.extend_from_slice(&encode_length(self.offset + self.variable_bytes.len()));
            f(&mut self.variable_bytes);
        }
    }
    pub fn finalize(&mut self) -> &mut Vec<u8> {
        self.buf.extend_from_slice(&self.variable_bytes);
        self.buf
    }
}

/// Most fields of a container with variable parts.
const MAX_FIELDS: usize = 32;
/// Position of each registered item: fixed items by range, variable ones by offset.
pub struct SszDecoderBuilder<'a> {
    bytes: &'a [u8],
    items: [(bool, usize, usize); MAX_FIELDS],
    n: usize,
    at: usize,
}
impl<'a> SszDecoderBuilder<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        Self { bytes, items: [(false, 0, 0); MAX_FIELDS], n: 0, at: 0 }
    }
    pub fn register_type<T: Decode>(&mut self) -> Result<(), DecodeError> {
        self.register_type_parameterized(T::is_ssz_fixed_len(), T::ssz_fixed_len())
    }
    pub fn register_anonymous_variable_length_item(&mut self) -> Result<(), DecodeError> {
        self.register_type_parameterized(false, BYTES_PER_LENGTH_OFFSET)
    }
    pub fn register_type_parameterized(&mut self, fixed: bool, len: usize) -> Result<(), DecodeError> {
        let n = if fixed { len } else { BYTES_PER_LENGTH_OFFSET };
        if self.at + n > self.bytes.len() {
            return Err(DecodeError::InvalidByteLength { len: self.bytes.len(), expected: self.at + n });
        }
        if fixed {
            self.items[self.n] = (true, self.at, self.at + n);
        } else {
            let o = read_offset(&self.bytes[self.at..])?;
            self.items[self.n] = (false, o, 0);
        }
        self.n += 1;
        self.at += n;
        Ok(())
    }
    pub fn build(mut self) -> Result<SszDecoder<'a>, DecodeError> {
        let mut prev: Option<usize> = None;
        let mut i = 0;
        while i < self.n {
            if !self.items[i].0 {
                let o = self.items[i].1;
                match prev {
                    None => {
                        if o < self.at {
                            return Err(DecodeError::OffsetIntoFixedPortion(o));
                        }
                        if o > self.at {
                            return Err(DecodeError::OffsetSkipsVariableBytes(o));
                        }
                    }
                    Some(p) => {
                        if o < self.items[p].1 {
                            return Err(DecodeError::OffsetsAreDecreasing(o));
                        }
                        self.items[p].2 = o;
                    }
                }
                if o > self.bytes.len() {
                    return Err(DecodeError::OffsetOutOfBounds(o));
                }
                prev = Some(i);
            }
            i += 1;
        }
        match prev {
            Some(p) => self.items[p].2 = self.bytes.len(),
            None => {
                if self.at != self.bytes.len() {
                    return Err(DecodeError::InvalidByteLength { len: self.bytes.len(), expected: self.at });
                }
            }
        }
        Ok(SszDecoder { bytes: self.bytes, items: self.items, next: 0 })
    }
}
pub struct SszDecoder<'a> {
    bytes: &'a [u8],
    items: [(bool, usize, usize); MAX_FIELDS],
    next: usize,
}
impl<'a> SszDecoder<'a> {
    pub fn decode_next<T: Decode>(&mut self) -> Result<T, DecodeError> {
        self.decode_next_with(|b| T::from_ssz_bytes(b))
    }
    pub fn decode_next_with<T, F: FnOnce(&'a [u8]) -> Result<T, DecodeError>>(&mut self, f: F) -> Result<T, DecodeError> {
        let (_, a, b) = self.items[self.next];
        self.next += 1;
        f(&self.bytes[a..b])
    }
}

/// Errors of bit fields.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum BitfieldError {
    OutOfBounds { i: usize, len: usize },
    MissingLengthInformation,
    ExcessBits,
    InvalidByteCount { given: usize, expected: usize },
}
impl core::fmt::Display for BitfieldError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("bit field error")
    }
}
impl std::error::Error for BitfieldError {}
