//! RLP byte strings (as in `alloy-rlp`): canonical lengths only.
pub use bytes::{Buf, BufMut, Bytes as RawBytes};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    Overflow,
    LeadingZero,
    InputTooShort,
    NonCanonicalSingleByte,
    NonCanonicalSize,
    UnexpectedLength,
    UnexpectedString,
    UnexpectedList,
    ListLengthMismatch { expected: usize, got: usize },
    Custom(&'static str),
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("rlp error")
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub trait Encodable {
    fn encode(&self, out: &mut dyn BufMut);
    fn length(&self) -> usize {
        let mut v = Vec::new();
        self.encode(&mut v);
        v.len()
    }
}
pub trait Decodable: Sized {
    fn decode(buf: &mut &[u8]) -> Result<Self>;
}
pub fn encode<T: Encodable>(x: T) -> Vec<u8> {
    let mut v = Vec::new();
    x.encode(&mut v);
    v
}
/// Strings of up to 55 bytes (longer ones are beyond this stand-in).
impl Encodable for [u8] {
    fn encode(&self, out: &mut dyn BufMut) {
        assert!(self.len() <= 55, "model capacity exceeded");
        if self.len() == 1 && self[0] < 0x80 {
            out.put_u8(self[0])
        } else {
            out.put_u8(0x80 + self.len() as u8);
            out.put_slice(self)
        }
    }
}
impl Encodable for alloy::primitives::Bytes {
    fn encode(&self, out: &mut dyn BufMut) {
        self[..].encode(out)
    }
}
impl Decodable for alloy::primitives::Bytes {
    fn decode(buf: &mut &[u8]) -> Result<Self> {
        let b = *buf;
        if b.is_empty() {
            return Err(Error::InputTooShort);
        }
        let h = b[0];
        if h < 0x80 {
            *buf = &b[1..];
            return Ok(alloy::primitives::Bytes::from(vec![h]));
        }
        if h >= 0xc0 {
            return Err(Error::UnexpectedList);
        }
        assert!(h <= 0xb7, "model capacity exceeded");
        let n = (h - 0x80) as usize;
        if b.len() < 1 + n {
            return Err(Error::InputTooShort);
        }
        if n == 1 && b[1] < 0x80 {
            return Err(Error::NonCanonicalSingleByte);
        }
        *buf = &b[1 + n..];
        Ok(alloy::primitives::Bytes::from(b[1..1 + n].to_vec()))
    }
}
