//! Contract of the `hex` crate: base-16 text, lower or upper case on output, either case on input,
//! first offending character reported, odd length refused.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum FromHexError {
    InvalidHexCharacter { c: char, index: usize },
    OddLength,
    InvalidStringLength,
}
impl std::fmt::Display for FromHexError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            FromHexError::InvalidHexCharacter { c, index } => write!(f, "Invalid character {c:?} at position {index}"),
            FromHexError::OddLength => f.write_str("Odd number of digits"),
            FromHexError::InvalidStringLength => f.write_str("Invalid string length"),
        }
    }
}
impl std::error::Error for FromHexError {}

/// Longest byte string handled under the verifier.
#[cfg(kani)]
const MAX: usize = 40;

#[cfg(not(kani))]
fn text(d: &[u8], table: &[u8; 16]) -> String {
    d.iter().flat_map(|b| [table[(b >> 4) as usize] as char, table[(b & 0xf) as usize] as char]).collect()
}
#[cfg(kani)]
fn text(d: &[u8], table: &[u8; 16]) -> String {
    assert!(d.len() <= MAX, "model capacity exceeded");
    let mut buf = [0u8; 2 * MAX];
    let mut i = 0;
    while i < d.len() {
        buf[2 * i] = table[(d[i] >> 4) as usize];
        buf[2 * i + 1] = table[(d[i] & 0xf) as usize];
        i += 1;
    }
    // Only ASCII digits were written.
    unsafe { String::from_utf8_unchecked(take(buf, 2 * d.len())) }
}
/// The first `n` bytes of `buf`, in an allocation of constant size.
#[cfg(kani)]
fn take<const N: usize>(buf: [u8; N], n: usize) -> Vec<u8> {
    let b: Box<[u8]> = Box::new(buf);
    let mut v = b.into_vec();
    unsafe { v.set_len(n) };
    v
}
pub fn encode<T: AsRef<[u8]>>(data: T) -> String {
    text(data.as_ref(), b"0123456789abcdef")
}
pub fn encode_upper<T: AsRef<[u8]>>(data: T) -> String {
    text(data.as_ref(), b"0123456789ABCDEF")
}
fn val(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
pub fn decode<T: AsRef<[u8]>>(data: T) -> Result<Vec<u8>, FromHexError> {
    let d = data.as_ref();
    if d.len() % 2 != 0 {
        return Err(FromHexError::OddLength);
    }
    let mut i = 0;
    while i < d.len() {
        if val(d[i]).is_none() {
            return Err(FromHexError::InvalidHexCharacter { c: d[i] as char, index: i });
        }
        i += 1;
    }
    let n = d.len() / 2;
    #[cfg(kani)]
    {
        assert!(n <= MAX, "model capacity exceeded");
        let mut buf = [0u8; MAX];
        let mut i = 0;
        while i < n {
            buf[i] = (val(d[2 * i]).unwrap_or(0) << 4) | val(d[2 * i + 1]).unwrap_or(0);
            i += 1;
        }
        Ok(take(buf, n))
    }
    #[cfg(not(kani))]
    Ok((0..n).map(|i| (val(d[2 * i]).unwrap_or(0) << 4) | val(d[2 * i + 1]).unwrap_or(0)).collect())
}
pub fn decode_to_slice<T: AsRef<[u8]>>(data: T, out: &mut [u8]) -> Result<(), FromHexError> {
    let d = data.as_ref();
    if d.len() % 2 != 0 {
        return Err(FromHexError::OddLength);
    }
    if d.len() / 2 != out.len() {
        return Err(FromHexError::InvalidStringLength);
    }
    out.copy_from_slice(&decode(d)?);
    Ok(())
}
pub fn encode_to_slice<T: AsRef<[u8]>>(input: T, output: &mut [u8]) -> Result<(), FromHexError> {
    let s = encode(input);
    if s.len() != output.len() {
        return Err(FromHexError::InvalidStringLength);
    }
    output.copy_from_slice(s.as_bytes());
    Ok(())
}
pub trait ToHex {
    fn encode_hex<T: std::iter::FromIterator<char>>(&self) -> T;
    fn encode_hex_upper<T: std::iter::FromIterator<char>>(&self) -> T;
}
impl<B: AsRef<[u8]>> ToHex for B {
    fn encode_hex<T: std::iter::FromIterator<char>>(&self) -> T {
        encode(self).chars().collect()
    }
    fn encode_hex_upper<T: std::iter::FromIterator<char>>(&self) -> T {
        encode_upper(self).chars().collect()
    }
}
pub trait FromHex: Sized {
    type Error;
    fn from_hex<T: AsRef<[u8]>>(hex: T) -> Result<Self, Self::Error>;
}
impl FromHex for Vec<u8> {
    type Error = FromHexError;
    fn from_hex<T: AsRef<[u8]>>(hex: T) -> Result<Self, FromHexError> {
        decode(hex)
    }
}
impl<const N: usize> FromHex for [u8; N] {
    type Error = FromHexError;
    fn from_hex<T: AsRef<[u8]>>(hex: T) -> Result<Self, FromHexError> {
        let mut o = [0u8; N];
        decode_to_slice(hex, &mut o)?;
        Ok(o)
    }
}
