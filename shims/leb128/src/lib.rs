//! Unsigned LEB128 as in the `leb128` crate: seven bits per byte, least significant first; longer
//! encodings than necessary are read, values beyond 64 bits and truncated input are refused.
use vstd::io;

pub mod read {
    use super::io::Read;
    #[derive(Debug)]
    pub enum Error {
        IoError(super::io::Error),
        Overflow,
    }
    impl core::fmt::Display for Error {
        fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            f.write_str("leb128")
        }
    }
    impl std::error::Error for Error {}
    pub fn unsigned<R: Read + ?Sized>(r: &mut R) -> Result<u64, Error> {
        let (mut result, mut shift) = (0u64, 0);
        loop {
            let mut b = [0u8; 1];
            r.read_exact(&mut b).map_err(Error::IoError)?;
            if shift == 63 && b[0] > 1 {
                while b[0] & 0x80 != 0 {
                    r.read_exact(&mut b).map_err(Error::IoError)?;
                }
                return Err(Error::Overflow);
            }
            result |= ((b[0] & 0x7f) as u64) << shift;
            if b[0] & 0x80 == 0 {
                return Ok(result);
            }
            shift += 7;
        }
    }
}
pub mod write {
    use super::io::{Error, Write};
    pub fn unsigned<W: Write + ?Sized>(w: &mut W, mut x: u64) -> Result<usize, Error> {
        let mut n = 0;
        loop {
            let mut b = (x & 0x7f) as u8;
            x >>= 7;
            if x != 0 {
                b |= 0x80;
            }
            w.write_all(&[b])?;
            n += 1;
            if x == 0 {
                return Ok(n);
            }
        }
    }
}
