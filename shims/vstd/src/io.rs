pub use ::std::io::ErrorKind;
#[derive(Debug)]
pub struct Error(ErrorKind);
pub type Result<T> = ::std::result::Result<T, Error>;
impl Error {
    pub fn new<E>(k: ErrorKind, e: E) -> Self {
        ::std::mem::forget(e);
        Error(k)
    }
    pub fn other<E>(e: E) -> Self {
        Self::new(ErrorKind::Other, e)
    }
    pub fn kind(&self) -> ErrorKind {
        self.0
    }
}
impl From<ErrorKind> for Error {
    fn from(k: ErrorKind) -> Self {
        Error(k)
    }
}
impl ::std::fmt::Display for Error {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("i/o error")
    }
}
impl ::std::error::Error for Error {}
pub trait Read {
    fn read(&mut self, d: &mut [u8]) -> Result<usize>;
    /// All of `d`, or an error. (What is in `d` after an error is not specified.)
    fn read_exact(&mut self, d: &mut [u8]) -> Result<()> {
        let n = d.len();
        let k = self.read(d)?;
        if k == n {
            return Ok(());
        }
        // In-memory sources deliver everything they have at once.
        Err(Error(ErrorKind::UnexpectedEof))
    }
    fn read_to_end(&mut self, v: &mut Vec<u8>) -> Result<usize> {
        let mut n = 0;
        loop {
            let mut b = [0u8; 32];
            let k = self.read(&mut b)?;
            if k == 0 {
                return Ok(n);
            }
            v.extend_from_slice(&b[..k]);
            n += k;
        }
    }
    fn by_ref(&mut self) -> &mut Self
    where
        Self: Sized,
    {
        self
    }
}
impl<T: Read + ?Sized> Read for &mut T {
    fn read(&mut self, d: &mut [u8]) -> Result<usize> {
        (**self).read(d)
    }
}
impl Read for &[u8] {
    fn read(&mut self, d: &mut [u8]) -> Result<usize> {
        let n = if d.len() < self.len() { d.len() } else { self.len() };
        d[..n].copy_from_slice(&self[..n]);
        *self = &self[n..];
        Ok(n)
    }
}
pub trait BufRead: Read {
    fn fill_buf(&mut self) -> Result<&[u8]>;
    fn consume(&mut self, n: usize);
}
pub trait Write {
    fn write(&mut self, b: &[u8]) -> Result<usize>;
    fn flush(&mut self) -> Result<()>;
    fn write_all(&mut self, b: &[u8]) -> Result<()> {
        let n = self.write(b)?;
        if n == b.len() { Ok(()) } else { Err(Error(ErrorKind::WriteZero)) }
    }
}
impl Write for Vec<u8> {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
