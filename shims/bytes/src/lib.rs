//! Byte buffers with the interface of the `bytes` crate, over plain vectors.
use core::ops::{Deref, DerefMut, RangeBounds, Bound};
use vstd::io;

/// A byte string with a moving start (`advance`).
#[derive(Clone, Default)]
pub struct Bytes {
    v: Vec<u8>,
    at: usize,
}
impl Bytes {
    pub const fn new() -> Self {
        Self { v: Vec::new(), at: 0 }
    }
    pub fn copy_from_slice(b: &[u8]) -> Self {
        Self { v: b.to_vec(), at: 0 }
    }
    pub fn from_static(b: &'static [u8]) -> Self {
        Self::copy_from_slice(b)
    }
    pub fn len(&self) -> usize {
        self.v.len() - self.at
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn slice(&self, r: impl RangeBounds<usize>) -> Self {
        let s = match r.start_bound() {
            Bound::Included(x) => *x,
            Bound::Excluded(x) => *x + 1,
            Bound::Unbounded => 0,
        };
        let e = match r.end_bound() {
            Bound::Included(x) => *x + 1,
            Bound::Excluded(x) => *x,
            Bound::Unbounded => self.len(),
        };
        Self::copy_from_slice(&self[s..e])
    }
    pub fn split_to(&mut self, n: usize) -> Self {
        let x = Self::copy_from_slice(&self[..n]);
        self.at += n;
        x
    }
    pub fn split_off(&mut self, n: usize) -> Self {
        let x = Self::copy_from_slice(&self[n..]);
        self.v.truncate(self.at + n);
        x
    }
    pub fn truncate(&mut self, n: usize) {
        self.v.truncate(self.at + n)
    }
    pub fn into_vec(mut self) -> Vec<u8> {
        if self.at == 0 {
            core::mem::take(&mut self.v)
        } else {
            self.to_vec()
        }
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.v[self.at..]
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        self
    }
}
impl core::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        self.deref().fmt(f)
    }
}
impl PartialEq for Bytes {
    fn eq(&self, o: &Self) -> bool {
        self.deref() == o.deref()
    }
}
impl Eq for Bytes {}
impl PartialOrd for Bytes {
    fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Bytes {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        self.deref().cmp(o.deref())
    }
}
impl core::hash::Hash for Bytes {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        self.deref().hash(h)
    }
}
impl From<Vec<u8>> for Bytes {
    fn from(v: Vec<u8>) -> Self {
        Self { v, at: 0 }
    }
}
impl From<BytesMut> for Bytes {
    fn from(b: BytesMut) -> Self {
        b.freeze()
    }
}
impl From<&'static [u8]> for Bytes {
    fn from(v: &'static [u8]) -> Self {
        Self::copy_from_slice(v)
    }
}
impl FromIterator<u8> for Bytes {
    fn from_iter<I: IntoIterator<Item = u8>>(i: I) -> Self {
        Self { v: i.into_iter().collect(), at: 0 }
    }
}

/// Largest number of bytes set aside at once so far.
// Initial values are set before use; they are unusual because the verifier may merge a static with constants of the same bytes.
static mut LARGEST: usize = 0x5eed_0007;
pub fn largest_request() -> usize {
    unsafe { LARGEST }
}
pub fn reset() {
    unsafe { LARGEST = 0 }
}
fn note(n: usize) {
    unsafe {
        if n > LARGEST {
            LARGEST = n
        }
    }
}
/// Longest buffer handled under the verifier.
#[cfg(kani)]
const MAX: usize = 160;

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct BytesMut(Vec<u8>);
impl BytesMut {
    pub fn new() -> Self {
        Self(Vec::new())
    }
    pub fn with_capacity(n: usize) -> Self {
        note(n);
        #[cfg(kani)]
        {
            Self(Vec::with_capacity(MAX))
        }
        #[cfg(not(kani))]
        Self(Vec::with_capacity(n.min(1 << 20)))
    }
    /// `n` zero bytes. (Requests beyond 16 MiB are noted and answered with an empty buffer of that
    /// many bytes being refused: the caller is told through `largest_request`.)
    pub fn zeroed(n: usize) -> Self {
        note(n);
        #[cfg(kani)]
        {
            assert!(n <= MAX, "model capacity exceeded");
            let b: Box<[u8]> = Box::new([0u8; MAX]);
            let mut v = b.into_vec();
            unsafe { v.set_len(n) };
            Self(v)
        }
        #[cfg(not(kani))]
        {
            assert!(n <= 1 << 24, "P18.alloc: more memory is set aside than the payload could fill");
            Self(vec![0; n])
        }
    }
    pub fn freeze(self) -> Bytes {
        Bytes::from(self.0)
    }
    pub fn extend_from_slice(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
    pub fn reserve(&mut self, n: usize) {
        note(n);
    }
    pub fn resize(&mut self, n: usize, x: u8) {
        note(n);
        self.0.resize(n, x)
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn truncate(&mut self, n: usize) {
        self.0.truncate(n)
    }
    pub fn split(&mut self) -> BytesMut {
        BytesMut(core::mem::take(&mut self.0))
    }
}
impl Deref for BytesMut {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl DerefMut for BytesMut {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl AsRef<[u8]> for BytesMut {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl From<&[u8]> for BytesMut {
    fn from(b: &[u8]) -> Self {
        Self(b.to_vec())
    }
}
impl From<BytesMut> for Vec<u8> {
    fn from(b: BytesMut) -> Vec<u8> {
        b.0
    }
}
impl Extend<u8> for BytesMut {
    fn extend<I: IntoIterator<Item = u8>>(&mut self, i: I) {
        self.0.extend(i)
    }
}

macro_rules! gets {
    ($($n:ident $l:ident $t:ty),*) => {$(
        fn $n(&mut self) -> $t {
            let mut b = [0u8; core::mem::size_of::<$t>()];
            self.copy_to_slice(&mut b);
            <$t>::from_be_bytes(b)
        }
        fn $l(&mut self) -> $t {
            let mut b = [0u8; core::mem::size_of::<$t>()];
            self.copy_to_slice(&mut b);
            <$t>::from_le_bytes(b)
        }
    )*};
}
pub trait Buf {
    fn remaining(&self) -> usize;
    fn chunk(&self) -> &[u8];
    fn advance(&mut self, n: usize);
    fn has_remaining(&self) -> bool {
        self.remaining() > 0
    }
    fn copy_to_slice(&mut self, d: &mut [u8]) {
        let n = d.len();
        assert!(self.remaining() >= n, "advance out of bounds");
        d.copy_from_slice(&self.chunk()[..n]);
        self.advance(n)
    }
    fn copy_to_bytes(&mut self, n: usize) -> Bytes {
        assert!(self.remaining() >= n, "advance out of bounds");
        let b = Bytes::copy_from_slice(&self.chunk()[..n]);
        self.advance(n);
        b
    }
    fn get_u8(&mut self) -> u8 {
        let mut b = [0u8; 1];
        self.copy_to_slice(&mut b);
        b[0]
    }
    gets!(get_u16 get_u16_le u16, get_u32 get_u32_le u32, get_u64 get_u64_le u64);
    fn reader(self) -> buf::Reader<Self>
    where
        Self: Sized,
    {
        buf::Reader(self)
    }
}
impl Buf for Bytes {
    fn remaining(&self) -> usize {
        self.len()
    }
    fn chunk(&self) -> &[u8] {
        self
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.len(), "advance out of bounds");
        self.at += n
    }
}
impl Buf for &[u8] {
    fn remaining(&self) -> usize {
        self.len()
    }
    fn chunk(&self) -> &[u8] {
        self
    }
    fn advance(&mut self, n: usize) {
        *self = &self[n..]
    }
}
impl<T: Buf + ?Sized> Buf for &mut T {
    fn remaining(&self) -> usize {
        (**self).remaining()
    }
    fn chunk(&self) -> &[u8] {
        (**self).chunk()
    }
    fn advance(&mut self, n: usize) {
        (**self).advance(n)
    }
}
pub trait BufMut {
    fn put_slice(&mut self, b: &[u8]);
    fn put_u8(&mut self, x: u8) {
        self.put_slice(&[x])
    }
    fn put_bytes(&mut self, x: u8, n: usize) {
        for _ in 0..n {
            self.put_slice(&[x])
        }
    }
    fn put_u16(&mut self, x: u16) {
        self.put_slice(&x.to_be_bytes())
    }
    fn put_u32(&mut self, x: u32) {
        self.put_slice(&x.to_be_bytes())
    }
    fn put_u64(&mut self, x: u64) {
        self.put_slice(&x.to_be_bytes())
    }
    fn put_u16_le(&mut self, x: u16) {
        self.put_slice(&x.to_le_bytes())
    }
    fn put_u32_le(&mut self, x: u32) {
        self.put_slice(&x.to_le_bytes())
    }
    fn put_u64_le(&mut self, x: u64) {
        self.put_slice(&x.to_le_bytes())
    }
    fn put<B: Buf>(&mut self, mut b: B)
    where
        Self: Sized,
    {
        let n = b.remaining();
        self.put_slice(&b.chunk()[..n]);
        b.advance(n)
    }
    fn writer(self) -> buf::Writer<Self>
    where
        Self: Sized,
    {
        buf::Writer(self)
    }
}
impl BufMut for Vec<u8> {
    fn put_slice(&mut self, b: &[u8]) {
        self.extend_from_slice(b)
    }
}
impl BufMut for BytesMut {
    fn put_slice(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
impl<T: BufMut + ?Sized> BufMut for &mut T {
    fn put_slice(&mut self, b: &[u8]) {
        (**self).put_slice(b)
    }
}
pub mod buf {
    use super::*;
    pub use super::{Buf, BufMut};
    #[derive(Debug)]
    pub struct Reader<B>(pub(crate) B);
    impl<B> Reader<B> {
        pub fn get_ref(&self) -> &B {
            &self.0
        }
        pub fn get_mut(&mut self) -> &mut B {
            &mut self.0
        }
        pub fn into_inner(self) -> B {
            self.0
        }
    }
    impl<B: Buf> io::Read for Reader<B> {
        fn read(&mut self, d: &mut [u8]) -> io::Result<usize> {
            let n = if d.len() < self.0.remaining() { d.len() } else { self.0.remaining() };
            self.0.copy_to_slice(&mut d[..n]);
            Ok(n)
        }
    }
    impl<B: Buf> io::BufRead for Reader<B> {
        fn fill_buf(&mut self) -> io::Result<&[u8]> {
            Ok(self.0.chunk())
        }
        fn consume(&mut self, n: usize) {
            self.0.advance(n)
        }
    }
    #[derive(Debug)]
    pub struct Writer<B>(pub(crate) B);
    impl<B> Writer<B> {
        pub fn get_ref(&self) -> &B {
            &self.0
        }
        pub fn get_mut(&mut self) -> &mut B {
            &mut self.0
        }
        pub fn into_inner(self) -> B {
            self.0
        }
    }
    impl<B: BufMut> io::Write for Writer<B> {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.0.put_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> io::Result<()> {
            Ok(())
        }
    }
}
