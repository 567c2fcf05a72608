//! SHA-256 as an arbitrary function of the input bytes.
pub trait Digest {
    fn digest(x: impl AsRef<[u8]>) -> Output;
}
pub struct Sha256;
pub struct Output([u8; 32]);
impl From<Output> for [u8; 32] {
    fn from(o: Output) -> Self {
        o.0
    }
}
impl Digest for Sha256 {
    fn digest(x: impl AsRef<[u8]>) -> Output {
        Output(uf::hash_long(x.as_ref()))
    }
}
