//! The parts of the alloy crates that the verified files mention, with their documented meaning.
pub mod primitives;
pub mod consensus;
/// Hexadecimal texts, only used in log messages.
pub mod hex {
    pub trait ToHexExt {
        fn encode_hex_with_prefix(&self) -> String {
            String::new()
        }
    }
    impl<T: AsRef<[u8]>> ToHexExt for T {}
}
/// Interface of RLP decoding; errors carry nothing.
pub mod rlp {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        Custom(&'static str),
    }
    impl core::fmt::Display for Error {
        fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for Error {}
    pub trait Decodable: Sized {
        fn decode(b: &mut &[u8]) -> Result<Self, Error>;
    }
}
