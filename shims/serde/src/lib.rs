//! Text serialisation is outside the areas that use this stand-in: derives expand to nothing and the
//! traits hold for every type.
pub use noserde_derive::{Deserialize, Serialize};
pub mod ser {
    pub use super::{Serialize, Serializer};
    pub trait Error: Sized {
        fn custom<T>(_: T) -> Self;
    }
    impl<X: crate::Opaque> Error for X {
        fn custom<T>(_: T) -> Self {
            X::opaque()
        }
    }
}
pub mod de {
    pub use super::{Deserialize, Deserializer};
    pub trait DeserializeOwned {}
    impl<T> DeserializeOwned for T {}
    pub trait Error: Sized {
        fn custom<T>(_: T) -> Self;
    }
    impl<X: crate::Opaque> Error for X {
        fn custom<T>(_: T) -> Self {
            X::opaque()
        }
    }
}
pub trait Opaque {
    fn opaque() -> Self;
}
#[derive(Debug)]
pub struct SerdeError;
impl Opaque for SerdeError {
    fn opaque() -> Self {
        SerdeError
    }
}
pub trait Serializer: Sized {
    type Ok;
    type Error: Opaque;
    fn serialize_str(self, s: &str) -> Result<Self::Ok, Self::Error>;
}
pub trait Deserializer<'de>: Sized {
    type Error: Opaque;
    fn text(self) -> Result<String, Self::Error>;
}
pub trait Serialize {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str("")
    }
}
impl Serialize for u8 {}
impl Serialize for alloy::primitives::Bytes {}
impl<'de> Deserialize<'de> for u8 {
    fn deserialize<D: Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        Err(D::Error::opaque())
    }
}
impl<'de> Deserialize<'de> for alloy::primitives::Bytes {
    fn deserialize<D: Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
        Err(D::Error::opaque())
    }
}
pub trait Deserialize<'de>: Sized {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error>;
}
