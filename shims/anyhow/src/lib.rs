//! Errors as opaque values: that an error was raised matters, its text does not.
use core::fmt;

pub struct Error(());
pub type Result<T, E = Error> = core::result::Result<T, E>;

impl Error {
    pub fn opaque() -> Self {
        Error(())
    }
    pub fn msg<M>(_: M) -> Self {
        Error(())
    }
    pub fn new<E>(_: E) -> Self {
        Error(())
    }
    pub fn to_string(&self) -> String {
        String::new()
    }
    pub fn context<C>(self, _: C) -> Self {
        self
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("error")
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("error")
    }
}
impl<E: std::error::Error + 'static> From<E> for Error {
    fn from(_: E) -> Self {
        Error(())
    }
}
pub trait Context<T> {
    fn context<C>(self, c: C) -> Result<T>;
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T>;
}
impl<T, E> Context<T> for core::result::Result<T, E> {
    fn context<C>(self, _: C) -> Result<T> {
        match self {
            Result::Ok(x) => Result::Ok(x),
            Err(e) => {
                core::mem::forget(e);
                Err(Error(()))
            }
        }
    }
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T> {
        self.context(())
    }
}
impl<T> Context<T> for Option<T> {
    fn context<C>(self, _: C) -> Result<T> {
        self.ok_or(Error(()))
    }
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T> {
        self.ok_or(Error(()))
    }
}
#[allow(non_snake_case)]
pub fn Ok<T>(x: T) -> Result<T> {
    Result::Ok(x)
}
#[macro_export]
macro_rules! anyhow {
    ($($t:tt)*) => { $crate::Error::opaque() };
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return ::core::result::Result::Err($crate::Error::opaque()) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr $(, $($t:tt)*)?) => {
        if !$c { return ::core::result::Result::Err($crate::Error::opaque()); }
    };
}
#[derive(Debug)]
struct Opaque;
impl fmt::Display for Opaque {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Opaque {}
static OPAQUE: Opaque = Opaque;
impl core::ops::Deref for Error {
    type Target = dyn std::error::Error + Send + Sync + 'static;
    fn deref(&self) -> &Self::Target {
        &OPAQUE
    }
}
