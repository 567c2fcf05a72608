//! `lazy_static!`: the initialiser is evaluated on use (same value every time).
#[macro_export]
macro_rules! lazy_static {
    ($($(#[$m:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr;)*) => {$(
        #[allow(non_camel_case_types)]
        $v struct $n;
        impl core::ops::Deref for $n {
            type Target = $t;
            fn deref(&self) -> &$t {
                Box::leak(Box::new($e))
            }
        }
    )*};
}
