//! Text rendering without `core::fmt` machinery (see `lightfmt_macro`). `#[macro_use]` this crate to
//! shadow `format!`, `write!`, `println!` and friends under the verifier.
pub use std::string::String;
pub struct W<'a, T: ?Sized>(pub &'a T);

/// Rendering for the types templates use most; everything else goes through `Display`/`Debug`.
pub trait Show {
    fn show(&self, s: &mut String);
    fn show_debug(&self, s: &mut String);
}
impl Show for W<'_, str> {
    fn show(&self, s: &mut String) {
        s.push_str(self.0)
    }
    fn show_debug(&self, s: &mut String) {
        s.push('"');
        s.push_str(self.0);
        s.push('"')
    }
}
impl Show for W<'_, &str> {
    fn show(&self, s: &mut String) {
        s.push_str(self.0)
    }
    fn show_debug(&self, s: &mut String) {
        W(*self.0).show_debug(s)
    }
}
impl Show for W<'_, String> {
    fn show(&self, s: &mut String) {
        s.push_str(self.0)
    }
    fn show_debug(&self, s: &mut String) {
        W(self.0.as_str()).show_debug(s)
    }
}
impl Show for W<'_, &String> {
    fn show(&self, s: &mut String) {
        s.push_str(self.0)
    }
    fn show_debug(&self, s: &mut String) {
        W(self.0.as_str()).show_debug(s)
    }
}
pub trait Slow {
    fn show(&self, s: &mut String);
    fn show_debug(&self, s: &mut String);
    fn show_x(&self, s: &mut String);
    fn show_hx(&self, s: &mut String);
    fn show_02x(&self, s: &mut String);
}
/// Any other value: rendered as an opaque marker (texts of error messages are not under contract).
impl<T: ?Sized> Slow for &W<'_, T> {
    fn show(&self, s: &mut String) {
        s.push('?')
    }
    fn show_debug(&self, s: &mut String) {
        s.push('?')
    }
    fn show_x(&self, s: &mut String) {
        s.push('?')
    }
    fn show_hx(&self, s: &mut String) {
        s.push('?')
    }
    fn show_02x(&self, s: &mut String) {
        s.push('?')
    }
}
/// Hexadecimal renderings of bytes are exact.
pub trait ShowHex {
    fn show_x(&self, s: &mut String);
    fn show_hx(&self, s: &mut String);
    fn show_02x(&self, s: &mut String);
}
fn digit(n: u8) -> char {
    (if n < 10 { b'0' + n } else { b'a' + n - 10 }) as char
}
fn byte(b: u8, s: &mut String, pad: bool) {
    if pad || b >= 16 {
        s.push(digit(b >> 4));
    }
    s.push(digit(b & 15));
}
macro_rules! hexes {
    ($($t:ty => $e:expr),*) => {$(
        impl ShowHex for W<'_, $t> {
            fn show_x(&self, s: &mut String) {
                byte($e(self.0), s, false)
            }
            fn show_hx(&self, s: &mut String) {
                s.push_str("0x");
                byte($e(self.0), s, false)
            }
            fn show_02x(&self, s: &mut String) {
                byte($e(self.0), s, true)
            }
        }
    )*};
}
hexes!(u8 => |x: &u8| *x, &u8 => |x: &&u8| **x);
impl Show for W<'_, char> {
    fn show(&self, s: &mut String) {
        s.push(*self.0)
    }
    fn show_debug(&self, s: &mut String) {
        s.push('\'');
        s.push(*self.0);
        s.push('\'')
    }
}
pub use lightfmt_macro::format_light;

#[macro_export]
macro_rules! format {
    ($($t:tt)*) => { $crate::format_light!($($t)*) };
}
