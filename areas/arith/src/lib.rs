//! Contracts of `trin-validation/src/merkle/safe_arith.rs`, over the full domain of every type.
#![allow(dead_code, unused_imports, clippy::all)]
#[cfg(not(feature = "real"))]
extern crate vstd as std;

#[path = "/repo/crates/validation/src/merkle/safe_arith.rs"]
pub mod safe_arith;
use safe_arith::*;

macro_rules! linear {
    ($t:ty) => {{
        let a: $t = nd::any();
        let b: $t = nd::any();
        let (wa, wb) = (a as i128, b as i128);
        let fits = |v: i128| v >= <$t>::MIN as i128 && v <= <$t>::MAX as i128;
        let chk = |op: u8, r: Result<$t>, exact: i128| match r {
            Ok(v) => assert!(fits(exact) && v as i128 == exact, "P07.exact: result differs from the mathematical one"),
            Err(e) => assert!(!fits(exact) && e == ArithError::Overflow, "P07.overflow: error although the result is representable"),
        };
        chk(0, a.safe_add(b), wa + wb);
        chk(1, a.safe_sub(b), wa - wb);
        let chk_assign = |r: Result<()>, after: $t, exact: i128| match r {
            Ok(()) => assert!(fits(exact) && after as i128 == exact, "P07.assign: in-place result differs"),
            Err(e) => assert!(!fits(exact) && after == a && e == ArithError::Overflow, "P07.assign-unchanged: operand changed on error"),
        };
        let mut x = a;
        let r = x.safe_add_assign(b);
        chk_assign(r, x, wa + wb);
        let mut x = a;
        let r = x.safe_sub_assign(b);
        chk_assign(r, x, wa - wb);
        assert!(<$t as SafeArith>::ZERO == 0 && <$t as SafeArith>::ONE == 1, "P07.consts: zero and one");
    }};
}
macro_rules! mul {
    ($t:ty, $w:ty) => {{
        let a: $t = nd::any();
        let b: $t = nd::any();
        let exact = (a as $w) * (b as $w);
        let fits = exact >= <$t>::MIN as $w && exact <= <$t>::MAX as $w;
        match a.safe_mul(b) {
            Ok(v) => assert!(fits && v as $w == exact, "P07.mul: product differs from the mathematical one"),
            Err(e) => assert!(!fits && e == ArithError::Overflow, "P07.mul-overflow: error although the product is representable"),
        }
        let mut x = a;
        match x.safe_mul_assign(b) {
            Ok(()) => assert!(fits && x as $w == exact, "P07.mul-assign: in-place product differs"),
            Err(_) => assert!(!fits && x == a, "P07.mul-assign-unchanged: operand changed on error"),
        }
    }};
}
/// Against the primitive overflow-reporting product (the 8- and 16-bit cases also check against the
/// mathematical product in a wider type).
macro_rules! mul_prim {
    ($t:ty) => {{
        let a: $t = nd::any();
        let b: $t = nd::any();
        let (exact, over) = a.overflowing_mul(b);
        match a.safe_mul(b) {
            Ok(v) => assert!(!over && v == exact, "P07.mul-prim: product differs"),
            Err(e) => assert!(over && e == ArithError::Overflow, "P07.mul-prim-overflow: error although the product is representable"),
        }
        let mut x = a;
        match x.safe_mul_assign(b) {
            Ok(()) => assert!(!over && x == exact, "P07.mul-prim-assign: in-place product differs"),
            Err(_) => assert!(over && x == a, "P07.mul-prim-assign-unchanged: operand changed on error"),
        }
    }};
}
macro_rules! shifts {
    ($t:ty) => {{
        let a: $t = nd::any();
        let k: u32 = nd::any();
        let ok = k < <$t>::BITS;
        match a.safe_shl(k) {
            Ok(v) => assert!(ok && v == a << k, "P07.shl: shifted value"),
            Err(e) => assert!(!ok && e == ArithError::Overflow, "P07.shl-overflow: over-wide shift is an overflow"),
        }
        match a.safe_shr(k) {
            Ok(v) => assert!(ok && v == a >> k, "P07.shr: shifted value"),
            Err(e) => assert!(!ok && e == ArithError::Overflow, "P07.shr-overflow: over-wide shift is an overflow"),
        }
        let mut x = a;
        let r = x.safe_shl_assign(k);
        assert!(if ok { r.is_ok() && x == a << k } else { r.is_err() && x == a }, "P07.shl-assign: in-place shift");
        let mut x = a;
        let r = x.safe_shr_assign(k);
        assert!(if ok { r.is_ok() && x == a >> k } else { r.is_err() && x == a }, "P07.shr-assign: in-place shift");
    }};
}
macro_rules! divs {
    ($t:ty) => {{
        let a: $t = nd::any();
        let b: $t = nd::any();
        let ok = b != 0 && !(<$t>::MIN != 0 && a == <$t>::MIN && b.wrapping_add(1) == 0);
        let d = a.safe_div(b);
        let m = a.safe_rem(b);
        if ok {
            assert!(d == Ok(a / b), "P07.div: quotient");
            assert!(m == Ok(a % b), "P07.rem: remainder");
        } else {
            assert!(d == Err(ArithError::DivisionByZero), "P07.div-err: division error");
            assert!(m == Err(ArithError::DivisionByZero), "P07.rem-err: division error");
        }
        let mut x = a;
        let r = x.safe_div_assign(b);
        assert!(if ok { r.is_ok() && x == a / b } else { r.is_err() && x == a }, "P07.div-assign: in-place quotient");
        let mut x = a;
        let r = x.safe_rem_assign(b);
        assert!(if ok { r.is_ok() && x == a % b } else { r.is_err() && x == a }, "P07.rem-assign: in-place remainder");
    }};
}
macro_rules! sums {
    ($t:ty) => {{
        let a: [$t; 4] = [nd::any(), nd::any(), nd::any(), nd::any()];
        let n = nd::below(5);
        let fits = |v: i128| v >= <$t>::MIN as i128 && v <= <$t>::MAX as i128;
        let (mut acc, mut ok) = (0i128, true);
        let mut i = 0;
        while i < n {
            acc += a[i] as i128;
            if !fits(acc) {
                ok = false;
            }
            i += 1;
        }
        match a[..n].iter().copied().safe_sum() {
            Ok(v) => assert!(ok && v as i128 == acc, "P07.sum: sum differs from the mathematical one"),
            Err(e) => assert!(!ok && e == ArithError::Overflow, "P07.sum-overflow: error although every partial sum is representable"),
        }
    }};
}

nd::harnesses! {
    fn p07_add_sub_unsigned (unwind = 2) { linear!(u8); linear!(u16); linear!(u32); linear!(u64); linear!(usize); }
    fn p07_add_sub_signed (unwind = 2) { linear!(i8); linear!(i16); linear!(i32); linear!(i64); linear!(isize); }
    fn p07_mul_8_16 (unwind = 2) { mul!(u8, i32); mul!(i8, i32); mul!(u16, i64); mul!(i16, i64); }
    #[cfg_attr(kani, kani::solver(z3))]
    fn p07_mul_32 (unwind = 2) { mul_prim!(u32); mul_prim!(i32); }
    #[cfg_attr(kani, kani::solver(z3))]
    fn p07_mul_64 (unwind = 2) { mul_prim!(u64); mul_prim!(i64); }
    #[cfg_attr(kani, kani::solver(z3))]
    fn p07_mul_size (unwind = 2) { mul_prim!(usize); mul_prim!(isize); }
    fn p07_shifts (unwind = 2) {
        shifts!(u8); shifts!(u16); shifts!(u32); shifts!(u64); shifts!(usize);
        shifts!(i8); shifts!(i16); shifts!(i32); shifts!(i64); shifts!(isize);
    }
    #[cfg_attr(kani, kani::solver(z3))]
    fn p07_div_8_16 (unwind = 2) { divs!(u8); divs!(i8); divs!(u16); divs!(i16); }
    #[cfg_attr(kani, kani::solver(z3))]
    fn p07_div_32 (unwind = 2) { divs!(u32); divs!(i32); }
    #[cfg_attr(kani, kani::solver(z3))]
    fn p07_div_64 (unwind = 2) { divs!(u64); divs!(i64); }
    #[cfg_attr(kani, kani::solver(z3))]
    fn p07_div_size (unwind = 2) { divs!(usize); divs!(isize); }
    fn p07_sum (unwind = 6) { sums!(u8); sums!(u64); sums!(i8); sums!(i64); }
}
