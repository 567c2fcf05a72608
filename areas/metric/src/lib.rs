#![allow(dead_code, unused_imports, clippy::all)]

#[path = "/repo/crates/ethportal-api/src/types/distance.rs"]
pub mod distance;

use alloy::primitives::U256;
use distance::*;

type K = [u8; 32];
fn key() -> K {
    nd::bytes()
}
fn be(x: &K) -> (u128, u128) {
    let (mut a, mut b) = ([0u8; 16], [0u8; 16]);
    a.copy_from_slice(&x[..16]);
    b.copy_from_slice(&x[16..]);
    (u128::from_be_bytes(a), u128::from_be_bytes(b))
}
fn d(x: &K, y: &K) -> (u128, u128) {
    be(&XorMetric::distance(x, y).big_endian())
}
fn xor(x: &K, y: &K) -> (u128, u128) {
    let (a, b) = (be(x), be(y));
    (a.0 ^ b.0, a.1 ^ b.1)
}
/// a + b as 257-bit number
fn sum(a: (u128, u128), b: (u128, u128)) -> (bool, u128, u128) {
    let (lo, c) = a.1.overflowing_add(b.1);
    let (hi, c1) = a.0.overflowing_add(b.0);
    let (hi, c2) = hi.overflowing_add(c as u128);
    (c1 || c2, hi, lo)
}

nd::harnesses! {
    fn p15_value(unwind = 34) {
        let (x, y) = (key(), key());
        let v = XorMetric::distance(&x, &y);
        assert!(be(&v.big_endian()) == xor(&x, &y), "P15.xor: distance is not the big-endian value of the XOR");
        let b = v.big_endian();
        let i = nd::below(32);
        assert!(b[i] == x[i] ^ y[i], "P15.bytes: rendering is not the XOR bytes");
        assert!(v.big_endian_u32() == u32::from_be_bytes([b[0], b[1], b[2], b[3]]), "P15.top: top four bytes are wrong");
        assert!((*v).is_zero() == (x == y), "P15.zero: zero distance between different keys, or not between equal ones");
        nd::cover!((*v).is_zero(), "equal keys occur");
    }
    fn p15_order(unwind = 34) {
        // comparing distances compares the numbers
        let (x, y, z) = (key(), key(), key());
        let (a, b) = (XorMetric::distance(&x, &y), XorMetric::distance(&x, &z));
        assert!((a < b) == (xor(&x, &y) < xor(&x, &z)), "P15.order: distances are not ordered by value");
        assert!((a == b) == (y == z), "P15.unique: two keys at the same distance");
        assert!(a <= Distance::MAX && Distance::ZERO <= a, "P15.extremes: a distance outside the extremes");
    }
    fn p15_metric(unwind = 34) {
        let (x, y, z) = (key(), key(), key());
        assert!(d(&x, &y) == d(&y, &x), "P15.symmetry: distance is not symmetric");
        let (c, hi, lo) = sum(d(&x, &y), d(&y, &z));
        let t = d(&x, &z);
        assert!(c || (hi, lo) >= t, "P15.triangle: triangle inequality fails");
    }
    fn p15_log(unwind = 258) {
        let (x, y) = (key(), key());
        let got = XorMetric::distance(&x, &y).log2();
        let v = xor(&x, &y);
        match got {
            None => assert!(x == y, "P15.log-none: no logarithm although the keys differ"),
            Some(n) => {
                assert!(n >= 1 && n <= 256, "P15.log-range: logarithm outside 1..=256");
                // bit n-1 is the highest set bit
                let top = if n > 128 { v.0 >> (n - 129) == 1 } else { v.0 == 0 && v.1 >> (n - 1) == 1 };
                assert!(top, "P15.log: logarithm is not 256 minus the number of leading equal bits");
            }
        }
        nd::cover!(got == Some(256), "far keys occur");
        nd::cover!(got == Some(1), "neighbouring keys occur");
    }
    fn p15_convert(unwind = 34) {
        let x = U256::from_be_bytes(key());
        let d = Distance::from(x);
        assert!(*d == x, "P15.convert: conversion from an integer changes the value");
        assert!(Distance::MAX.big_endian() == [0xff; 32] && Distance::ZERO.big_endian() == [0; 32], "P15.constants: extremes are wrong");
    }
}
