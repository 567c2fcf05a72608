//! Contracts of `ethportal-api/src/utils/bytes.rs`.
#![allow(dead_code, unused_imports, clippy::all)]
#[cfg(not(feature = "real"))]
extern crate vstd as std;
#[cfg(feature = "real")]
extern crate rand_real as rand;
#[cfg(not(kani))]
extern crate hex_real as hex;
#[cfg(kani)]
#[macro_use]
extern crate lightfmt;

pub mod utils {
    #[path = "/repo/crates/ethportal-api/src/utils/bytes.rs"]
    pub mod bytes;
}
use utils::bytes::*;

fn lo(n: u8) -> u8 {
    if n < 10 { b'0' + n } else { b'a' + (n - 10) }
}
fn up(n: u8) -> u8 {
    if n < 10 { b'0' + n } else { b'A' + (n - 10) }
}
fn nib(c: u8) -> Option<u8> {
    if c >= b'0' && c <= b'9' {
        Some(c - b'0')
    } else if c >= b'a' && c <= b'f' {
        Some(c - b'a' + 10)
    } else if c >= b'A' && c <= b'F' {
        Some(c - b'A' + 10)
    } else {
        None
    }
}

fn encode<const N: usize>() {
    let a: [u8; N] = nd::bytes();
    let l = hex_encode(a);
    let u = hex_encode_upper(a);
    let (l, u) = (l.as_bytes(), u.as_bytes());
    assert!(l.len() == 2 + 2 * N && u.len() == 2 + 2 * N, "P01.len: two digits per byte after the prefix");
    assert!(l[0] == b'0' && l[1] == b'x' && u[0] == b'0' && u[1] == b'x', "P01.prefix: 0x prefix");
    let mut i = 0;
    while i < N {
        assert!(l[2 + 2 * i] == lo(a[i] >> 4) && l[3 + 2 * i] == lo(a[i] & 15), "P01.lower: lower-case digits of each byte");
        assert!(u[2 + 2 * i] == up(a[i] >> 4) && u[3 + 2 * i] == up(a[i] & 15), "P01.upper: upper-case digits of each byte");
        i += 1;
    }
}
fn roundtrip<const N: usize>() {
    let a: [u8; N] = nd::bytes();
    let which: bool = nd::any();
    let t = if which { hex_encode(a) } else { hex_encode_upper(a) };
    match hex_decode(&t) {
        Ok(d) => {
            assert!(d.len() == N, "P01.roundtrip-len: decoded length");
            let mut i = 0;
            while i < N {
                assert!(d[i] == a[i], "P01.roundtrip: decoded bytes");
                i += 1;
            }
        }
        Err(_) => assert!(false, "P01.roundtrip-ok: encoded text must decode"),
    }
}
/// Every text of exactly `N` bytes.
fn decode<const N: usize>() {
    let b: [u8; N] = nd::text();
    let mut good = N >= 2 && N % 2 == 0 && b[0] == b'0' && (b[1] == b'x' || b[1] == b'X');
    let mut i = 2;
    while i < N {
        if nib(b[i]).is_none() {
            good = false;
        }
        i += 1;
    }
    match hex_decode(nd::as_str(&b)) {
        Ok(v) => {
            assert!(good, "P01.reject: malformed text accepted");
            assert!(v.len() == (N - 2) / 2, "P01.decode-len: decoded length");
            let mut i = 0;
            while 2 * i + 2 < N {
                assert!(Some(v[i] >> 4) == nib(b[2 + 2 * i]) && Some(v[i] & 15) == nib(b[3 + 2 * i]), "P01.decode: decoded bytes");
                i += 1;
            }
        }
        Err(_) => assert!(!good, "P01.accept: well-formed text refused"),
    }
}
fn compact<const N: usize>() {
    let a: [u8; N] = nd::bytes();
    let c = hex_encode_compact(a);
    let c = c.as_bytes();
    if N <= 8 {
        assert!(c.len() == 2 + 2 * N, "P01.compact-full-len: full form up to 8 bytes");
        assert!(c[0] == b'0' && c[1] == b'x', "P01.compact-prefix: 0x prefix");
        let mut i = 0;
        while i < N {
            assert!(c[2 + 2 * i] == lo(a[i] >> 4) && c[3 + 2 * i] == lo(a[i] & 15), "P01.compact-full: digits of each byte");
            i += 1;
        }
    } else {
        assert!(c.len() == 12, "P01.compact-len: 0x + 4 digits + .. + 4 digits");
        let e = [
            b'0', b'x', lo(a[0] >> 4), lo(a[0] & 15), lo(a[1] >> 4), lo(a[1] & 15), b'.', b'.',
            lo(a[N - 2] >> 4), lo(a[N - 2] & 15), lo(a[N - 1] >> 4), lo(a[N - 1] & 15),
        ];
        let mut i = 0;
        while i < 12 {
            assert!(c[i] == e[i], "P01.compact: first four and last four digits");
            i += 1;
        }
    }
}

#[cfg(not(kani))]
fn native_long() {
    let n = nd::below(300);
    let a: Vec<u8> = (0..n).map(|_| nd::any::<u8>()).collect();
    let lower: String = std::format!("0x{}", a.iter().map(|b| std::format!("{b:02x}")).collect::<String>());
    let upper = std::format!("0x{}", lower[2..].to_ascii_uppercase());
    assert_eq!(hex_encode(&a), lower, "P01.native-lower");
    assert_eq!(hex_encode_upper(&a), upper, "P01.native-upper");
    let compact = if n <= 8 { lower.clone() } else { std::format!("{}..{}", &lower[..6], &lower[lower.len() - 4..]) };
    assert_eq!(hex_encode_compact(&a), compact, "P01.native-compact");
    for t in [&lower, &upper, &std::format!("0X{}", &lower[2..]), &std::format!("0X{}", &upper[2..])] {
        assert_eq!(hex_decode(t).ok(), Some(a.clone()), "P01.native-decode");
        // One edit: drop, replace or insert a character.
        let at = nd::below(t.len());
        let c = ['g', ' ', 'x', '_', '-', '\u{e9}', '0', 'F', '\u{1f600}', '\n', 'X'][nd::below(11)];
        let mut x: Vec<char> = t.chars().collect();
        match nd::below(3) {
            0 => drop(x.remove(at)),
            1 => x[at] = c,
            _ => x.insert(at, c),
        }
        let e: String = x.iter().collect();
        let good = x.len() >= 2 && x.len() % 2 == 0 && x[0] == '0' && (x[1] == 'x' || x[1] == 'X')
            && x[2..].iter().all(|c| c.is_ascii_hexdigit());
        let want = good.then(|| {
            (1..x.len() / 2).map(|i| u8::from_str_radix(&e[2 * i..2 * i + 2], 16).expect("hex")).collect::<Vec<u8>>()
        });
        assert_eq!(hex_decode(&e).ok(), want, "P01.native-edit: {e:?}");
    }
}

nd::harnesses! {
    fn p01_encode_0_3 (unwind = 10) { encode::<0>(); encode::<1>(); encode::<2>(); encode::<3>(); }
    fn p01_encode_8 (unwind = 34) { encode::<8>(); }
    fn p01_encode_32 (unwind = 70) { encode::<32>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p01_roundtrip_0_2 (unwind = 12) { roundtrip::<0>(); roundtrip::<1>(); roundtrip::<2>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p01_roundtrip_5 (unwind = 14) { roundtrip::<5>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p01_decode_0_3 (unwind = 10) { decode::<0>(); decode::<1>(); decode::<2>(); decode::<3>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p01_decode_4 (unwind = 10) { decode::<4>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p01_decode_5 (unwind = 10) { decode::<5>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p01_decode_8 (unwind = 12) { decode::<8>(); }
    fn p01_compact_short (unwind = 22) { compact::<0>(); compact::<1>(); compact::<7>(); compact::<8>(); }
    fn p01_compact_9 (unwind = 24) { compact::<9>(); }
    fn p01_compact_10_16 (unwind = 36) { compact::<10>(); compact::<16>(); }
    fn p01_compact_33 (unwind = 70) { compact::<33>(); }

    #[cfg_attr(kani, kani::stub(f32::powi, nd::stub::powi32), kani::stub(f64::powi, nd::stub::powi64))]
    fn p02_exact (unwind = 34) {
        let z: u8 = nd::any();
        let a = random_32byte_array(z);
        let mut lead = 0u32;
        let mut seen = false;
        let mut i = 0;
        while i < 32 {
            if !seen {
                lead += a[i].leading_zeros();
                seen = a[i] != 0;
            }
            i += 1;
        }
        assert!(lead == z as u32, "P02.exact: exactly the requested number of leading zero bits");
        let f = (z / 8) as usize;
        let k = z % 8;
        macro_rules! first {
            ($($n:literal)*) => {$(
                nd::cover!(k == $n && a[f] == 0x80u8 >> $n, "P02.free-low: smallest first byte is producible");
                nd::cover!(k == $n && a[f] == 0xffu8 >> $n, "P02.free-high: largest first byte is producible");
            )*};
        }
        first!(0 1 2 3 4 5 6 7);
        macro_rules! rest {
            ($($n:literal)*) => {$(
                nd::cover!(f < $n && a[$n] == 0, "P02.free-zero: a byte below the first set bit can be zero");
                nd::cover!(f < $n && a[$n] == 0xff, "P02.free-ones: a byte below the first set bit can be all ones");
                nd::cover!(f + 1 == $n && a[$n] == 0x5a, "P02.free-next: the byte right after the first set bit is free");
            )*};
        }
        rest!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    }
    /// Native only: encodings of every length up to 300 and texts around them.
    fn p01_native_long (unwind = 1) { #[cfg(not(kani))] native_long(); }
}
