#![allow(dead_code, unused_imports, clippy::all)]
extern crate self as ethportal_api;
#[cfg(not(feature = "real"))]
extern crate vstd as std;

pub mod consensus {
    #[path = "/repo/crates/ethportal-api/src/types/consensus/constants.rs"]
    pub mod constants;
}
#[path = "/repo/bin/portal-bridge/src/types/range.rs"]
pub mod range;

#[path = "/repo/bin/portal-bridge/src/types/mode.rs"]
pub mod mode;

use mode::{BridgeMode, ModeType};
use range::block_range_to_epochs;
use std::str::FromStr;

const E: u64 = 8192;

/// Decimal u64 as accepted on the command line: digits, optionally after a single '+'.
fn number(b: &[u8]) -> Option<u64> {
    let mut i = 0;
    if b.len() > 1 && b[0] == b'+' {
        i = 1;
    }
    if i >= b.len() {
        return None;
    }
    let mut v: u128 = 0;
    while i < b.len() {
        if b[i] < b'0' || b[i] > b'9' {
            return None;
        }
        v = v * 10 + (b[i] - b'0') as u128;
        if v > u64::MAX as u128 {
            return None;
        }
        i += 1;
    }
    Some(v as u64)
}
fn starts(b: &[u8], p: &[u8]) -> bool {
    if b.len() < p.len() {
        return false;
    }
    let mut i = 0;
    while i < p.len() {
        if b[i] != p[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn eqb(a: &[u8], e: &[u8]) -> bool {
    a.len() == e.len() && starts(a, e)
}
/// The one dash of `b`, if there is exactly one.
fn dash(b: &[u8]) -> Option<usize> {
    let mut at = None;
    let mut n = 0;
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'-' {
            n += 1;
            at = Some(i);
        }
        i += 1;
    }
    if n == 1 { at } else { None }
}
fn range_arg(b: &[u8]) -> Option<(u64, u64)> {
    if b.is_empty() || b[0] != b'r' {
        return None;
    }
    let b = &b[1..];
    let d = dash(b)?;
    let (x, y) = (number(&b[..d])?, number(&b[d + 1..])?);
    if x <= y { Some((x, y)) } else { None }
}
fn expect(b: &[u8]) -> Option<BridgeMode> {
    if eqb(b, b"latest") {
        Some(BridgeMode::Latest)
    } else if eqb(b, b"e2hs") {
        Some(BridgeMode::E2HS)
    } else if eqb(b, b"ephemeral-history") {
        Some(BridgeMode::EphemeralHistory)
    } else if starts(b, b"snapshot:") {
        number(&b[9..]).map(BridgeMode::Snapshot)
    } else if starts(b, b"single:") {
        range_arg(&b[7..]).map(|(x, y)| BridgeMode::Single(ModeType::BlockRange(x, y)))
    } else {
        None
    }
}
fn mode_is(b: &[u8]) {
    let want = expect(b);
    let got = BridgeMode::from_str(nd::as_str(b));
    match (&got, &want) {
        (Ok(g), Some(w)) => assert!(g == w, "P08.value: text selects the wrong mode"),
        (Ok(_), None) => assert!(false, "P08.refuse: malformed text accepted"),
        (Err(_), Some(_)) => assert!(false, "P08.accept: well-formed text refused"),
        (Err(_), None) => {}
    }
    core::mem::forget(got);
}
fn with_prefix<const P: usize, const N: usize, const T: usize>(p: &[u8; P]) {
    let t: [u8; N] = nd::text();
    let mut b = [0u8; T];
    let mut i = 0;
    while i < T {
        b[i] = if i < P { p[i] } else { t[i - P] };
        i += 1;
    }
    mode_is(&b);
}
#[cfg(not(kani))]
const SYMBOLS: [&str; 9] = ["0", "7", "r", "-", "+", ":", " ", "s", "\u{e9}"];
#[cfg(not(kani))]
fn exhaustive() {
    for p in ["", "single:", "single:r", "snapshot:", "latest", "Single:r"] {
        for len in 0..=5u32 {
            for mut k in 0..SYMBOLS.len().pow(len) {
                let mut t = String::from(p);
                for _ in 0..len {
                    t.push_str(SYMBOLS[k % SYMBOLS.len()]);
                    k /= SYMBOLS.len();
                }
                mode_is(t.as_bytes());
            }
        }
    }
}
#[cfg(not(kani))]
fn edits() {
    let good = [
        "latest", "e2hs", "ephemeral-history", "snapshot:1000000", "snapshot:0", "single:r10-12", "single:r7-7",
        "single:r0-18446744073709551615", "snapshot:18446744073709551615", "single:r18446744073709551615-18446744073709551615",
        "single:r100-99", "single:r1-2-3", "single:r-1", "single:r1-", "single:rr1-2", "snapshot:18446744073709551616", "single:r9-10", "single:r1-18446744073709551616",
    ];
    for g in good {
        mode_is(g.as_bytes());
        for i in 0..=g.len() {
            if i < g.len() {
                let mut d = String::from(g);
                d.remove(i);
                mode_is(d.as_bytes());
            }
            for c in (0u8..0x80).map(|c| c as char).chain(['\u{e9}', '\u{20ac}', '\u{660}']) {
                let mut x = String::from(g);
                x.insert(i, c);
                mode_is(x.as_bytes());
                if i < g.len() {
                    let mut x = String::from(g);
                    x.replace_range(i..i + 1, c.encode_utf8(&mut [0; 4]));
                    mode_is(x.as_bytes());
                }
            }
        }
    }
}
#[cfg(not(kani))]
fn numbers() {
    let (a, b): (u64, u64) = (nd::any(), nd::any());
    mode_is(std::format!("single:r{a}-{b}").as_bytes());
    mode_is(std::format!("single:r{a}-{a}").as_bytes());
    mode_is(std::format!("snapshot:{b}").as_bytes());
    mode_is(std::format!("snapshot:{b}0").as_bytes());
    mode_is(std::format!("single:r{}-{}", a as u128 + b as u128, b).as_bytes());
}

#[cfg(not(kani))]
fn long_range() {
    let k = if nd::below(400) == 0 { nd::below(300_000) as u64 } else { nd::below(64) as u64 };
    let s0: u64 = nd::any();
    let (x, y) = (nd::any::<u16>() as u64 % E, nd::any::<u16>() as u64 % E);
    let ep = (s0 / E).min(u64::MAX / E - k);
    let (s, e) = (ep * E + x, (ep + k) * E + y);
    nd::assume(s <= e);
    let m = block_range_to_epochs(s, e);
    assert_eq!(m.len() as u64, k + 1, "P09.long-count {s} {e}");
    for q in ep..=ep + k {
        let (a, b) = (s.max(q * E), e.min(q * E + (E - 1)));
        let want = if (a, b) == (q * E, q * E + (E - 1)) { None } else { Some((a, b)) };
        assert_eq!(m.get(&q), Some(&want), "P09.long {s} {e} epoch {q}");
    }
}

nd::harnesses! {
    fn p08_snapshot_0_1 (unwind = 24) { with_prefix::<9, 0, 9>(b"snapshot:"); with_prefix::<9, 1, 10>(b"snapshot:"); }
    fn p08_snapshot_3 (unwind = 24) { with_prefix::<9, 3, 12>(b"snapshot:"); }
    /// Native only: every text of up to five symbols after each prefix, symbols from the parser's
    /// own alphabet plus characters it must refuse.
    fn p08_exhaustive (unwind = 1) { #[cfg(not(kani))] exhaustive(); }
    /// Native only: every single-character edit of well-formed arguments.
    fn p08_edits (unwind = 1) { #[cfg(not(kani))] edits(); }
    /// Native only: seeded numbers around every power of ten and two.
    fn p08_numbers (unwind = 1) { #[cfg(not(kani))] numbers(); }

    /// Every range touching at most three epochs, anywhere in the u64 block space.
    fn range_partition (unwind = 5) {
        let s: u64 = nd::any();
        let e: u64 = nd::any();
        nd::assume(s <= e && e / E - s / E <= 2);
        let m = block_range_to_epochs(s, e);
        assert!(m.len() as u64 == e / E - s / E + 1, "P09.count: one entry per touched epoch");
        let b: u64 = nd::any();
        let ep = b / E;
        let inside = s <= b && b <= e;
        match m.get(&ep) {
            None => assert!(!inside, "P09.cover: a requested block is in no epoch entry"),
            Some(None) => assert!(inside, "P09.full: a fully-covered epoch contains an unrequested block"),
            Some(Some((x, y))) => {
                assert!((*x <= b && b <= *y) == inside, "P09.partial: sub-range differs from the overlap");
                assert!(x / E == ep && y / E == ep, "P09.within: sub-range leaves its epoch");
                assert!(*x > ep * E || *y < ep * E + (E - 1), "P09.canonical: full epoch must be reported as full");
            }
        }
        nd::cover!(matches!(m.get(&ep), Some(None)), "full epoch");
        nd::cover!(matches!(m.get(&ep), Some(Some(_))), "partial epoch");
    }
    /// Start after end.
    fn range_backwards (unwind = 3) {
        let s: u64 = nd::any();
        let e: u64 = nd::any();
        nd::assume(s > e);
        let m = block_range_to_epochs(s, e);
        assert!(s / E == e / E || m.is_empty(), "P09.empty: an empty range yields nothing");
    }
    /// Native only: ranges of up to 64 epochs, now and then up to 300000.
    fn range_long (unwind = 1) { #[cfg(not(kani))] long_range(); }
}
