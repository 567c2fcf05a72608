#![allow(dead_code, unused_imports, clippy::all)]
extern crate self as alloy_chains;
extern crate self as bimap;
extern crate self as discv5;
extern crate self as once_cell;
extern crate self as parking_lot;

/// Texts in error messages are not looked at.
#[cfg(kani)]
macro_rules! format {
    ($($t:tt)*) => { String::new() };
}
pub mod types {
    #[path = "/repo/crates/ethportal-api/src/types/accept_code.rs"]
    pub mod accept_code;
    #[path = "/repo/crates/ethportal-api/src/types/network.rs"]
    pub mod network;
    #[path = "/repo/crates/ethportal-api/src/types/network_spec.rs"]
    pub mod network_spec;
    #[path = "/repo/crates/ethportal-api/src/types/protocol_versions.rs"]
    pub mod protocol_versions;
    pub mod consensus {
        #[path = "/repo/crates/ethportal-api/src/types/consensus/constants.rs"]
        pub mod constants;
    }
}

// Stand-ins for the other crates the specification of a network mentions.
pub struct Chain;
impl Chain {
    pub fn mainnet() -> Self {
        Chain
    }
    pub fn sepolia() -> Self {
        Chain
    }
}
#[derive(Clone, Debug)]
pub struct BiHashMap<L, R>(Vec<(L, R)>);
impl<L: PartialEq, R: PartialEq> BiHashMap<L, R> {
    pub fn new() -> Self {
        Self(Vec::new())
    }
    pub fn insert(&mut self, l: L, r: R) {
        self.0.retain(|(a, b)| *a != l && *b != r);
        self.0.push((l, r))
    }
    pub fn get_by_left(&self, l: &L) -> Option<&R> {
        self.0.iter().find(|x| x.0 == *l).map(|x| &x.1)
    }
    pub fn get_by_right<Q: ?Sized>(&self, r: &Q) -> Option<&L>
    where
        R: core::borrow::Borrow<Q>,
        Q: PartialEq,
    {
        self.0.iter().find(|x| x.1.borrow() == r).map(|x| &x.0)
    }
}
pub mod sync {
    pub struct Lazy<T>(std::sync::LazyLock<T>);
    impl<T> Lazy<T> {
        pub const fn new(f: fn() -> T) -> Self {
            Lazy(std::sync::LazyLock::new(f))
        }
    }
    impl<T> core::ops::Deref for Lazy<T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }
}
#[derive(Debug)]
pub struct RwLock<T>(std::sync::RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(x: T) -> Self {
        Self(std::sync::RwLock::new(x))
    }
    pub fn read(&self) -> std::sync::RwLockReadGuard<'_, T> {
        self.0.read().unwrap()
    }
    pub fn write(&self) -> std::sync::RwLockWriteGuard<'_, T> {
        self.0.write().unwrap()
    }
}
/// A node record: at most the value under the protocol-version key, as encoded.
pub struct Enr(pub Option<Vec<u8>>);
impl Enr {
    pub fn get_decodable<T: alloy_rlp::Decodable>(&self, key: impl AsRef<[u8]>) -> Option<alloy_rlp::Result<T>> {
        assert!(key.as_ref() == b"pv", "P17.record-key: versions are read under another key");
        self.0.as_ref().map(|v| T::decode(&mut &v[..]))
    }
}

use alloy::primitives::Bytes;
use core::mem::forget;
use types::{accept_code::*, network::Network, network_spec::*, protocol_versions::*};

/// The codes as bytes on the wire.
fn code(b: u8) -> AcceptCode {
    match b {
        0 => AcceptCode::Accepted,
        1 => AcceptCode::Declined,
        2 => AcceptCode::AlreadyStored,
        3 => AcceptCode::NotWithinRadius,
        4 => AcceptCode::RateLimited,
        5 => AcceptCode::InboundTransferInProgress,
        _ => AcceptCode::Unspecified,
    }
}
fn version(v: u8) -> ProtocolVersion {
    match v {
        0 => ProtocolVersion::V0,
        1 => ProtocolVersion::V1,
        2 => ProtocolVersion::V2,
        _ => ProtocolVersion::UnspecifiedVersion(v),
    }
}
fn codes() {
    let b: u8 = nd::any();
    let c = AcceptCode::from(b);
    assert!(c == code(b), "P17.code: code byte read wrongly");
    assert!((c == AcceptCode::Accepted) == (b == 0), "P17.acceptance: another code is read as acceptance");
    assert!(AcceptCode::from(u8::from(c)) == c && u8::from(c) == if b <= 5 { b } else { 255 }, "P17.code-byte: code written wrongly");
    let v = ProtocolVersion::from(b);
    assert!(v == version(b) && u8::from(v) == b && *v == b, "P17.version-byte: version read or written wrongly");
    assert!(v.is_v1_enabled() == (b >= 1), "P17.version-codes: per-item codes used at the wrong version");
    let d: u8 = nd::any();
    assert!((v < ProtocolVersion::from(d)) == (b < d) && (v == ProtocolVersion::from(d)) == (b == d), "P17.version-order: versions are not ordered by number");
}
/// A list of `N` codes, sent at `v`.
fn list<const N: usize>(v: u8) {
    let b: [u8; N] = nd::bytes();
    let mut l = match AcceptCodeList::new(N) {
        Ok(l) => l,
        Err(_) => {
            assert!(N > 64, "P17.new: list of at most 64 codes refused");
            return;
        }
    };
    assert!(N <= 64 && l.len() == N, "P17.new-len: list of another length");
    let mut any = false;
    let mut i = 0;
    while i < N {
        assert!(l[i] == AcceptCode::Declined, "P17.new-declined: codes do not start as declined");
        l.set(i, code(b[i]));
        assert!(l[i] == code(b[i]), "P17.set: code is not set");
        any |= b[i] == 0;
        i += 1;
    }
    assert!(l.all_declined() == !any, "P17.all-declined: wrong answer whether nothing is accepted");
    match l.encode(version(v)) {
        Ok(e) => {
            let mut i = 0;
            if v >= 1 {
                assert!(e.len() == N, "P17.encode-len: not one byte per code");
                while i < N {
                    assert!(e[i] == u8::from(code(b[i])), "P17.encode: code written wrongly");
                    i += 1;
                }
            } else {
                assert!(e.len() == N / 8 + 1, "P17.bits-len: not one bit per item and a marker");
                while i < N {
                    assert!((e[i / 8] >> (i % 8) & 1 == 1) == (b[i] == 0), "P17.bits: bit is not whether the item is accepted");
                    i += 1;
                }
                assert!(e[N / 8] >> (N % 8) == 1, "P17.bits-end: bits do not end with the marker");
            }
            forget(e);
        }
        Err(_) => assert!(false, "P17.encode-ok: list is not encoded"),
    }
    forget(l);
}
/// Every byte string of `N` bytes, read at `v`.
fn decode<const N: usize>(v: u8) {
    read(v, nd::bytes::<N>())
}
/// Bit lists of `N` bytes whose last byte is `last`.
fn bits<const N: usize>(last: u8) {
    let mut b: [u8; N] = nd::bytes();
    b[N - 1] = last;
    read(0, b)
}
fn read<const N: usize>(v: u8, b: [u8; N]) {
    let r = AcceptCodeList::decode(version(v), Bytes::from(b.to_vec()));
    if v >= 1 {
        match &r {
            Ok(l) => {
                assert!(N <= 64 && l.len() == N, "P17.decode-len: not one code per byte");
                let mut i = 0;
                while i < N {
                    assert!(l[i] == code(b[i]), "P17.decode: code read wrongly");
                    i += 1;
                }
            }
            Err(_) => assert!(N > 64, "P17.decode-ok: codes refused"),
        }
    } else {
        let len = if N > 0 && b[N - 1] != 0 { Some(8 * (N - 1) + 7 - b[N - 1].leading_zeros() as usize) } else { None };
        match (&r, len) {
            (Ok(l), Some(n)) => {
                assert!(n <= 64 && l.len() == n, "P17.bits-decode-len: not one code per bit");
                let mut i = 0;
                while i < n {
                    let acc = b[i / 8] >> (i % 8) & 1 == 1;
                    assert!(l[i] == if acc { AcceptCode::Accepted } else { AcceptCode::Declined }, "P17.bits-decode: bit read wrongly");
                    i += 1;
                }
            }
            (Ok(_), None) => assert!(false, "P17.bits-refuse: bits without a marker accepted"),
            (Err(_), Some(n)) => assert!(n > 64, "P17.bits-ok: bits refused"),
            (Err(_), None) => {}
        }
    }
    forget(r);
}
/// Supported versions of a network of `N` entries, and a peer announcing `M`.
fn negotiate<const N: usize, const M: usize>(only: Option<u8>) {
    let (a, mut b): ([u8; N], [u8; M]) = (nd::bytes(), nd::bytes());
    if let Some(x) = only {
        b[0] = x;
    }
    let ours = ProtocolVersionList::new(versions(&a));
    let mut sorted = true;
    let mut i = 0;
    while i < N {
        if a[i] > 2 || (i > 0 && a[i - 1] >= a[i]) {
            sorted = false;
        }
        i += 1;
    }
    assert!(ours.is_strictly_sorted_and_specified() == sorted, "P17.sorted: wrong answer whether versions are known and increasing");
    // Networks support known versions in increasing order (see `unordered`).
    nd::assume(sorted);
    let spec = NetworkSpec::new(BiHashMap::new(), Network::Mainnet, ours, alloy_hardforks::EthereumChainHardforks::mainnet(), 0);
    match &spec {
        Ok(spec) => {
            let mut pv = Vec::with_capacity(M + 1);
            if M != 1 || b[0] >= 0x80 {
                pv.push(0x80 + M as u8);
            }
            pv.extend_from_slice(&b);
            let r = spec.latest_common_protocol_version(&Enr(Some(pv)));
            let mut best: Option<u8> = None;
            let mut i = 0;
            while i < N {
                let mut j = 0;
                while j < M {
                    if a[i] == b[j] && best.map_or(true, |x| x < a[i]) {
                        best = Some(a[i]);
                    }
                    j += 1;
                }
                i += 1;
            }
            match (&r, best) {
                (Ok(v), Some(x)) => assert!(u8::from(*v) == x, "P17.highest: chosen version is not the highest common one"),
                (Ok(_), None) => assert!(false, "P17.none: a version is chosen though none is shared"),
                (Err(ProtocolVersionError::NoMatchingVersion), None) => {}
                (Err(_), _) => assert!(false, "P17.common: no version chosen though one is shared"),
            }
            assert!(matches!(spec.latest_common_protocol_version(&Enr(None)), Ok(ProtocolVersion::V0)), "P17.unannounced: a peer announcing nothing is not at the first version");
            assert!(spec.latest_common_protocol_version(&Enr(Some(vec![0xc0]))).is_err(), "P17.malformed: malformed announcement accepted");
        }
        Err(_) => assert!(false, "P17.spec-ok: network with ordered versions refused"),
    }
    forget(spec);
}
/// A network supporting versions that are out of order is refused.
fn unordered() {
    let ours = ProtocolVersionList::new(versions(&[1, 0]));
    let spec = NetworkSpec::new(BiHashMap::new(), Network::Mainnet, ours, alloy_hardforks::EthereumChainHardforks::mainnet(), 0);
    assert!(spec.is_err(), "P17.spec: network with unordered versions accepted");
    forget(spec);
}
fn versions(a: &[u8]) -> Vec<ProtocolVersion> {
    let mut v = Vec::with_capacity(8);
    let mut i = 0;
    while i < a.len() {
        v.push(version(a[i]));
        i += 1;
    }
    v
}
/// The announced list: encoded and read back.
fn announce<const N: usize>() {
    use alloy_rlp::{Decodable, Encodable};
    let a: [u8; N] = nd::bytes();
    let l = ProtocolVersionList::new(versions(&a));
    let mut out: Vec<u8> = Vec::with_capacity(32);
    l.encode(&mut out);
    let small = N == 1 && a[0] < 0x80;
    assert!(out.len() == N + !small as usize, "P17.announce-len: announcement is not the versions");
    let mut i = 0;
    while i < N {
        assert!(out[i + !small as usize] == a[i], "P17.announce: announcement is not the versions");
        i += 1;
    }
    let mut buf = &out[..];
    match ProtocolVersionList::decode(&mut buf) {
        Ok(d) => {
            assert!(d.len() == N && buf.len() == 0, "P17.announce-read-len: announcement read back at another length");
            let mut i = 0;
            while i < N {
                assert!(u8::from(d[i]) == a[i], "P17.announce-read: other versions are read back");
                i += 1;
            }
            forget(d);
        }
        Err(_) => assert!(false, "P17.announce-ok: announcement refused"),
    }
    forget((l, out));
}
#[cfg(not(kani))]
fn native() {
    let n = nd::below(70);
    let v: u8 = nd::any();
    let b: Vec<u8> = (0..n).map(|_| if nd::below(2) == 0 { nd::below(7) as u8 } else { nd::any() }).collect();
    if let Ok(mut l) = AcceptCodeList::new(n) {
        for i in 0..n {
            l.set(i, code(b[i]));
        }
        let e = l.encode(version(v)).ok().expect("P17.encode-ok");
        let d = AcceptCodeList::decode(version(v), e).ok().expect("P17.roundtrip-ok");
        assert!(d.len() == n, "P17.roundtrip-len: another number of codes is read back");
        for i in 0..n {
            assert!((d[i] == AcceptCode::Accepted) == (b[i] == 0), "P17.roundtrip-accepted: acceptance lost or invented");
            assert!(v == 0 || d[i] == l[i], "P17.roundtrip: another code is read back");
        }
    } else {
        assert!(n > 64, "P17.new: list of at most 64 codes refused");
    }
    let m = nd::below(12);
    let raw: Vec<u8> = (0..m).map(|_| nd::any()).collect();
    let bits = raw.last().filter(|x| **x != 0).map(|x| 8 * (m - 1) + 7 - x.leading_zeros() as usize);
    match AcceptCodeList::decode(ProtocolVersion::V0, Bytes::from(raw.clone())) {
        Ok(l) => {
            assert!(bits == Some(l.len()) && l.len() <= 64, "P17.bits-decode-len: not one code per bit");
            for i in 0..l.len() {
                assert!((l[i] == AcceptCode::Accepted) == (raw[i / 8] >> (i % 8) & 1 == 1), "P17.bits-decode: bit read wrongly");
            }
        }
        Err(_) => assert!(bits.map_or(true, |n| n > 64), "P17.bits-ok: bits refused"),
    }
    for s in [&MAINNET, &ANGELFOOD, &SEPOLIA] {
        assert!(s.supported_protocol_versions().is_strictly_sorted_and_specified(), "P17.networks: a network's versions are unordered");
    }
}

nd::harnesses! {
    fn p17_unordered(unwind = 12) { unordered() }
    fn p17_codes(unwind = 4) { codes() }
    fn p17_list_0_3(unwind = 6) { list::<0>(1); list::<3>(1); list::<0>(0); list::<3>(0) }
    fn p17_list_9(unwind = 12) { list::<9>(0) }
    fn p17_list_8(unwind = 12) { list::<8>(0) }
    fn p17_list_64(unwind = 67) { list::<64>(1) }
    fn p17_list_65(unwind = 67) { list::<65>(1) }
    fn p17_decode_codes(unwind = 6) { decode::<0>(1); decode::<4>(1); decode::<4>(7) }
    fn p17_decode_64(unwind = 67) { decode::<64>(2) }
    fn p17_decode_65(unwind = 67) { decode::<65>(1) }
    fn p17_bits_0(unwind = 10) { decode::<0>(0); bits::<1>(0); bits::<1>(1); bits::<3>(0) }
    fn p17_bits_1(unwind = 10) { decode::<1>(0) }
    fn p17_bits_2(unwind = 14) { bits::<2>(1) }
    fn p17_bits_65(unwind = 67) { bits::<9>(2); bits::<10>(1) }
    fn p17_negotiate_2_2(unwind = 6) { negotiate::<2, 2>(None) }
    fn p17_negotiate_3_1(unwind = 6) { negotiate::<3, 1>(Some(0)); negotiate::<2, 1>(Some(1)); negotiate::<2, 1>(Some(2)) }
    fn p17_negotiate_2_1(unwind = 6) { negotiate::<2, 1>(Some(3)); negotiate::<1, 1>(Some(0x80)) }
    fn p17_negotiate_1_3(unwind = 6) { negotiate::<1, 3>(None) }
    fn p17_negotiate_3_3(unwind = 6) { negotiate::<3, 3>(None) }
    fn p17_announce(unwind = 10) { announce::<0>(); announce::<1>(); announce::<8>() }
    fn p17_native(unwind = 2) { #[cfg(not(kani))] native() }
}
