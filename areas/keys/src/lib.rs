#![allow(dead_code, unused_imports, clippy::all)]

/// Texts in error messages are not looked at.
#[cfg(kani)]
macro_rules! format {
    ($($t:tt)*) => { String::new() };
}
pub mod types {
    #[path = "/repo/crates/ethportal-api/src/types/content_key/mod.rs"]
    pub mod content_key;
    pub mod state_trie {
        #[path = "/repo/crates/ethportal-api/src/types/state_trie/nibbles.rs"]
        pub mod real;
        #[cfg(not(kani))]
        pub use real as nibbles;
        /// State keys are verified against the contract of packed paths (decided by the path
        /// harnesses): some byte strings denote a path, and a path encodes to the one it was read
        /// from. Here those of 1..=4 bytes that do not start with 0xff.
        #[cfg(kani)]
        pub mod nibbles {
            use ssz::{Decode, DecodeError, Encode};
            #[derive(Clone, Debug, Eq, PartialEq)]
            pub struct Nibbles(pub [u8; 4], pub usize);
            impl core::fmt::Display for Nibbles {
                fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                    Ok(())
                }
            }
            impl Encode for Nibbles {
                fn is_ssz_fixed_len() -> bool {
                    false
                }
                fn ssz_append(&self, buf: &mut Vec<u8>) {
                    let mut i = 0;
                    while i < self.1 {
                        buf.push(self.0[i]);
                        i += 1;
                    }
                }
                fn ssz_bytes_len(&self) -> usize {
                    self.1
                }
            }
            impl Decode for Nibbles {
                fn is_ssz_fixed_len() -> bool {
                    false
                }
                fn from_ssz_bytes(b: &[u8]) -> Result<Self, DecodeError> {
                    if b.len() == 0 || b.len() > 4 || b[0] == 0xff {
                        return Err(DecodeError::NoMatchingVariant);
                    }
                    let mut p = [0u8; 4];
                    let mut i = 0;
                    while i < b.len() {
                        p[i] = b[i];
                        i += 1;
                    }
                    Ok(Nibbles(p, b.len()))
                }
            }
        }
    }
}
pub mod utils {
    /// Texts in error messages are not looked at.
    pub mod bytes {
        pub fn hex_encode<T: AsRef<[u8]>>(_: T) -> String {
            String::new()
        }
        pub fn hex_encode_compact<T: AsRef<[u8]>>(_: T) -> String {
            String::new()
        }
    }
}
pub type RawContentKey = alloy::primitives::Bytes;
pub use types::content_key::{beacon::*, error::*, overlay::*, state::*};

use types::content_key::{content_id::range_content_id, history as hi, legacy_history as le};
use types::state_trie::real::Nibbles;
use types::state_trie::nibbles::Nibbles as Path;
use core::mem::forget;
use alloy::primitives::B256;

/// The byte strings that are keys: selector and the payload length of that kind. Paths are checked
/// by the caller.
const LEGACY: [(u8, usize); 6] = [(0, 32), (1, 32), (2, 32), (3, 8), (4, 33), (5, 32)];
const BEACON: [(u8, usize); 5] = [(0x10, 32), (0x11, 16), (0x12, 8), (0x13, 8), (0x14, 8)];
const HISTORY: [(u8, usize); 2] = [(0, 8), (1, 8)];

fn defined(kinds: &[(u8, usize)], b: &[u8]) -> bool {
    let mut i = 0;
    let mut r = false;
    while i < kinds.len() {
        if b.len() == 1 + kinds[i].1 && b[0] == kinds[i].0 {
            r = true;
        }
        i += 1;
    }
    r
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    let mut d = 0u8;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
fn le64(b: &[u8]) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[..8]);
    u64::from_le_bytes(x)
}
/// Decode one byte string of `N` bytes; whatever is accepted encodes back to it.
fn decode<K: OverlayContentKey, const N: usize>(kinds: &[(u8, usize)], field: impl Fn(&K, &[u8]) -> bool) {
    let b: [u8; N] = nd::bytes();
    let r = K::try_from_bytes(&b[..]);
    match &r {
        Ok(k) => {
            assert!(defined(kinds, &b), "P16.refuse: undefined selector or payload length accepted");
            assert!(field(k, &b), "P16.fields: decoded key is not the one denoted");
            let e = k.to_bytes();
            assert!(same(&e, &b), "P16.canonical: decoded key encodes differently");
            forget(e);
        }
        Err(_) => assert!(!defined(kinds, &b), "P16.accept: a defined key is refused"),
    }
    forget(r);
}
fn legacy_field(k: &le::LegacyHistoryContentKey, b: &[u8]) -> bool {
    use le::LegacyHistoryContentKey::*;
    let radius = k.affected_by_radius();
    match k {
        BlockHeaderByHash(x) => b[0] == 0 && same(&x.block_hash, &b[1..]) && radius,
        BlockBody(x) => b[0] == 1 && same(&x.block_hash, &b[1..]) && radius,
        BlockReceipts(x) => b[0] == 2 && same(&x.block_hash, &b[1..]) && radius,
        BlockHeaderByNumber(x) => b[0] == 3 && x.block_number == le64(&b[1..]) && radius,
        EphemeralHeadersFindContent(x) => b[0] == 4 && same(&x.block_hash, &b[1..33]) && x.ancestor_count == b[33] && !radius,
        EphemeralHeaderOffer(x) => b[0] == 5 && same(&x.block_hash, &b[1..]) && !radius,
    }
}
fn beacon_field(k: &BeaconContentKey, b: &[u8]) -> bool {
    use BeaconContentKey::*;
    match k {
        LightClientBootstrap(x) => b[0] == 0x10 && same(&x.block_hash, &b[1..]),
        LightClientUpdatesByRange(x) => b[0] == 0x11 && x.start_period == le64(&b[1..]) && x.count == le64(&b[9..]),
        LightClientFinalityUpdate(x) => b[0] == 0x12 && x.finalized_slot == le64(&b[1..]),
        LightClientOptimisticUpdate(x) => b[0] == 0x13 && x.signature_slot == le64(&b[1..]),
        HistoricalSummariesWithProof(x) => b[0] == 0x14 && x.epoch == le64(&b[1..]),
    }
}
fn history_field(k: &hi::HistoryContentKey, b: &[u8]) -> bool {
    use hi::HistoryContentKey::*;
    match k {
        BlockBody(x) => b[0] == 0 && x.block_number == le64(&b[1..]),
        BlockReceipts(x) => b[0] == 1 && x.block_number == le64(&b[1..]),
    }
}
/// Every key of each kind: encoding, decoding back, id.
fn legacy_roundtrip(kind: u8) {
    use le::*;
    let (h, n, c): ([u8; 32], u64, u8) = (nd::bytes(), nd::any(), nd::any());
    let k = match kind {
        0 => LegacyHistoryContentKey::new_block_header_by_hash(h),
        1 => LegacyHistoryContentKey::new_block_body(h),
        2 => LegacyHistoryContentKey::new_block_receipts(h),
        3 => LegacyHistoryContentKey::new_block_header_by_number(n),
        4 => LegacyHistoryContentKey::new_ephemeral_headers_find_content(h, c),
        _ => LegacyHistoryContentKey::new_ephemeral_header_offer(h),
    };
    let e = k.to_bytes();
    assert!(e[0] == kind && e.len() == 1 + LEGACY[kind as usize].1, "P16.layout: encoding is not selector and payload");
    assert!(if kind == 3 { le64(&e[1..]) == n } else { same(&e[1..33], &h) && (kind != 4 || e[33] == c) }, "P16.payload: payload is not the key's");
    let r = LegacyHistoryContentKey::try_from_bytes(&e);
    match &r {
        Ok(d) => assert!(*d == k, "P16.roundtrip: encoded key decodes to another"),
        Err(_) => assert!(false, "P16.roundtrip-ok: encoded key is refused"),
    }
    assert!(k.content_id() == uf::hash(&e), "P16.id-hash: id is not the digest of the encoding");
    forget((k, e, r));
}
fn beacon_roundtrip(kind: u8) {
    use BeaconContentKey as K;
    let (h, n, c): ([u8; 32], u64, u64) = (nd::bytes(), nd::any(), nd::any());
    let k = match kind {
        0 => K::LightClientBootstrap(LightClientBootstrapKey { block_hash: h }),
        1 => K::LightClientUpdatesByRange(LightClientUpdatesByRangeKey { start_period: n, count: c }),
        2 => K::LightClientFinalityUpdate(LightClientFinalityUpdateKey::new(n)),
        3 => K::LightClientOptimisticUpdate(LightClientOptimisticUpdateKey::new(n)),
        _ => K::HistoricalSummariesWithProof(HistoricalSummariesWithProofKey { epoch: n }),
    };
    let e = k.to_bytes();
    assert!(e[0] == 0x10 + kind && e.len() == 1 + BEACON[kind as usize].1, "P16.layout: encoding is not selector and payload");
    assert!(if kind == 0 { same(&e[1..], &h) } else { le64(&e[1..]) == n && (kind != 1 || le64(&e[9..]) == c) }, "P16.payload: payload is not the key's");
    let r = K::try_from_bytes(&e);
    match &r {
        Ok(d) => assert!(*d == k, "P16.roundtrip: encoded key decodes to another"),
        Err(_) => assert!(false, "P16.roundtrip-ok: encoded key is refused"),
    }
    assert!(!k.affected_by_radius(), "P16.radius: beacon content placed by radius");
    assert!(k.content_id() == uf::hash(&e), "P16.id-hash: id is not the digest of the encoding");
    forget((k, e, r));
}
fn history_roundtrip() {
    use hi::*;
    let (n, receipts): (u64, bool) = (nd::any(), nd::any());
    let k = if receipts { HistoryContentKey::new_block_receipts(n) } else { HistoryContentKey::new_block_body(n) };
    let e = k.to_bytes();
    assert!(e.len() == 9 && e[0] == receipts as u8 && le64(&e[1..]) == n, "P16.layout: encoding is not selector and payload");
    let r = HistoryContentKey::try_from_bytes(&e);
    match &r {
        Ok(d) => assert!(*d == k, "P16.roundtrip: encoded key decodes to another"),
        Err(_) => assert!(false, "P16.roundtrip-ok: encoded key is refused"),
    }
    let id = k.content_id();
    assert!(id == range_content_id(n, receipts as u8), "P16.id-range: id is not that of number and kind");
    forget((k, e, r));
}
/// Layout of an id by number: low 16 bits first, then the high 48 bits in reverse, zeros, kind.
fn range_id() {
    let (n, t): (u64, u8) = (nd::any(), nd::any());
    let id = range_content_id(n, t);
    assert!(id[0] == (n >> 8) as u8 && id[1] == n as u8, "P16.id-low: id does not start with the low 16 bits");
    let mut ok = true;
    let mut i = 16;
    while i < 64 {
        // bit i of the number is bit i (counted from the most significant) of the id
        if ((n >> i) & 1) as u8 != (id[i / 8] >> (7 - i % 8)) & 1 {
            ok = false;
        }
        i += 1;
    }
    assert!(ok, "P16.id-high: high bits are not reversed after the low bits");
    let mut i = 8;
    let mut z = 0u8;
    while i < 31 {
        z |= id[i];
        i += 1;
    }
    assert!(z == 0 && id[31] == t, "P16.id-kind: id does not end with zeros and the kind");
    let (m, u): (u64, u8) = (nd::any(), nd::any());
    if (m, u) != (n, t) {
        assert!(!same(&id, &range_content_id(m, u)), "P16.id-distinct: two keys share an id");
    }
}
/// Paths of `L` nibbles.
fn path<const L: usize>() -> ([u8; L], Option<Nibbles>) {
    let p: [u8; L] = nd::bytes();
    let r = Nibbles::try_from_unpacked_nibbles(&p);
    let mut hi = 0u8;
    let mut i = 0;
    while i < L {
        hi |= p[i] & 0xf0;
        i += 1;
    }
    assert!(r.is_ok() == (hi == 0 && L <= 64), "P16.path: path accepted with a digit above 15 or over 64 digits");
    (p, r.ok())
}
/// What a path packs to: a flag digit, for odd lengths the first digit, then pairs.
fn packs(p: &[u8], b: &[u8]) -> bool {
    let n = p.len();
    if b.len() != 1 + n / 2 {
        return false;
    }
    let odd = n % 2;
    let mut ok = b[0] == if odd == 1 { 0x10 | p[0] } else { 0 };
    let mut i = 0;
    while 2 * i + odd < n {
        ok &= b[1 + i] == (p[2 * i + odd] << 4 | p[2 * i + odd + 1]);
        i += 1;
    }
    ok
}
/// Equality of 32 bytes without a loop.
fn eq32(a: &[u8], b: &[u8; 32]) -> bool {
    let mut x = [0u8; 32];
    x.copy_from_slice(&a[..32]);
    let half = |v: &[u8; 32], i: usize| {
        let mut h = [0u8; 16];
        h.copy_from_slice(&v[i..i + 16]);
        u128::from_le_bytes(h)
    };
    half(&x, 0) == half(b, 0) && half(&x, 16) == half(b, 16)
}
/// Is `b` a path, for the instance of paths in use?
fn is_path(b: &[u8]) -> bool {
    #[cfg(kani)]
    return b.len() > 0 && b.len() <= 4 && b[0] != 0xff;
    #[cfg(not(kani))]
    packed_ok(b)
}
fn packed_ok(b: &[u8]) -> bool {
    if b.len() == 0 || b.len() > 33 {
        return false;
    }
    (b[0] == 0 || b[0] >> 4 == 1) && !(b.len() == 33 && b[0] >> 4 == 1)
}
fn path_from(b: &[u8]) -> Option<Path> {
    #[cfg(kani)]
    {
        let mut p = [0u8; 4];
        p[..b.len()].copy_from_slice(b);
        nd::assume(p[0] != 0xff);
        return Some(Path(p, b.len()));
    }
    #[cfg(not(kani))]
    <Path as ssz::Decode>::from_ssz_bytes(b).ok()
}
fn path_is(p: &Path, b: &[u8]) -> bool {
    same(&ssz::Encode::as_ssz_bytes(p), b)
}
/// Account keys with a path packed in `M` bytes: what they encode to, and what that decodes to.
fn account<const M: usize, const N: usize>() {
    use StateContentKey as K;
    let (m, h): ([u8; M], [u8; 32]) = (nd::bytes(), nd::bytes());
    if let Some(path) = path_from(&m) {
        let k = K::AccountTrieNode(AccountTrieNodeKey { path, node_hash: B256::from(h) });
        let e = k.to_bytes();
        assert!(e.len() == N && e[0] == 0x20 && e[1] == 36 && e[2] == 0 && e[3] == 0 && e[4] == 0, "P16.layout: encoding is not selector and payload");
        assert!(eq32(&e[5..], &h) && same(&e[37..], &m), "P16.payload: payload is not the key's");
        assert!(k.affected_by_radius(), "P16.radius: state content not placed by radius");
        forget((k, e));
    }
}
fn storage<const M: usize, const N: usize>() {
    use StateContentKey as K;
    let (m, a, h): ([u8; M], [u8; 32], [u8; 32]) = (nd::bytes(), nd::bytes(), nd::bytes());
    if let Some(path) = path_from(&m) {
        let k = K::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash: B256::from(a), path, node_hash: B256::from(h) });
        let e = k.to_bytes();
        assert!(e.len() == N && e[0] == 0x21 && e[33] == 68 && e[34] == 0 && e[35] == 0 && e[36] == 0, "P16.layout: encoding is not selector and payload");
        assert!(eq32(&e[1..], &a) && eq32(&e[37..], &h) && same(&e[69..], &m), "P16.payload: payload is not the key's");
        forget((k, e));
    }
}
fn bytecode() {
    use StateContentKey as K;
    let (a, h): ([u8; 32], [u8; 32]) = (nd::bytes(), nd::bytes());
    let k = K::ContractBytecode(ContractBytecodeKey { address_hash: B256::from(a), code_hash: B256::from(h) });
    let e = k.to_bytes();
    assert!(e.len() == 65 && e[0] == 0x22 && eq32(&e[1..], &a) && eq32(&e[33..], &h), "P16.layout: encoding is not selector and payload");
    forget((k, e));
}
/// Byte strings of `N` bytes under one selector or, for `None`, every selector.
fn state_decode<const N: usize>(selector: Option<u8>) {
    use StateContentKey as K;
    let mut b: [u8; N] = nd::bytes();
    if let (Some(s), true) = (selector, N > 0) {
        b[0] = s;
    }
    #[cfg(not(kani))]
    {
        let put = |b: &mut [u8; N], at: usize, v: &[u8]| {
            if N >= at + v.len() {
                b[at..at + v.len()].copy_from_slice(v)
            }
        };
        match (selector, nd::below(3)) {
            (Some(0x20), 1 | 2) => put(&mut b, 1, &[36, 0, 0, 0]),
            (Some(0x21), 1 | 2) => put(&mut b, 33, &[68, 0, 0, 0]),
            _ => {}
        }
    }
    let want = N > 0
        && match b[0] {
            0x20 => N >= 38 && b[1] == 36 && b[2] == 0 && b[3] == 0 && b[4] == 0 && is_path(&b[37..]),
            0x21 => N >= 70 && b[33] == 68 && b[34] == 0 && b[35] == 0 && b[36] == 0 && is_path(&b[69..]),
            0x22 => N == 65,
            _ => false,
        };
    let r = K::try_from_bytes(&b[..]);
    match &r {
        Ok(k) => {
            assert!(want, "P16.refuse: undefined selector, length or path accepted");
            let fields = match k {
                K::AccountTrieNode(x) => b[0] == 0x20 && eq32(&b[5..], &x.node_hash.0) && path_is(&x.path, &b[37..]),
                K::ContractStorageTrieNode(x) => b[0] == 0x21 && eq32(&b[1..], &x.address_hash.0) && eq32(&b[37..], &x.node_hash.0) && path_is(&x.path, &b[69..]),
                K::ContractBytecode(x) => b[0] == 0x22 && eq32(&b[1..], &x.address_hash.0) && eq32(&b[33..], &x.code_hash.0),
            };
            assert!(fields, "P16.fields: decoded key is not the one denoted");
        }
        Err(_) => assert!(!want, "P16.accept: a defined key is refused"),
    }
    forget(r);
}
/// Packed paths of `N` bytes, with the given or any flag byte.
fn path_decode<const N: usize>(flag: Option<u8>) {
    use ssz::Decode;
    let mut b: [u8; N] = nd::bytes();
    if let (Some(f), true) = (flag, N > 0) {
        b[0] = f;
    }
    let r = Nibbles::from_ssz_bytes(&b);
    match &r {
        Ok(n) => {
            assert!(packed_ok(&b), "P16.path-refuse: malformed packed path accepted");
            assert!(packs(n.nibbles(), &b), "P16.path-decode: packed path decodes to other digits");
        }
        Err(_) => assert!(!packed_ok(&b), "P16.path-accept: packed path refused"),
    }
    forget(r);
}
fn path_encode<const L: usize>() {
    use ssz::Encode;
    if let (p, Some(n)) = path::<L>() {
        assert!(same(n.nibbles(), &p), "P16.path-kept: path does not keep its digits");
        let e = n.as_ssz_bytes();
        assert!(packs(&p, &e), "P16.path-pack: path packs to something else");
        assert!(n.ssz_bytes_len() == 1 + L / 2, "P16.path-len: announced length is not the encoded length");
        forget((n, e));
    }
}
fn identity<const N: usize>() {
    let b: [u8; N] = nd::bytes();
    match IdentityContentKey::try_from_bytes(&b[..]) {
        Ok(k) => {
            assert!(N == 32, "P16.identity-len: identity key of another length accepted");
            assert!(same(&k.content_id(), &b) && same(&k.to_bytes(), &b), "P16.identity: identity key is not its bytes");
        }
        Err(_) => assert!(N != 32, "P16.identity-accept: identity key refused"),
    }
}
/// Native: all kinds and lengths at once, with two independent byte strings.
#[cfg(not(kani))]
fn native() {
    uf::reset();
    let n = nd::below(110);
    let mut b: Vec<u8> = (0..n).map(|_| nd::any()).collect();
    if n > 0 && nd::below(4) != 0 {
        let sel = [0, 1, 2, 3, 4, 5, 0x10, 0x11, 0x12, 0x13, 0x14, 0x20, 0x21, 0x22];
        b[0] = sel[nd::below(sel.len())];
        let want = match b[0] {
            0..=5 => 1 + LEGACY[b[0] as usize].1,
            0x10..=0x14 => 1 + BEACON[b[0] as usize - 0x10].1,
            0x20 => 38 + nd::below(34),
            0x21 => 70 + nd::below(34),
            _ => 65,
        };
        if nd::below(4) != 0 {
            b.resize(want, 7);
            if b[0] == 0x20 {
                b[1..5].copy_from_slice(&[36, 0, 0, 0]);
                b[37] &= 0x1f;
            }
            if b[0] == 0x21 {
                b[33..37].copy_from_slice(&[68, 0, 0, 0]);
                b[69] &= 0x1f;
            }
        }
    }
    fn one<K: OverlayContentKey>(b: &[u8], want: bool) {
        match K::try_from_bytes(b) {
            Ok(k) => {
                assert!(want, "P16.refuse: undefined selector or payload length accepted");
                assert!(k.to_bytes()[..] == *b, "P16.canonical: decoded key encodes differently");
                assert!(K::try_from_bytes(k.to_bytes()).ok() == Some(k), "P16.roundtrip: encoded key decodes to another");
            }
            Err(_) => assert!(!want, "P16.accept: a defined key is refused"),
        }
    }
    one::<le::LegacyHistoryContentKey>(&b, defined(&LEGACY, &b));
    one::<BeaconContentKey>(&b, defined(&BEACON, &b));
    one::<hi::HistoryContentKey>(&b, defined(&HISTORY, &b));
    let st = match b.first() {
        Some(0x20) => b.len() >= 38 && b[1..5] == [36, 0, 0, 0] && packed_ok(&b[37..]),
        Some(0x21) => b.len() >= 70 && b[33..37] == [68, 0, 0, 0] && packed_ok(&b[69..]),
        Some(0x22) => b.len() == 65,
        _ => false,
    };
    one::<StateContentKey>(&b, st);
    one::<IdentityContentKey>(&b, b.len() == 32);
}

nd::harnesses! {




    fn p16_legacy_33(unwind = 34) { decode::<le::LegacyHistoryContentKey, 33>(&LEGACY, legacy_field) }
    fn p16_legacy_9(unwind = 34) { decode::<le::LegacyHistoryContentKey, 9>(&LEGACY, legacy_field) }
    fn p16_legacy_34(unwind = 35) { decode::<le::LegacyHistoryContentKey, 34>(&LEGACY, legacy_field) }
    fn p16_legacy_other(unwind = 36) {
        decode::<le::LegacyHistoryContentKey, 0>(&LEGACY, legacy_field);
        decode::<le::LegacyHistoryContentKey, 1>(&LEGACY, legacy_field);
        decode::<le::LegacyHistoryContentKey, 8>(&LEGACY, legacy_field);
        decode::<le::LegacyHistoryContentKey, 10>(&LEGACY, legacy_field);
        decode::<le::LegacyHistoryContentKey, 32>(&LEGACY, legacy_field);
        decode::<le::LegacyHistoryContentKey, 35>(&LEGACY, legacy_field);
    }
    fn p16_beacon_9_17(unwind = 34) { decode::<BeaconContentKey, 9>(&BEACON, beacon_field); decode::<BeaconContentKey, 17>(&BEACON, beacon_field) }
    fn p16_beacon_33(unwind = 34) { decode::<BeaconContentKey, 33>(&BEACON, beacon_field) }
    fn p16_beacon_other(unwind = 36) {
        decode::<BeaconContentKey, 0>(&BEACON, beacon_field);
        decode::<BeaconContentKey, 1>(&BEACON, beacon_field);
        decode::<BeaconContentKey, 8>(&BEACON, beacon_field);
        decode::<BeaconContentKey, 10>(&BEACON, beacon_field);
        decode::<BeaconContentKey, 16>(&BEACON, beacon_field);
        decode::<BeaconContentKey, 18>(&BEACON, beacon_field);
        decode::<BeaconContentKey, 34>(&BEACON, beacon_field);
    }
    fn p16_history(unwind = 12) {
        decode::<hi::HistoryContentKey, 0>(&HISTORY, history_field);
        decode::<hi::HistoryContentKey, 1>(&HISTORY, history_field);
        decode::<hi::HistoryContentKey, 8>(&HISTORY, history_field);
        decode::<hi::HistoryContentKey, 9>(&HISTORY, history_field);
        decode::<hi::HistoryContentKey, 10>(&HISTORY, history_field);
    }
    fn p16_history_roundtrip(unwind = 34) { history_roundtrip() }
    fn p16_range_id(unwind = 66) { range_id() }
    fn p16_legacy_roundtrip_a(unwind = 34) { uf::reset(); legacy_roundtrip(0); legacy_roundtrip(1); legacy_roundtrip(2) }
    fn p16_legacy_roundtrip_b(unwind = 34) { uf::reset(); legacy_roundtrip(3); legacy_roundtrip(4); legacy_roundtrip(5) }
    fn p16_beacon_roundtrip(unwind = 34) { uf::reset(); beacon_roundtrip(0); beacon_roundtrip(1); beacon_roundtrip(2); beacon_roundtrip(3); beacon_roundtrip(4) }
    fn p16_account(unwind = 6) { account::<1, 38>(); account::<3, 40>() }
    fn p16_storage(unwind = 6) { storage::<1, 70>(); storage::<2, 71>() }
    fn p16_bytecode(unwind = 6) { bytecode() }
    fn p16_state_account(unwind = 6) { state_decode::<38>(Some(0x20)); state_decode::<40>(Some(0x20)) }
    fn p16_state_storage(unwind = 6) { state_decode::<70>(Some(0x21)); state_decode::<71>(Some(0x21)) }
    fn p16_state_any(unwind = 6) { state_decode::<65>(None) }
    fn p16_state_39(unwind = 6) { state_decode::<39>(None) }
    fn p16_state_short(unwind = 6) { state_decode::<0>(None); state_decode::<1>(None); state_decode::<4>(None); state_decode::<37>(None); state_decode::<64>(Some(0x22)); state_decode::<66>(Some(0x22)); state_decode::<69>(Some(0x21)) }
    fn p16_path_any(unwind = 8) { path_decode::<0>(None); path_decode::<1>(None); path_decode::<2>(None) }
    fn p16_path_even(unwind = 68) { path_decode::<3>(Some(0)); path_decode::<32>(Some(0)); path_decode::<33>(Some(0)); path_decode::<34>(Some(0)) }
    fn p16_path_odd(unwind = 68) { path_decode::<4>(Some(0x1a)); path_decode::<32>(Some(0x10)); path_decode::<33>(Some(0x1f)) }
    fn p16_path_encode(unwind = 10) { path_encode::<0>(); path_encode::<1>(); path_encode::<2>(); path_encode::<7>() }
    fn p16_path_encode_64(unwind = 66) { path_encode::<64>() }
    fn p16_path_encode_63(unwind = 67) { path_encode::<63>(); path_encode::<65>() }
    fn p16_identity(unwind = 34) { identity::<0>(); identity::<31>(); identity::<32>(); identity::<33>() }
    fn p16_native(unwind = 2) { #[cfg(not(kani))] native() }
}
