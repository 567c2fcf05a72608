#![allow(dead_code, unused_imports, clippy::all)]
extern crate vstd as std;

#[path = "/repo/crates/portalnet/src/utils/portal_wire.rs"]
pub mod portal_wire;

use alloy::primitives::Bytes;
use bytes::Buf;
use core::mem::forget;
use portal_wire::*;

/// Length prefix at `at`: its value and where it ends. Seven bits per byte, least significant first.
fn prefix(b: &[u8], at: usize) -> Option<(u32, usize)> {
    let (mut v, mut shift, mut i) = (0u128, 0, at);
    loop {
        if i >= b.len() || shift > 63 {
            return None;
        }
        v |= ((b[i] & 0x7f) as u128) << shift;
        if b[i] & 0x80 == 0 {
            break;
        }
        shift += 7;
        i += 1;
    }
    if v > u32::MAX as u128 { None } else { Some((v as u32, i + 1)) }
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    let mut d = 0u8;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}
fn varint<const N: usize>() {
    let b: [u8; N] = nd::bytes();
    let mut r = Bytes::from(b.to_vec()).reader();
    let got = read_varint(&mut r);
    match (&got, prefix(&b, 0)) {
        (Ok(v), Some((w, end))) => assert!(*v == w && r.get_ref().len() == N - end, "P18.length: length prefix read wrongly"),
        (Ok(_), None) => assert!(false, "P18.length-refuse: truncated or over-long length prefix accepted"),
        (Err(_), Some(_)) => assert!(false, "P18.length-accept: length prefix refused"),
        (Err(_), None) => {}
    }
    forget((got, r));
}
/// Every payload of `N` bytes with the given bytes at the given places.
fn payload<const N: usize>(fixed: &[(usize, u8)]) {
    let mut b: [u8; N] = nd::bytes();
    for (i, x) in fixed {
        b[*i] = *x;
    }
    check_payload(&b);
}
fn check_payload(b: &[u8]) {
    bytes::reset();
    let n = b.len();
    let got = decode_content_payload(Bytes::from(b.to_vec()));
    assert!(bytes::largest_request() <= n + 1, "P18.alloc: more memory is set aside than the payload could fill");
    let mut at = 0;
    let mut i = 0;
    let mut good = true;
    while at < n && good {
        match prefix(b, at) {
            Some((l, end)) if l as usize <= n - end => {
                if let Ok(items) = &got {
                    assert!(i < items.len(), "P18.missing: an item is lost");
                    assert!(same(&items[i], &b[end..end + l as usize]), "P18.item: an item is not the bytes announced");
                }
                at = end + l as usize;
                i += 1;
            }
            _ => good = false,
        }
    }
    match &got {
        Ok(items) => {
            assert!(good, "P18.refuse: truncated item or bad length accepted");
            assert!(items.len() == i, "P18.extra: more items than the payload holds");
        }
        Err(_) => assert!(!good, "P18.accept: well-formed payload refused"),
    }
    forget(got);
}
fn single<const N: usize>(first: Option<u8>) {
    let mut b: [u8; N] = nd::bytes();
    if let (Some(f), true) = (first, N > 0) {
        b[0] = f;
    }
    check_single(&b);
}
fn check_single(b: &[u8]) {
    let want = match prefix(b, 0) {
        Some((l, end)) if l as usize == b.len() - end => Some(end),
        _ => None,
    };
    let got = decode_single_content_payload(Bytes::from(b.to_vec()));
    match (&got, want) {
        (Ok(v), Some(end)) => assert!(same(v, &b[end..]), "P18.single: the item is not the bytes announced"),
        (Ok(_), None) => assert!(false, "P18.single-refuse: not exactly one item, but accepted"),
        (Err(_), Some(_)) => assert!(false, "P18.single-accept: one item refused"),
        (Err(_), None) => {}
    }
    forget(got);
}
fn encode<const A: usize, const B: usize, const N: usize>() {
    let (a, c): ([u8; A], [u8; B]) = (nd::bytes(), nd::bytes());
    // The expected frame.
    let mut want = [0u8; N];
    let mut at = 0;
    let mut put_len = |want: &mut [u8; N], at: &mut usize, mut l: usize| loop {
        want[*at] = (l & 0x7f) as u8 | if l > 0x7f { 0x80 } else { 0 };
        *at += 1;
        l >>= 7;
        if l == 0 {
            break;
        }
    };
    put_len(&mut want, &mut at, A);
    want[at..at + A].copy_from_slice(&a);
    at += A;
    put_len(&mut want, &mut at, B);
    want[at..at + B].copy_from_slice(&c);
    let items = [Bytes::from(a.to_vec()), Bytes::from(c.to_vec())];
    match encode_content_payload(&items) {
        Ok(p) => {
            assert!(p.len() == N, "P18.encoded-len: payload is not the prefixed items");
            assert!(same(&p, &want), "P18.encode: payload is not the prefixed items");
            forget(p);
        }
        Err(_) => assert!(false, "P18.encode-ok: items are not encoded"),
    }
    forget(items);
    match decode_content_payload(Bytes::from(want.to_vec())) {
        Ok(v) => {
            assert!(v.len() == 2 && same(&v[0], &a) && same(&v[1], &c), "P18.roundtrip: other items are read back");
            forget(v);
        }
        Err(_) => assert!(false, "P18.roundtrip-ok: encoded items are refused"),
    }
}
fn encode_none() {
    match encode_content_payload(&[]) {
        Ok(p) => {
            assert!(p.len() == 0, "P18.encode-none: no items encode to something");
            forget(p)
        }
        Err(_) => assert!(false, "P18.encode-ok: items are not encoded"),
    }
    match decode_content_payload(Bytes::new()) {
        Ok(v) => assert!(v.len() == 0, "P18.decode-none: items read from nothing"),
        Err(_) => assert!(false, "P18.decode-none-ok: empty payload refused"),
    }
}
/// Native: long items, cut and corrupted payloads.
#[cfg(not(kani))]
fn native() {
    let n = nd::below(5);
    let lens = [0, 1, 2, 126, 127, 128, 129, 300, 16383, 16384, 16385, 70000];
    let items: Vec<Bytes> = (0..n)
        .map(|_| {
            let l = if nd::below(3) == 0 { nd::below(200) } else { lens[nd::below(lens.len())] };
            let s: u8 = nd::any();
            Bytes::from((0..l).map(|i| (i as u8).wrapping_mul(37) ^ s).collect::<Vec<u8>>())
        })
        .collect();
    let p = encode_content_payload(&items).expect("P18.encode-ok").to_vec();
    let back = decode_content_payload(Bytes::from(p.clone())).expect("P18.roundtrip-ok");
    assert!(back == items, "P18.roundtrip: other items are read back");
    check_single(&p);
    let mut q = p;
    if !q.is_empty() {
        match nd::below(4) {
            0 => q.truncate(nd::below(q.len())),
            1 => {
                let at = nd::below(q.len().min(8));
                q[at] ^= 1 << nd::below(8);
            }
            2 => q.extend([0xff, 0xff, 0xff, 0xff, nd::any::<u8>(), nd::any::<u8>()]),
            _ => q.extend((0..nd::below(12)).map(|_| nd::any::<u8>() | 0x80)),
        }
    }
    check_payload(&q);
    check_single(&q);
}

nd::harnesses! {
    fn p18_length_1_5(unwind = 12) { varint::<0>(); varint::<1>(); varint::<2>(); varint::<5>() }
    fn p18_length_7(unwind = 12) { varint::<7>() }
    fn p18_length_12(unwind = 14) { varint::<12>() }
    fn p18_payload_1(unwind = 6) { payload::<1>(&[]) }
    fn p18_payload_items(unwind = 9) { payload::<5>(&[(0, 2), (3, 1)]); payload::<6>(&[(0, 0), (1, 0x83), (2, 0)]) }
    fn p18_payload_short(unwind = 9) { payload::<5>(&[(0, 2), (3, 2)]); payload::<4>(&[(0, 2), (3, 0x80)]) }
    fn p18_payload_huge(unwind = 9) { payload::<6>(&[(0, 0xff), (1, 0xff), (2, 0xff), (3, 0xff), (4, 0x0f)]); payload::<5>(&[(0, 0x80), (1, 0x80), (2, 0x80), (3, 0x80), (4, 0x10)]) }
    fn p18_payload_three(unwind = 9) { payload::<6>(&[(0, 1), (2, 1), (4, 1)]) }
    fn p18_single_2(unwind = 6) { single::<0>(None); single::<1>(None); single::<2>(None) }
    fn p18_single_4(unwind = 8) { single::<4>(None) }
    fn p18_single_7(unwind = 9) { single::<7>(Some(0x86)) }
    fn p18_encode_2_3(unwind = 8) { encode::<2, 3, 7>() }
    fn p18_encode_0_5(unwind = 8) { encode::<0, 5, 7>() }
    fn p18_none(unwind = 3) { encode_none() }
    fn p18_native(unwind = 2) { #[cfg(not(kani))] native() }
}
