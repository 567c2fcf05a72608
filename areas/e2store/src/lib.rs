#![allow(dead_code, unused_imports, clippy::all)]

pub mod e2store {
    #[path = "/repo/crates/e2store/src/e2store/memory.rs"]
    pub mod memory;
    #[path = "/repo/crates/e2store/src/e2store/stream.rs"]
    pub mod stream;
    #[path = "/repo/crates/e2store/src/e2store/types.rs"]
    pub mod types;
}
#[path = "/repo/crates/e2store/src/entry_types.rs"]
pub mod entry_types;

use core::mem::forget;
use e2store::{memory::E2StoreMemory, stream::*, types::*};

/// What a well-formed entry is: 2 bytes type (big endian), 4 bytes length (little endian), 2 zero
/// bytes, then exactly `length` bytes.
fn well_formed(b: &[u8]) -> bool {
    b.len() >= 8 && b[6] == 0 && b[7] == 0 && (u32::from_le_bytes([b[2], b[3], b[4], b[5]]) as usize) == b.len() - 8
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn roundtrip<const N: usize>() {
    let (t, v): (u16, [u8; N]) = (nd::any(), nd::bytes());
    let e = Entry::new(t, v.to_vec());
    assert!(e.length() == 8 + N, "P25.size: entry size is not 8 plus the value length");
    match e.serialize() {
        Ok(b) => {
            assert!(b.len() == 8 + N, "P25.encoded-size: encoded size is not 8 plus the value length");
            assert!(b[0] == (t >> 8) as u8 && b[1] == t as u8 && well_formed(&b) && same(&b[8..], &v), "P25.layout: encoding is not type, length, zero, value");
            match Entry::deserialize(&b) {
                Ok(d) => {
                    assert!(d.header.type_ == t && d.header.length as usize == N && d.header.reserved == 0, "P25.roundtrip-header: another header is read back");
                    assert!(same(&d.value, &v), "P25.roundtrip-value: another value is read back");
                    forget(d);
                }
                Err(_) => assert!(false, "P25.roundtrip: written entry is refused"),
            }
            forget(b);
        }
        Err(_) => assert!(false, "P25.write: entry is not written"),
    }
    forget(e);
}
fn decode<const N: usize>() {
    let b: [u8; N] = nd::bytes();
    let r = Entry::deserialize(&b);
    match &r {
        Ok(d) => {
            assert!(well_formed(&b), "P25.refuse: malformed entry accepted");
            assert!(d.header.type_ == u16::from_be_bytes([b[0], b[1]]) && d.header.length as usize == N - 8 && d.header.reserved == 0 && same(&d.value, &b[8..]), "P25.denotes: entry decoded to something else");
        }
        Err(_) => assert!(!well_formed(&b), "P25.accept: well-formed entry refused"),
    }
    nd::cover!(r.is_ok() == (N >= 8), "acceptance is reachable for entries with a header");
    forget(r);
}
fn wrong_buffer<const N: usize, const M: usize>() {
    let e = Entry::new(nd::any(), nd::bytes::<N>().to_vec());
    let mut b = [0u8; M];
    let r = e.write(&mut b);
    assert!(r.is_ok() == (M == N + 8), "P25.write-buffer: written into a buffer of another size, or refused");
    forget((r, e));
}
/// Splitting of a byte string into consecutive entries, or None.
fn split(b: &[u8]) -> Option<[(usize, usize); 4]> {
    let mut out = [(0, 0); 4];
    let (mut at, mut n) = (0, 0);
    while at < b.len() {
        if b.len() - at < 8 {
            return None;
        }
        let l = u32::from_le_bytes([b[at + 2], b[at + 3], b[at + 4], b[at + 5]]) as usize;
        if l > b.len() - at - 8 || b[at + 6] != 0 || b[at + 7] != 0 {
            return None;
        }
        out[n] = (at, at + 8 + l);
        at += 8 + l;
        n += 1;
    }
    Some(out)
}
fn memory_decode<const N: usize>() {
    let b: [u8; N] = nd::bytes();
    #[cfg(not(kani))]
    let b = {
        let mut b = b;
        let k: u8 = nd::any();
        if k & 3 != 0 && N >= 8 && !nd::replaying() {
            // mostly plausible data
            b[2] = b[2] % (N as u8);
            b[3..8].fill(0);
            let at = 8 + b[2] as usize;
            if at + 8 <= N {
                b[at + 2] = if k & 4 != 0 { (N - at - 8) as u8 } else { b[at + 2] % 4 };
                b[at + 3..at + 8].fill(0);
            }
        }
        b
    };
    let r = E2StoreMemory::deserialize(&b);
    let want = split(&b);
    match &r {
        Ok(m) => {
            assert!(want.is_some(), "P25.sequence-refuse: malformed sequence accepted");
            let w = want.unwrap();
            let mut i = 0;
            while i < m.entries.len() {
                let e = &m.entries[i];
                assert!(e.header.type_ == u16::from_be_bytes([b[w[i].0], b[w[i].0 + 1]]) && same(&e.value, &b[w[i].0 + 8..w[i].1]), "P25.sequence-entry: entry of the sequence read wrongly");
                i += 1;
            }
            assert!(m.length() == N, "P25.sequence-all: entries do not cover the data");
        }
        Err(_) => assert!(want.is_none(), "P25.sequence-accept: well-formed sequence refused"),
    }
    forget(r);
}
fn memory_roundtrip<const A: usize, const B: usize>() {
    let (t, u): (u16, u16) = (nd::any(), nd::any());
    let (x, y): ([u8; A], [u8; B]) = (nd::bytes(), nd::bytes());
    let m = E2StoreMemory { entries: vec![Entry::new(t, x.to_vec()), Entry::new(u, y.to_vec())] };
    assert!(m.length() == 16 + A + B, "P25.sequence-size: size of the sequence is not the sum");
    let r: anyhow::Result<Vec<u8>> = m.try_into();
    match r {
        Ok(b) => {
            assert!(b.len() == 16 + A + B, "P25.sequence-encoded-size: encoded size is not the sum");
            match E2StoreMemory::deserialize(&b) {
                Ok(d) => {
                    assert!(d.entries.len() == 2, "P25.sequence-count: another number of entries is read back");
                    assert!(d.entries[0].header.type_ == t && same(&d.entries[0].value, &x), "P25.sequence-first: first entry read back differs");
                    assert!(d.entries[1].header.type_ == u && same(&d.entries[1].value, &y), "P25.sequence-second: second entry read back differs");
                    forget(d);
                }
                Err(_) => assert!(false, "P25.sequence-roundtrip: written sequence is refused"),
            }
            forget(b);
        }
        Err(_) => assert!(false, "P25.sequence-write: sequence is not written"),
    }
}
fn version() {
    let t: u16 = nd::any();
    let extra: bool = nd::any();
    let e = Entry { header: Header { type_: t, length: nd::any(), reserved: nd::any() }, value: if extra { vec![nd::any()] } else { vec![] } };
    let r = VersionEntry::try_from(&e);
    let want = t == 0x6532 && e.header.length == 0 && e.header.reserved == 0 && !extra;
    assert!(r.is_ok() == want, "P25.version: version entry recognised wrongly");
    nd::cover!(want, "a version entry is recognised");
    forget((r, e));
}
/// Native: whole files written and read through the streaming interface, whole or cut short.
#[cfg(not(kani))]
fn native_stream() {
    use std::io::{BufReader, BufWriter};
    let n = nd::below(6);
    let es: Vec<Entry> = (0..n)
        .map(|_| {
            let l = if nd::below(8) == 0 { nd::below(5000) } else { nd::below(40) };
            let s: u8 = nd::any();
            Entry::new(nd::any(), (0..l).map(|i| (i as u8).wrapping_mul(31) ^ s).collect())
        })
        .collect();
    let mut file = Vec::new();
    {
        let mut w = E2StoreStreamWriter::new(BufWriter::new(&mut file)).expect("P25.stream-new");
        for e in &es {
            w.append_entry(e).expect("P25.stream-append");
        }
        w.flush().expect("P25.stream-flush");
    }
    let total: usize = es.iter().map(|e| 8 + e.value.len()).sum();
    assert!(file.len() == total, "P25.stream-size: file size is not the sum of the entry sizes");
    let mut r = E2StoreStreamReader::new(BufReader::new(&file[..])).expect("P25.stream-open");
    for e in &es {
        assert!(r.next_entry().ok().as_ref() == Some(e), "P25.stream-order: entries are not read back in order");
    }
    assert!(r.next_entry().is_err(), "P25.stream-end: an entry is read past the end");
    let m = E2StoreMemory::deserialize(&file).expect("P25.stream-memory");
    assert!(m.entries == es, "P25.memory-order: entries are not read back in order");
    if total > 0 {
        let cut = nd::below(total);
        let mut k = 0;
        let mut at = 0;
        while at + 8 + es[k].value.len() <= cut {
            at += 8 + es[k].value.len();
            k += 1;
        }
        let short = E2StoreMemory::deserialize(&file[..cut]);
        assert!(short.is_ok() == (at == cut), "P25.memory-cut: truncated data accepted, or whole entries refused");
        let mut r = E2StoreStreamReader::new(BufReader::new(&file[..cut])).expect("P25.stream-open");
        for e in &es[..k] {
            assert!(r.next_entry().ok().as_ref() == Some(e), "P25.stream-prefix: whole entry of a cut file not read");
        }
        assert!(r.next_entry().is_err(), "P25.stream-cut: truncated entry accepted");
        let at = es[..nd::below(n)].iter().map(|e| 8 + e.value.len()).sum::<usize>();
        let mut bad = file.clone();
        bad[at + 6 + nd::below(2)] = 1 + nd::below(255) as u8;
        assert!(E2StoreMemory::deserialize(&bad).is_err(), "P25.memory-reserved: reserved field accepted");
    }
}

nd::harnesses! {
    fn p25_roundtrip_0_1(unwind = 10) { roundtrip::<0>(); roundtrip::<1>() }
    fn p25_roundtrip_5(unwind = 14) { roundtrip::<5>() }
    fn p25_decode_0_7(unwind = 10) { decode::<0>(); decode::<1>(); decode::<6>(); decode::<7>() }
    fn p25_decode_8_9(unwind = 10) { decode::<8>(); decode::<9>() }
    fn p25_roundtrip_33(unwind = 42) { roundtrip::<33>() }
    fn p25_decode_40(unwind = 42) { decode::<40>() }
    fn p25_decode_13(unwind = 14) { decode::<13>() }
    fn p25_buffer(unwind = 10) { wrong_buffer::<2, 9>(); wrong_buffer::<2, 10>(); wrong_buffer::<2, 11>(); wrong_buffer::<0, 0>() }
    fn p25_memory_0_8(unwind = 10) { memory_decode::<0>(); memory_decode::<5>(); memory_decode::<8>() }
    fn p25_memory_16(unwind = 17) { memory_decode::<16>() }
    fn p25_memory_roundtrip(unwind = 12) { memory_roundtrip::<1, 2>() }
    fn p25_version(unwind = 4) { version() }
    fn p25_native(unwind = 2) { #[cfg(not(kani))] native_stream() }
}
