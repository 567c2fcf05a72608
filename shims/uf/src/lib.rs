//! A hash function nothing is known about.
//!
//! Natively: a truly arbitrary function. The first query of each input returns a drawn value, every
//! later query of the same input returns that value again.
//!
//! For the verifier: a family of asymmetric mixing functions with unconstrained 256-bit keys. (A
//! table of answers, as used natively, makes the query count path dependent and the formulas
//! explode.) The verified code handles digests as opaque values - it only copies and compares them -
//! so this stands in for the real hash; neither collision resistance nor its absence is assumed.

#[cfg(kani)]
mod imp {
    // Initial values are set before use; they are unusual because the verifier may merge a static with constants of the same bytes.
    static mut KEYS: [u128; 2] = [0x5eed_0006; 2];

    pub fn get(tag: u8, k: [u128; 4]) -> [u128; 2] {
        super::mix(tag, k, unsafe { KEYS })
    }
    /// Choose the function (start of a harness).
    pub fn reset() {
        unsafe { KEYS = [nd::any(), nd::any()] }
    }
}

#[cfg(not(kani))]
mod imp {
    use std::{cell::RefCell, collections::HashMap};
    thread_local! {
        static T: RefCell<HashMap<(u8, [u128; 4]), [u128; 2]>> = RefCell::new(HashMap::new());
        static KEYS: std::cell::Cell<[u128; 2]> = const { std::cell::Cell::new([0; 2]) };
    }
    pub fn get(tag: u8, k: [u128; 4]) -> [u128; 2] {
        if nd::replaying() {
            return super::mix(tag, k, KEYS.with(|x| x.get()));
        }
        T.with(|t| *t.borrow_mut().entry((tag, k)).or_insert_with(|| [nd::any(), nd::any()]))
    }
    /// Forget all answers (start of a native harness execution).
    pub fn reset() {
        KEYS.with(|x| x.set([nd::any(), nd::any()]));
        T.with(|t| t.borrow_mut().clear());
    }
}

pub use imp::reset;

/// Digests carry 64 significant bits (the rest is zero): enough for symbolic values to differ.
fn mix(tag: u8, k: [u128; 4], key: [u128; 2]) -> [u128; 2] {
    let l = fold(k[0]) ^ fold(k[1]).rotate_left(17);
    let r = fold(k[2]) ^ fold(k[3]).rotate_left(29);
    [(l.rotate_left(5).wrapping_add(r) ^ l.rotate_left(41) ^ (key[0] as u64) ^ (tag as u64)) as u128, 0]
}
fn fold(x: u128) -> u64 {
    (x as u64) ^ ((x >> 64) as u64).rotate_left(7)
}

fn word(b: &[u8], at: usize) -> u128 {
    let mut w = [0u8; 16];
    w.copy_from_slice(&b[at..at + 16]);
    u128::from_le_bytes(w)
}

/// Input of exactly 64 bytes, split as two halves of 32.
pub fn hash2(a: &[u8], b: &[u8]) -> [u8; 32] {
    out(imp::get(64, [word(a, 0), word(a, 16), word(b, 0), word(b, 16)]))
}

/// Any input of up to 64 bytes.
pub fn hash(x: &[u8]) -> [u8; 32] {
    if x.len() == 64 {
        return hash2(&x[..32], &x[32..]);
    }
    assert!(x.len() < 64, "model capacity exceeded");
    let mut p = [0u8; 64];
    p[..x.len()].copy_from_slice(x);
    out(imp::get(x.len() as u8, [word(&p, 0), word(&p, 16), word(&p, 32), word(&p, 48)]))
}

/// A structured input of up to four words under a separate tag (200..=255).
pub fn tagged(tag: u8, k: [u128; 4]) -> [u8; 32] {
    out(imp::get(tag, k))
}

fn out(v: [u128; 2]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[..16].copy_from_slice(&v[0].to_le_bytes());
    o[16..].copy_from_slice(&v[1].to_le_bytes());
    o
}

/// Input of any length: blocks of 32 bytes folded over [`hash2`], under the length.
pub fn hash_long(x: &[u8]) -> [u8; 32] {
    if x.len() <= 64 {
        return hash(x);
    }
    let mut acc = [0u8; 32];
    acc[..8].copy_from_slice(&(x.len() as u64).to_le_bytes());
    let mut i = 0;
    while i < x.len() {
        let mut b = [0u8; 32];
        let n = if x.len() - i < 32 { x.len() - i } else { 32 };
        b[..n].copy_from_slice(&x[i..i + n]);
        acc = hash2(&acc, &b);
        i += 32;
    }
    acc
}
