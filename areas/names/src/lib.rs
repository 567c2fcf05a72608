//! Contracts of `client_type.rs` and `consensus/fork.rs`.
#![allow(dead_code, unused_imports, clippy::all)]
#[cfg(not(feature = "real"))]
extern crate vstd as std;
#[cfg(feature = "real")]
extern crate rand_real as rand;
#[cfg(not(kani))]
extern crate hex_real as hex;
#[cfg(kani)]
#[macro_use]
extern crate lightfmt;

pub mod utils {
    #[path = "/repo/crates/ethportal-api/src/utils/bytes.rs"]
    pub mod bytes;
}
#[path = "/repo/crates/ethportal-api/src/types/client_type.rs"]
pub mod client_type;
#[path = "/repo/crates/ethportal-api/src/types/consensus/fork.rs"]
pub mod fork;

use client_type::ClientType;
use core::fmt::Write;
use fork::ForkName;
use std::str::FromStr;

struct Out {
    b: [u8; 48],
    n: usize,
}
impl Write for Out {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            self.b[self.n] = s[i];
            self.n += 1;
            i += 1;
        }
        Ok(())
    }
}
fn render<T: core::fmt::Display>(t: &T) -> Out {
    let mut o = Out { b: [0; 48], n: 0 };
    let r = core::write!(o, "{}", t);
    assert!(r.is_ok(), "P03.render-ok: rendering never fails");
    o
}
fn same(o: &Out, e: &[u8]) -> bool {
    if o.n != e.len() {
        return false;
    }
    let mut i = 0;
    while i < e.len() {
        if o.b[i] != e[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn eqb(a: &[u8], e: &[u8]) -> bool {
    if a.len() != e.len() {
        return false;
    }
    let mut i = 0;
    while i < e.len() {
        if a[i] != e[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn low<const N: usize>(b: &[u8; N]) -> [u8; N] {
    let mut r = *b;
    let mut i = 0;
    while i < N {
        if r[i] >= b'A' && r[i] <= b'Z' {
            r[i] += 32;
        }
        i += 1;
    }
    r
}
fn ascii<const N: usize>() -> [u8; N] {
    let b: [u8; N] = nd::text();
    let mut i = 0;
    while i < N {
        nd::assume(b[i] < 0x80);
        i += 1;
    }
    b
}
fn client_ix(c: &ClientType) -> usize {
    match c {
        ClientType::Fluffy => 0,
        ClientType::Trin => 1,
        ClientType::TrinExecution => 2,
        ClientType::Shisui => 3,
        ClientType::Ultralight => 4,
        ClientType::Samba => 5,
        ClientType::Unknown(_) => 6,
    }
}
const CLIENTS: [&[u8]; 6] = [b"fluffy", b"trin", b"trin-execution", b"shisui", b"ultralight", b"samba"];

/// Every ASCII text of exactly `N` bytes.
fn client<const N: usize>() {
    let b: [u8; N] = ascii();
    let l = low(&b);
    let mut want = 6;
    let mut i = 0;
    while i < 6 {
        if eqb(&l, CLIENTS[i]) {
            want = i;
        }
        i += 1;
    }
    let c = ClientType::from(nd::as_str(&b));
    assert!(client_ix(&c) == want, "P03.recognise: a text is recognised exactly as the client it names");
    if let ClientType::Unknown(t) = &c {
        match t {
            Some(t) => assert!(eqb(t.as_bytes(), &l), "P03.preserve: unknown text kept, lower-cased"),
            None => assert!(false, "P03.preserve-some: unknown text is kept"),
        }
    }
    core::mem::forget(c);
}
fn fork_ix(f: &ForkName) -> usize {
    match f {
        ForkName::Bellatrix => 0,
        ForkName::Capella => 1,
        ForkName::Deneb => 2,
        ForkName::Electra => 3,
    }
}
const FORKS: [ForkName; 4] = [ForkName::Bellatrix, ForkName::Capella, ForkName::Deneb, ForkName::Electra];
const NAMES: [&[u8]; 4] = [b"bellatrix", b"capella", b"deneb", b"electra"];
const CAPS: [&[u8]; 4] = [b"Bellatrix", b"Capella", b"Deneb", b"Electra"];
const DIGESTS: [u32; 4] = [0x4a26c58b, 0xbba4da96, 0x6a95a1a9, 0xad532ceb];

fn fork_name<const N: usize>() {
    let b: [u8; N] = ascii();
    let l = low(&b);
    let mut want = if eqb(&l, b"merge") { 0 } else { 4 };
    let mut i = 0;
    while i < 4 {
        if eqb(&l, NAMES[i]) {
            want = i;
        }
        i += 1;
    }
    match ForkName::from_str(nd::as_str(&b)) {
        Ok(f) => assert!(fork_ix(&f) == want, "P04.parse: text accepted as the wrong fork"),
        Err(_) => assert!(want == 4, "P04.refuse: fork name refused"),
    }
}

#[cfg(not(kani))]
fn unicode() {
    const W: [&str; 24] = [
        "trin", "TRIN", "fluffy", "-", "execution", "shisui", "Samba", "ultralight", "\u{c9}", "\u{130}", "\u{3a3}", "\u{212a}",
        " ", "\u{17f}", "x", "merge", "Bellatrix", "CAPELLA", "deneb", "electra", "\u{1f600}", "\0", "\u{df}", "0",
    ];
    let t: String = (0..nd::below(4)).map(|_| W[nd::below(W.len())]).collect();
    let l = t.to_lowercase();
    let c = ClientType::from(t.as_str());
    let want = CLIENTS.iter().position(|n| *n == l.as_bytes()).unwrap_or(6);
    assert_eq!(client_ix(&c), want, "P03.unicode-recognise: {t:?}");
    if want == 6 {
        assert_eq!(c, ClientType::Unknown(Some(l.clone())), "P03.unicode-preserve: {t:?}");
        assert_eq!(c.to_string(), std::format!("Unknown({l})"), "P03.unicode-render: {t:?}");
    }
    let f = if l == "merge" { Some(0) } else { NAMES.iter().position(|n| *n == l.as_bytes()) };
    assert_eq!(ForkName::from_str(&t).ok().map(|f| fork_ix(&f)), f, "P04.unicode: {t:?}");
    assert_eq!(ForkName::try_from(t.clone()).ok().map(|f| fork_ix(&f)), f, "P04.unicode-string: {t:?}");
}

nd::harnesses! {
    /// Native only: non-ASCII and composed texts.
    fn p03_unicode (unwind = 1) { #[cfg(not(kani))] unicode(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p03_len_0_3 (unwind = 17) { client::<0>(); client::<1>(); client::<3>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p03_len_4 (unwind = 17) { client::<4>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p03_len_5 (unwind = 17) { client::<5>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p03_len_6 (unwind = 17) { client::<6>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p03_len_7_9 (unwind = 17) { client::<7>(); client::<9>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p03_len_10 (unwind = 17) { client::<10>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p03_len_14 (unwind = 17) { client::<14>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p03_len_15 (unwind = 17) { client::<15>(); }
    fn p03_render_known (unwind = 20) {
        assert!(same(&render(&ClientType::Fluffy), b"Fluffy"), "P03.render-fluffy: own name");
        assert!(same(&render(&ClientType::Trin), b"Trin"), "P03.render-trin: own name");
        assert!(same(&render(&ClientType::TrinExecution), b"TrinExecution"), "P03.render-trin-execution: own name");
        assert!(same(&render(&ClientType::Shisui), b"Shisui"), "P03.render-shisui: own name");
        assert!(same(&render(&ClientType::Ultralight), b"Ultralight"), "P03.render-ultralight: own name");
        assert!(same(&render(&ClientType::Samba), b"Samba"), "P03.render-samba: own name");
        assert!(same(&render(&ClientType::Unknown(None)), b"Unknown"), "P03.render-none: Unknown");
    }
    fn p03_render_unknown (unwind = 20) {
        let b: [u8; 4] = ascii();
        let s = String::from(nd::as_str(&b));
        let o = render(&ClientType::Unknown(Some(s)));
        let e = [b'U', b'n', b'k', b'n', b'o', b'w', b'n', b'(', b[0], b[1], b[2], b[3], b')'];
        assert!(same(&o, &e), "P03.render-unknown: Unknown(<text>)");
    }

    /// All 2^32 digests.
    fn p04_digest (unwind = 10) {
        let d: [u8; 4] = nd::bytes();
        let v = u32::from_be_bytes(d);
        match ForkName::try_from(d) {
            Ok(f) => {
                assert!(DIGESTS[fork_ix(&f)] == v, "P04.digest: digest accepted as the wrong fork");
                let a = f.as_fork_digest();
                assert!(u32::from_be_bytes(a) == v, "P04.digest-inverse: fork gives back its digest");
            }
            Err(_) => {
                let mut i = 0;
                while i < 4 {
                    assert!(v != DIGESTS[i], "P04.digest-known: digest of a fork refused");
                    i += 1;
                }
            }
        }
    }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p04_render (unwind = 20) {
        let i = nd::below(4);
        let f = FORKS[i];
        assert!(u32::from_be_bytes(f.as_fork_digest()) == DIGESTS[i], "P04.own-digest: fixed digest of the fork");
        let o = render(&f);
        assert!(same(&o, NAMES[i]), "P04.name: lower-case name");
        assert!(eqb(f.as_capitalized_str().as_bytes(), CAPS[i]), "P04.capitalised: differs only in the first letter's case");
        match ForkName::from_str(nd::as_str(&o.b[..o.n])) {
            Ok(g) => assert!(g == f, "P04.roundtrip: rendered name parses back"),
            Err(_) => assert!(false, "P04.roundtrip-ok: rendered name must parse"),
        }
    }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p04_string (unwind = 20) {
        let i = nd::below(4);
        let f = FORKS[i];
        let s = String::from(f);
        assert!(eqb(s.as_bytes(), NAMES[i]), "P04.into-string: lower-case name");
        match ForkName::try_from(s) {
            Ok(g) => assert!(g == f, "P04.string-roundtrip: text parses back"),
            Err(_) => assert!(false, "P04.string-roundtrip-ok: text must parse"),
        }
    }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p04_len_0_4 (unwind = 12) { fork_name::<0>(); fork_name::<1>(); fork_name::<4>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p04_len_5 (unwind = 12) { fork_name::<5>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p04_len_6_7 (unwind = 12) { fork_name::<6>(); fork_name::<7>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p04_len_8_9 (unwind = 12) { fork_name::<8>(); fork_name::<9>(); }
    #[cfg_attr(kani, kani::stub(str::to_lowercase, nd::stub::lower), kani::stub(str::to_uppercase, nd::stub::upper))]
    fn p04_len_10 (unwind = 13) { fork_name::<10>(); }
}
