//! Nondeterminism for contract harnesses.
//!
//! One harness text, two executions:
//! * under `cargo kani` every `nd::any()` is an unconstrained symbolic value, `nd::assume` is a
//!   precondition and every `assert!` in the harness is an obligation for the verifier;
//! * natively (replay of a counterexample, or the bounded stand-in used when the verifier gives no
//!   answer) `nd::any()` takes the next recorded value, or a pseudo-random one.
//!
//! Values are recorded as one little-endian byte vector per `any()` call, the same convention the
//! verifier uses when it prints a counterexample.

#[cfg(kani)]
mod imp {
    pub trait Nd: kani::Arbitrary {}
    impl<T: kani::Arbitrary> Nd for T {}

    #[inline(always)]
    pub fn any<T: Nd>() -> T {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(b: bool) {
        kani::assume(b)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    pub struct Source {
        pub fixed: Option<std::collections::VecDeque<Vec<u8>>>,
        pub state: u64,
        pub log: Vec<Vec<u8>>,
    }

    thread_local! {
        pub static SRC: RefCell<Source> = const { RefCell::new(Source { fixed: None, state: 0, log: Vec::new() }) };
    }

    fn next_u64(s: &mut Source) -> u64 {
        s.state = s.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = s.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    /// `n` bytes for one `any()` call.
    pub fn draw(n: usize) -> Vec<u8> {
        SRC.with(|s| {
            let mut s = s.borrow_mut();
            let mut v: Vec<u8>;
            if s.fixed.is_some() {
                // A counterexample only lists the values the verifier needed; the rest are free.
                v = s.fixed.as_mut().and_then(|f| f.pop_front()).unwrap_or_default();
                v.resize(n, 0);
            } else {
                v = vec![0u8; n];
                // Mix of shapes: small, boundary-heavy and uniform values.
                let shape = next_u64(&mut s) % 8;
                match shape {
                    0 => {}
                    1 => v.iter_mut().for_each(|b| *b = 0xff),
                    2 | 3 => {
                        let r = next_u64(&mut s);
                        if n > 0 {
                            v[0] = (r % 8) as u8;
                        }
                    }
                    4 => {
                        let r = next_u64(&mut s);
                        v.iter_mut().for_each(|b| *b = 0xff);
                        if n > 0 {
                            v[0] = 0xff - (r % 8) as u8;
                        }
                    }
                    5 => {
                        // one set bit, possibly minus one
                        let r = next_u64(&mut s);
                        if n > 0 {
                            let bit = (r as usize) % (n * 8);
                            v[bit / 8] = 1 << (bit % 8);
                            if r & (1 << 40) != 0 {
                                for b in v.iter_mut().take(bit / 8) {
                                    *b = 0xff;
                                }
                                v[bit / 8] -= 1;
                            }
                        }
                    }
                    _ => {
                        for b in v.iter_mut() {
                            *b = next_u64(&mut s) as u8;
                        }
                        if shape == 6 && n > 2 {
                            let keep = 1 + (next_u64(&mut s) as usize) % n;
                            for b in v.iter_mut().skip(keep) {
                                *b = 0;
                            }
                        }
                    }
                }
            }
            s.log.push(v.clone());
            v
        })
    }

    pub trait Nd: Sized {
        fn nd() -> Self;
    }
    macro_rules! ints {
        ($($t:ty),*) => {$(
            impl Nd for $t {
                fn nd() -> Self {
                    let mut b = [0u8; core::mem::size_of::<$t>()];
                    b.copy_from_slice(&draw(core::mem::size_of::<$t>()));
                    <$t>::from_le_bytes(b)
                }
            }
        )*};
    }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
    impl Nd for bool {
        fn nd() -> Self {
            draw(1)[0] & 1 == 1
        }
    }
    impl<T: Nd, const N: usize> Nd for [T; N] {
        fn nd() -> Self {
            core::array::from_fn(|_| T::nd())
        }
    }

    pub fn any<T: Nd>() -> T {
        T::nd()
    }

    pub struct AssumeFailed;
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(AssumeFailed)
        }
    }
}

pub use imp::*;

/// Whether recorded values are being replayed (always false under the verifier).
pub fn replaying() -> bool {
    #[cfg(kani)]
    {
        false
    }
    #[cfg(not(kani))]
    {
        imp::SRC.with(|s| s.borrow().fixed.is_some())
    }
}

/// `N` unconstrained bytes, drawn as a single value.
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    #[cfg(kani)]
    {
        kani::any()
    }
    #[cfg(not(kani))]
    {
        <[u8; N] as imp::Nd>::nd()
    }
}

/// An unconstrained value below `n`.
#[inline(always)]
pub fn below(n: usize) -> usize {
    #[cfg(kani)]
    {
        let v: usize = kani::any();
        kani::assume(v < n);
        v
    }
    #[cfg(not(kani))]
    {
        let v: usize = imp::any();
        if imp::SRC.with(|s| s.borrow().fixed.is_some()) {
            imp::assume(v < n);
        }
        let v = v % n;
        imp::SRC.with(|s| {
            if let Some(l) = s.borrow_mut().log.last_mut() {
                *l = v.to_le_bytes().to_vec();
            }
        });
        v
    }
}

/// Whether `b` is well-formed UTF-8 (RFC 3629), written without table look-ups.
pub fn is_utf8(b: &[u8]) -> bool {
    let mut i = 0;
    // Continuation bytes still expected, and the allowed range of the next one.
    let (mut more, mut lo, mut hi) = (0u8, 0x80u8, 0xbfu8);
    while i < b.len() {
        let c = b[i];
        if more > 0 {
            if c < lo || c > hi {
                return false;
            }
            more -= 1;
            lo = 0x80;
            hi = 0xbf;
        } else if c >= 0x80 {
            match c {
                0xc2..=0xdf => more = 1,
                0xe0 => {
                    more = 2;
                    lo = 0xa0;
                }
                0xed => {
                    more = 2;
                    hi = 0x9f;
                }
                0xe1..=0xef => more = 2,
                0xf0 => {
                    more = 3;
                    lo = 0x90;
                }
                0xf1..=0xf3 => more = 3,
                0xf4 => {
                    more = 3;
                    hi = 0x8f;
                }
                _ => return false,
            }
        }
        i += 1;
    }
    more == 0
}

/// `N` bytes of unconstrained well-formed text.
#[inline(always)]
pub fn text<const N: usize>() -> [u8; N] {
    #[allow(unused_mut)]
    let mut b: [u8; N] = bytes();
    #[cfg(not(kani))]
    if imp::SRC.with(|s| s.borrow().fixed.is_none()) {
        // Random text: mostly ASCII, drawn from the characters parsers care about.
        const A: &[u8] = b"0123456789abcdefxXABCDEFrR:-+. _singlesnapshotlatestmergbkuwyvz";
        if b.iter().fold(0u32, |a, c| a.wrapping_mul(31).wrapping_add(*c as u32)) % 4 != 0 {
            b.iter_mut().for_each(|c| *c = A[*c as usize % A.len()]);
        }
        if !is_utf8(&b) {
            b.iter_mut().for_each(|c| *c &= 0x7f);
        }
        let start = N;
        imp::SRC.with(|s| {
            let l = &mut s.borrow_mut().log;
            let k = l.len();
            for (i, c) in b.iter().enumerate() {
                l[k - start + i] = vec![*c];
            }
        });
    }
    assume(is_utf8(&b));
    b
}

/// View of bytes produced by [`text`].
#[inline(always)]
pub fn as_str(b: &[u8]) -> &str {
    #[cfg(kani)]
    unsafe {
        core::str::from_utf8_unchecked(b)
    }
    #[cfg(not(kani))]
    core::str::from_utf8(b).expect("utf8")
}

/// Stand-ins for library functions the verifier cannot execute; exact on the inputs stated.
pub mod stub {
    /// `str::to_lowercase`, exact for ASCII text up to 40 bytes; non-ASCII bytes are kept. (No
    /// non-ASCII letter lower-cases to the ASCII letters of any name trin recognises.)
    pub fn lower(x: &str) -> String {
        String::from_utf8_lossless(map(x, false))
    }
    pub fn upper(x: &str) -> String {
        String::from_utf8_lossless(map(x, true))
    }
    trait FromUtf8 {
        fn from_utf8_lossless(v: Vec<u8>) -> Self;
    }
    impl FromUtf8 for String {
        fn from_utf8_lossless(v: Vec<u8>) -> String {
            unsafe { String::from_utf8_unchecked(v) }
        }
    }
    fn map(x: &str, up: bool) -> Vec<u8> {
        let b = x.as_bytes();
        assert!(b.len() <= 40, "model capacity exceeded");
        let mut out = [0u8; 40];
        let mut i = 0;
        while i < b.len() {
            out[i] = if up { b[i].to_ascii_uppercase() } else { b[i].to_ascii_lowercase() };
            i += 1;
        }
        take(out, b.len())
    }
    /// The first `n` bytes of `buf`, in an allocation of constant size.
    pub fn take<const N: usize>(buf: [u8; N], n: usize) -> Vec<u8> {
        let b: Box<[u8]> = Box::new(buf);
        let mut v = b.into_vec();
        assert!(n <= N);
        unsafe { v.set_len(n) };
        v
    }
    /// `core::slice::memchr::memchr`: position of the first `x`.
    pub fn memchr(x: u8, text: &[u8]) -> Option<usize> {
        let mut i = 0;
        while i < text.len() {
            if text[i] == x {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    pub fn memrchr(x: u8, text: &[u8]) -> Option<usize> {
        let mut i = text.len();
        while i > 0 {
            i -= 1;
            if text[i] == x {
                return Some(i);
            }
        }
        None
    }
    /// `f32::powi` for small non-negative exponents.
    pub fn powi32(x: f32, n: i32) -> f32 {
        assert!(n >= 0 && n <= 16, "model capacity exceeded");
        let mut r = 1.0f32;
        let mut i = 0;
        while i < n {
            r *= x;
            i += 1;
        }
        r
    }
    /// `f64::powi` for small non-negative exponents.
    pub fn powi64(x: f64, n: i32) -> f64 {
        assert!(n >= 0 && n <= 16, "model capacity exceeded");
        let mut r = 1.0f64;
        let mut i = 0;
        while i < n {
            r *= x;
            i += 1;
        }
        r
    }
}

/// Reachability witness: the verifier must find an execution in which the condition is true.
#[macro_export]
macro_rules! cover {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        {
            kani::cover!($c, $m);
        }
        #[cfg(not(kani))]
        {
            let _ = $c;
        }
    }};
}

/// Declares the harnesses of an area crate and the native entry point `nd_run`.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$m:meta])* fn $name:ident ( unwind = $u:expr ) $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub fn nd_table() -> &'static [(&'static str, fn())] {
            &[ $( (stringify!($name), $name as fn()) ),* ]
        }
    };
}

/// Native driver. `replay <harness> vals <file>` or `replay <harness> rand <seed> <iters> <secs>`.
#[cfg(not(kani))]
pub fn native_main(tables: &[&[(&'static str, fn())]]) {
    let args: Vec<String> = std::env::args().collect();
    let name = args.get(1).cloned().unwrap_or_default();
    let f = tables
        .iter()
        .flat_map(|t| t.iter())
        .find(|(n, _)| *n == name)
        .map(|(_, f)| *f);
    let Some(f) = f else {
        println!("ND-UNKNOWN {name}");
        std::process::exit(4);
    };
    let mode = args.get(2).map(|s| s.as_str()).unwrap_or("rand");
    std::panic::set_hook(Box::new(|_| {}));
    let mut ran = 0u64;
    let mut discarded = 0u64;
    let run_one = |fixed: Option<Vec<Vec<u8>>>, state: u64| -> Result<bool, (String, Vec<Vec<u8>>)> {
        imp::SRC.with(|s| {
            let mut s = s.borrow_mut();
            s.fixed = fixed.map(|f| f.into());
            s.state = state;
            s.log.clear();
        });
        let loc = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
        let loc2 = loc.clone();
        std::panic::set_hook(Box::new(move |i| {
            *loc2.lock().unwrap() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        }));
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(()) => Ok(true),
            Err(e) if e.is::<imp::AssumeFailed>() => Ok(false),
            Err(e) => {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let m = format!("{m} ({})", loc.lock().unwrap());
                Err((m, imp::SRC.with(|s| s.borrow().log.clone())))
            }
        }
    };
    let report = |m: String, log: Vec<Vec<u8>>| -> ! {
        println!("ND-FAIL {}", m.replace('\n', " "));
        for v in log {
            println!("ND-VAL {}", v.iter().map(|b| format!("{b:02x}")).collect::<String>());
        }
        std::process::exit(3)
    };
    if mode == "vals" {
        let text = std::fs::read_to_string(&args[3]).expect("vals file");
        let vals = text
            .lines()
            .map(|l| {
                let l = l.trim();
                (0..l.len() / 2)
                    .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).expect("hex"))
                    .collect()
            })
            .collect::<Vec<Vec<u8>>>();
        match run_one(Some(vals), 0) {
            Ok(true) => println!("ND-PASS"),
            Ok(false) => println!("ND-ASSUME"),
            Err((m, log)) => report(m, log),
        }
        return;
    }
    let seed: u64 = args.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    let iters: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(10_000);
    let secs: u64 = args.get(5).and_then(|s| s.parse().ok()).unwrap_or(20);
    let t0 = std::time::Instant::now();
    for i in 0..iters {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        match run_one(None, seed.wrapping_mul(0x1000_0000_01b3).wrapping_add(i.wrapping_mul(0xD134_2543_DE82_EF95))) {
            Ok(true) => ran += 1,
            Ok(false) => discarded += 1,
            Err((m, log)) => report(m, log),
        }
    }
    println!("ND-RAND ran={ran} discarded={discarded}");
}
