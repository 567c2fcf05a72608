//! Contracts of `ethportal-api/src/types/jsonrpc/params.rs`. Native runs use the real serde crates,
//! verifier runs their contracts (`kserde*`).
#![allow(dead_code, unused_imports, clippy::all)]
#[cfg(kani)]
extern crate kserde as serde;
#[cfg(kani)]
extern crate kserde_json as serde_json;

#[path = "/repo/crates/ethportal-api/src/types/jsonrpc/params.rs"]
pub mod params;
use params::Params;
use serde_json::{from_value, to_value, Map, Value};

fn num(v: &Value) -> Option<i64> {
    match v {
        Value::Number(n) => n.as_i64(),
        _ => None,
    }
}
fn arr(x: &[i64]) -> Vec<Value> {
    match x.len() {
        0 => vec![],
        1 => vec![Value::from(x[0])],
        2 => vec![Value::from(x[0]), Value::from(x[1])],
        _ => vec![Value::from(x[0]), Value::from(x[1]), Value::from(x[2])],
    }
}
fn check_arr(v: &[Value], x: &[i64]) {
    assert!(v.len() == x.len(), "P05.array-len: same number of elements");
    let mut i = 0;
    while i < x.len() {
        assert!(num(&v[i]) == Some(x[i]), "P05.array: same elements in order");
        i += 1;
    }
}
fn array<const N: usize>() {
    let x: [i64; N] = nd::any();
    let p = Params::Array(arr(&x));
    let how: bool = nd::any();
    let v = if how { Value::from(p) } else { to_value(p).expect("P05.write") };
    match &v {
        Value::Array(a) => check_arr(a, &x),
        _ => assert!(false, "P05.array-kind: positional parameters become an array"),
    }
    let back = from_value::<Params>(v);
    match &back {
        Ok(Params::Array(a)) => check_arr(a, &x),
        _ => assert!(false, "P05.array-back: array reads back as positional parameters"),
    }
    core::mem::forget(back);
}
fn key(b: u8) -> String {
    String::from(nd::as_str(&[b]))
}
fn check_map(m: &Map<String, Value>, k: &[u8], x: &[i64]) {
    assert!(m.len() == k.len(), "P05.map-len: same number of entries");
    let mut i = 0;
    while i < k.len() {
        let kk = [k[i]];
        assert!(m.get(nd::as_str(&kk)).and_then(num) == Some(x[i]), "P05.map: same entries");
        i += 1;
    }
}
fn map<const N: usize>() {
    let x: [i64; N] = nd::any();
    let mut k = [0u8; N];
    let mut m = Map::new();
    let mut i = 0;
    while i < N {
        k[i] = nd::any();
        // Distinct keys of one ASCII character.
        nd::assume(k[i] < 0x80 && (i == 0 || k[i] != k[0]));
        core::mem::forget(m.insert(key(k[i]), Value::from(x[i])));
        i += 1;
    }
    let p = Params::Map(m);
    let how: bool = nd::any();
    let v = if how { Value::from(p) } else { to_value(p).expect("P05.write") };
    match &v {
        Value::Object(a) => check_map(a, &k, &x),
        _ => assert!(false, "P05.map-kind: named parameters become an object"),
    }
    let back = from_value::<Params>(v);
    match &back {
        Ok(Params::Map(a)) => check_map(a, &k, &x),
        _ => assert!(false, "P05.map-back: object reads back as named parameters"),
    }
    core::mem::forget(back);
}
fn refused(v: Value) {
    let r = from_value::<Params>(v);
    assert!(r.is_err(), "P05.refuse: neither null, array nor object");
    core::mem::forget(r);
}

#[cfg(not(kani))]
fn tree(depth: usize) -> Value {
    match nd::below(if depth == 0 { 5 } else { 7 }) {
        0 => Value::Null,
        1 => Value::Bool(nd::any()),
        2 => Value::from(nd::any::<i64>()),
        3 => Value::from(nd::any::<u16>() as f64 / 8.0),
        4 => Value::from(["", "a", "0x12", "null", "[]", "0", "params"][nd::below(7)]),
        5 => Value::Array((0..nd::below(4)).map(|_| tree(depth - 1)).collect()),
        _ => Value::Object((0..nd::below(4)).map(|_| (["k", "", "a", "z", "0", "1", "id", "params", "jsonrpc", "null", "Array"][nd::below(11)].to_string(), tree(depth - 1))).collect()),
    }
}
#[cfg(not(kani))]
fn native_tree() {
    let v = tree(3);
    let r = from_value::<Params>(v.clone());
    match &v {
        Value::Null => assert_eq!(r.ok(), Some(Params::None), "P05.tree-null"),
        Value::Array(a) => assert_eq!(r.ok(), Some(Params::Array(a.clone())), "P05.tree-array"),
        Value::Object(m) => assert_eq!(r.ok(), Some(Params::Map(m.clone())), "P05.tree-map"),
        _ => assert!(r.is_err(), "P05.tree-refuse"),
    }
    if let Ok(p) = from_value::<Params>(v.clone()) {
        assert_eq!(Value::from(p.clone()), v, "P05.tree-into");
        assert_eq!(to_value(&p).ok(), Some(v.clone()), "P05.tree-write");
        let text = serde_json::to_string(&p).expect("P05.text");
        assert_eq!(serde_json::from_str::<Params>(&text).ok(), Some(p), "P05.tree-text");
    }
}

nd::harnesses! {
    /// Native only: real serde on random JSON trees.
    fn p05_native_tree (unwind = 1) { #[cfg(not(kani))] native_tree(); }
    fn p05_none (unwind = 3) {
        assert!(matches!(Value::from(Params::None), Value::Null), "P05.none: no parameters become null");
        assert!(matches!(to_value(Params::None), Ok(Value::Null)), "P05.none-write: no parameters become null");
        assert!(matches!(from_value::<Params>(Value::Null), Ok(Params::None)), "P05.none-back: null reads back as no parameters");
    }
    fn p05_array_0 (unwind = 4) { array::<0>(); }
    fn p05_array_1 (unwind = 4) { array::<1>(); }
    fn p05_array_3 (unwind = 5) { array::<3>(); }
    fn p05_map_0 (unwind = 4) { map::<0>(); }
    fn p05_map_1 (unwind = 4) { map::<1>(); }
    fn p05_map_2 (unwind = 5) { map::<2>(); }
    fn p05_refuse_bool (unwind = 3) { refused(Value::Bool(nd::any())); }
    fn p05_refuse_num (unwind = 3) { refused(Value::from(nd::any::<i64>())); }
    fn p05_refuse_str (unwind = 3) { refused(Value::from(key(b'x'))); refused(Value::from(String::new())); }
}
