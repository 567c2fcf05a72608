//! Contract of `#[derive(Serialize, Deserialize)]` for untagged enums of unit and one-field variants
//! ("variants are tried in declaration order; the first that matches wins; a unit variant matches
//! null"; `#[serde(skip)]`, `skip_serializing`, `skip_deserializing` leave a variant out). Any other
//! shape or attribute is refused with a compile error, so nothing unknown is silently accepted.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

struct Variant {
    name: String,
    ty: Option<String>,
    skip_ser: bool,
    skip_de: bool,
}
fn attrs(g: &TokenTree, out: &mut Vec<String>) {
    if let TokenTree::Group(g) = g {
        let t: Vec<TokenTree> = g.stream().into_iter().collect();
        if let (Some(TokenTree::Ident(i)), Some(TokenTree::Group(a))) = (t.first(), t.get(1)) {
            if i.to_string() == "serde" {
                out.extend(a.stream().to_string().split(',').map(|s| s.trim().to_string()));
            }
        }
    }
}
fn parse(ts: TokenStream) -> Result<(String, Vec<Variant>), String> {
    let t: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut top = vec![];
    let mut name = None;
    let mut body = None;
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                attrs(&t[i + 1], &mut top);
                i += 2;
                continue;
            }
            TokenTree::Ident(k) if k.to_string() == "enum" => {
                name = Some(t[i + 1].to_string());
                i += 2;
                continue;
            }
            TokenTree::Group(g) if name.is_some() && g.delimiter() == Delimiter::Brace => body = Some(g.stream()),
            _ => {}
        }
        i += 1;
    }
    let (Some(name), Some(body)) = (name, body) else { return Err("only enums".into()) };
    if !top.iter().any(|a| a == "untagged") {
        return Err("only untagged enums".into());
    }
    if let Some(x) = top.iter().find(|a| *a != "untagged" && *a != "deny_unknown_fields" && !a.is_empty()) {
        return Err(format!("attribute {x}"));
    }
    let mut vs = vec![];
    let t: Vec<TokenTree> = body.into_iter().collect();
    let mut i = 0;
    let mut a = vec![];
    while i < t.len() {
        match &t[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                attrs(&t[i + 1], &mut a);
                i += 2;
            }
            TokenTree::Ident(n) => {
                let mut ty = None;
                if let Some(TokenTree::Group(g)) = t.get(i + 1) {
                    if g.delimiter() != Delimiter::Parenthesis {
                        return Err("struct variant".into());
                    }
                    ty = Some(g.stream().to_string());
                    i += 1;
                }
                for x in &a {
                    if !matches!(x.as_str(), "skip" | "skip_serializing" | "skip_deserializing") {
                        return Err(format!("attribute {x}"));
                    }
                }
                let has = |s: &str| a.iter().any(|x| x == s);
                vs.push(Variant {
                    name: n.to_string(),
                    ty,
                    skip_ser: has("skip") || has("skip_serializing"),
                    skip_de: has("skip") || has("skip_deserializing"),
                });
                a.clear();
                i += 1;
            }
            _ => i += 1,
        }
    }
    Ok((name, vs))
}
fn fail(e: String) -> TokenStream {
    format!("compile_error!(\"derive contract does not cover: {e}\");").parse().unwrap()
}
#[proc_macro_derive(Deserialize, attributes(serde))]
pub fn de(ts: TokenStream) -> TokenStream {
    let (n, vs) = match parse(ts) {
        Ok(x) => x,
        Err(e) => return fail(e),
    };
    let (mut acc, mut from) = (String::new(), String::new());
    for v in vs.iter().filter(|v| !v.skip_de) {
        match &v.ty {
            None => {
                acc += "|| v.is_null()";
                from += &format!("if v.is_null() {{ return Ok({n}::{}); }}", v.name);
            }
            Some(t) => {
                acc += &format!("|| <{t} as ::serde::FromJson>::accepts(v)");
                from += &format!(
                    "if <{t} as ::serde::FromJson>::accepts(&v) {{ return <{t} as ::serde::FromJson>::from_json(v).map({n}::{}); }}",
                    v.name
                );
            }
        }
    }
    format!(
        "impl ::serde::FromJson for {n} {{
            fn accepts(v: &::serde_json::Value) -> bool {{ false {acc} }}
            fn from_json(v: ::serde_json::Value) -> ::core::result::Result<Self, ::serde_json::Error> {{ {from} Err(::serde_json::Error) }}
        }}"
    )
    .parse()
    .unwrap()
}
#[proc_macro_derive(Serialize, attributes(serde))]
pub fn ser(ts: TokenStream) -> TokenStream {
    let (n, vs) = match parse(ts) {
        Ok(x) => x,
        Err(e) => return fail(e),
    };
    let mut arms = String::new();
    for v in &vs {
        let pat = if v.ty.is_some() { format!("{n}::{}(x)", v.name) } else { format!("{n}::{}", v.name) };
        let e = match (&v.ty, v.skip_ser) {
            (_, true) => "panic!(\"variant cannot be serialized\")".to_string(),
            (None, _) => "::serde_json::Value::Null".to_string(),
            (Some(_), _) => "::serde::ToJson::to_json(x)".to_string(),
        };
        arms += &format!("{pat} => {e},");
    }
    format!("impl ::serde::ToJson for {n} {{ fn to_json(self) -> ::serde_json::Value {{ match self {{ {arms} }} }} }}")
        .parse()
        .unwrap()
}
