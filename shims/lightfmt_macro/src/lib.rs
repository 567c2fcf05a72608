//! `format!` without `core::fmt`: the template is split at compile time and each piece is appended
//! to a `String` through `::lightfmt::Show`. Width/precision/flags are dropped except `:?`, `:x`,
//! `:X`, `:02x`, `:#x` which select the matching rendering.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

#[proc_macro]
pub fn format_light(input: TokenStream) -> TokenStream {
    expand(input)
}

fn split_args(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![vec![]];
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                out.push(vec![]);
                continue;
            }
        }
        out.last_mut().unwrap().push(t);
    }
    if out.last().map(|v| v.is_empty()).unwrap_or(false) {
        out.pop();
    }
    out
}

fn unescape(lit: &str) -> Option<String> {
    let inner = lit.strip_prefix('"')?.strip_suffix('"')?;
    let mut out = String::new();
    let mut it = inner.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next()? {
            'n' => out.push('\n'),
            't' => out.push('\t'),
            'r' => out.push('\r'),
            '\\' => out.push('\\'),
            '"' => out.push('"'),
            '\'' => out.push('\''),
            '0' => out.push('\0'),
            '\n' => {
                while matches!(it.peek(), Some(c) if c.is_whitespace()) {
                    it.next();
                }
            }
            _ => return None,
        }
    }
    Some(out)
}

fn expand(input: TokenStream) -> TokenStream {
    let args = split_args(input.clone());
    let fallback = || -> TokenStream {
        let mut ts: TokenStream = "::core::prelude::v1::stringify".parse().unwrap();
        let _ = &mut ts;
        // Not a plain template: use the real macro.
        let mut t: TokenStream = "::std::format!".parse().unwrap();
        t.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, input.clone()))]);
        t
    };
    let Some(first) = args.first() else { return fallback() };
    if first.len() != 1 {
        return fallback();
    }
    let TokenTree::Literal(l) = &first[0] else { return fallback() };
    let Some(tpl) = unescape(&l.to_string()) else { return fallback() };
    let mut positional: Vec<Vec<TokenTree>> = vec![];
    let mut named: Vec<(String, Vec<TokenTree>)> = vec![];
    for a in &args[1..] {
        if a.len() > 2 {
            if let (TokenTree::Ident(i), TokenTree::Punct(p)) = (&a[0], &a[1]) {
                if p.as_char() == '=' && p.spacing() == Spacing::Alone {
                    named.push((i.to_string(), a[2..].to_vec()));
                    continue;
                }
            }
        }
        positional.push(a.clone());
    }
    let mut body = TokenStream::new();
    let mut lit = String::new();
    let mut next_pos = 0usize;
    let push_lit = |body: &mut TokenStream, lit: &mut String| {
        if lit.is_empty() {
            return;
        }
        body.extend("__s.push_str".parse::<TokenStream>().unwrap());
        body.extend([
            TokenTree::Group(Group::new(
                Delimiter::Parenthesis,
                TokenTree::Literal(Literal::string(lit)).into(),
            )),
            TokenTree::Punct(Punct::new(';', Spacing::Alone)),
        ]);
        lit.clear();
    };
    let mut it = tpl.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                lit.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                lit.push('}');
            }
            '{' => {
                let mut spec = String::new();
                for d in it.by_ref() {
                    if d == '}' {
                        break;
                    }
                    spec.push(d);
                }
                let (name, fmt) = match spec.split_once(':') {
                    Some((a, b)) => (a.trim().to_string(), b.to_string()),
                    None => (spec.trim().to_string(), String::new()),
                };
                let method = match fmt.as_str() {
                    "?" | "#?" => "show_debug",
                    "x" => "show_x",
                    "#x" => "show_hx",
                    "02x" => "show_02x",
                    "" => "show",
                    _ => return fallback(),
                };
                let arg: TokenStream = if name.is_empty() {
                    let Some(a) = positional.get(next_pos) else { return fallback() };
                    next_pos += 1;
                    a.iter().cloned().collect()
                } else if let Ok(n) = name.parse::<usize>() {
                    let Some(a) = positional.get(n) else { return fallback() };
                    a.iter().cloned().collect()
                } else if let Some((_, a)) = named.iter().find(|(n, _)| *n == name) {
                    a.iter().cloned().collect()
                } else {
                    TokenTree::Ident(Ident::new(&name, l.span())).into()
                };
                push_lit(&mut body, &mut lit);
                // { #[allow(unused_imports)] use ::lightfmt::*; (&::lightfmt::W(&(arg))).show(&mut __s); }
                let mut inner: TokenStream =
                    "#[allow(unused_imports)] use ::lightfmt::{Slow as _, Show as _, ShowHex as _};".parse().unwrap();
                let mut w: TokenStream = "&::lightfmt::W".parse().unwrap();
                let mut amp: TokenStream = "&".parse().unwrap();
                amp.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, arg))]);
                w.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, amp))]);
                inner.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, w))]);
                inner.extend(std::format!(".{method}(&mut __s);").parse::<TokenStream>().unwrap());
                body.extend([TokenTree::Group(Group::new(Delimiter::Brace, inner))]);
            }
            c => lit.push(c),
        }
    }
    push_lit(&mut body, &mut lit);
    let mut out: TokenStream = "let mut __s = ::lightfmt::String::new();".parse().unwrap();
    out.extend(body);
    out.extend("__s".parse::<TokenStream>().unwrap());
    let _ = Span::call_site();
    TokenTree::Group(Group::new(Delimiter::Brace, out)).into()
}
