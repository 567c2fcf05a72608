//! `derive(TreeHash)` for plain containers: the root is the Merkle root of the roots of the fields,
//! in declaration order, padded to a power of two with zero chunks.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(TreeHash, attributes(tree_hash))]
pub fn tree_hash(input: TokenStream) -> TokenStream {
    let mut it = input.into_iter();
    let mut name = String::new();
    let mut body = None;
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" => name = it.next().unwrap().to_string(),
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && !name.is_empty() => body = Some(g.stream()),
            _ => {}
        }
    }
    let fields = fields(body.expect("a struct with named fields"));
    let n = fields.len();
    let roots: Vec<String> = fields.iter().map(|f| format!("::tree_hash::TreeHash::tree_hash_root(&self.{f})")).collect();
    format!(
        "impl ::tree_hash::TreeHash for {name} {{
            fn tree_hash_root(&self) -> ::tree_hash::Hash256 {{ ::tree_hash::container::<{n}>([{}]) }}
        }}",
        roots.join(", ")
    )
    .parse()
    .unwrap()
}

fn fields(s: TokenStream) -> Vec<String> {
    let mut out = vec![];
    let (mut last, mut in_type, mut angle) = (String::new(), false, 0i32);
    let mut prev = ' ';
    for t in s {
        match &t {
            TokenTree::Ident(i) if !in_type => last = i.to_string(),
            TokenTree::Punct(p) => {
                match p.as_char() {
                    ':' if !in_type => {
                        out.push(last.clone());
                        in_type = true;
                    }
                    '<' => angle += 1,
                    '>' if prev != '-' => angle -= 1,
                    ',' if in_type && angle == 0 => in_type = false,
                    _ => {}
                }
                prev = p.as_char();
            }
            _ => prev = ' ',
        }
    }
    out
}
