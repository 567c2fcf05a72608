//! `derive(Encode, Decode)`: containers, transparent structs, union and transparent enums.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Type};

fn behaviour(d: &DeriveInput) -> (bool, bool) {
    let (mut transparent, mut union) = (false, false);
    for a in &d.attrs {
        if a.path().is_ident("ssz") {
            let s = quote!(#a).to_string();
            transparent |= s.contains("transparent");
            union |= s.contains("union");
        }
    }
    (transparent, union)
}
struct F {
    acc: proc_macro2::TokenStream,
    ty: Type,
    with: Option<proc_macro2::TokenStream>,
}
fn fields(f: &Fields) -> Vec<F> {
    f.iter()
        .enumerate()
        .map(|(i, f)| {
            let mut with = None;
            for a in &f.attrs {
                if a.path().is_ident("ssz") {
                    let s = quote!(#a).to_string();
                    if let Some(p) = s.find("with = \"") {
                        let r = &s[p + 8..];
                        let r = &r[..r.find('"').unwrap()];
                        with = Some(r.parse().unwrap());
                    }
                }
            }
            let acc = match &f.ident {
                Some(n) => quote!(#n),
                None => {
                    let i = syn::Index::from(i);
                    quote!(#i)
                }
            };
            F { acc, ty: f.ty.clone(), with }
        })
        .collect()
}

#[proc_macro_derive(Encode, attributes(ssz))]
pub fn encode(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (transparent, union) = behaviour(&d);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let body = match &d.data {
        Data::Struct(s) => {
            let fs = fields(&s.fields);
            if transparent {
                let F { acc, ty, .. } = &fs[0];
                quote! {
                    fn is_ssz_fixed_len() -> bool { <#ty as ssz::Encode>::is_ssz_fixed_len() }
                    fn ssz_fixed_len() -> usize { <#ty as ssz::Encode>::ssz_fixed_len() }
                    fn ssz_bytes_len(&self) -> usize { ssz::Encode::ssz_bytes_len(&self.#acc) }
                    fn ssz_append(&self, buf: &mut Vec<u8>) { ssz::Encode::ssz_append(&self.#acc, buf) }
                }
            } else {
                let fixed = fs.iter().map(|F { ty, with, .. }| match with {
                    Some(m) => quote!(#m::encode::is_ssz_fixed_len()),
                    None => quote!(<#ty as ssz::Encode>::is_ssz_fixed_len()),
                });
                let flen: Vec<_> = fs.iter().map(|F { ty, with, .. }| match with {
                    Some(m) => quote!(#m::encode::ssz_fixed_len()),
                    None => quote!(<#ty as ssz::Encode>::ssz_fixed_len()),
                }).collect();
                let blen = fs.iter().map(|F { acc, with, ty }| match with {
                    Some(m) => quote!(if #m::encode::is_ssz_fixed_len() { #m::encode::ssz_fixed_len() } else { 4 + #m::encode::ssz_bytes_len(&self.#acc) }),
                    None => quote!(if <#ty as ssz::Encode>::is_ssz_fixed_len() { <#ty as ssz::Encode>::ssz_fixed_len() } else { 4 + ssz::Encode::ssz_bytes_len(&self.#acc) }),
                });
                let plain = fs.iter().map(|F { acc, with, .. }| match with {
                    Some(m) => quote!(#m::encode::ssz_append(&self.#acc, buf);),
                    None => quote!(ssz::Encode::ssz_append(&self.#acc, buf);),
                });
                let app = fs.iter().map(|F { acc, with, .. }| match with {
                    Some(m) => quote!(e.append_parameterized(#m::encode::is_ssz_fixed_len(), |b| #m::encode::ssz_append(&self.#acc, b));),
                    None => quote!(e.append(&self.#acc);),
                });
                quote! {
                    fn is_ssz_fixed_len() -> bool { true #(&& #fixed)* }
                    fn ssz_fixed_len() -> usize {
                        if <Self as ssz::Encode>::is_ssz_fixed_len() { 0 #(+ #flen)* } else { 4 }
                    }
                    fn ssz_bytes_len(&self) -> usize { 0 #(+ #blen)* }
                    fn ssz_append(&self, buf: &mut Vec<u8>) {
                        if <Self as ssz::Encode>::is_ssz_fixed_len() {
                            #(#plain)*
                            return;
                        }
                        let mut e = ssz::SszEncoder::container(buf, 0 #(+ #flen)*);
                        #(#app)*
                        e.finalize();
                    }
                }
            }
        }
        Data::Enum(en) => {
            let arms_len = en.variants.iter().map(|v| { let n = &v.ident; quote!(Self::#n(x) => ssz::Encode::ssz_bytes_len(x),) });
            let arms = en.variants.iter().enumerate().map(|(i, v)| {
                let n = &v.ident;
                let i = i as u8;
                if union { quote!(Self::#n(x) => { buf.push(#i); ssz::Encode::ssz_append(x, buf) }) } else { quote!(Self::#n(x) => ssz::Encode::ssz_append(x, buf),) }
            });
            let extra = if union { 1usize } else { 0 };
            quote! {
                fn is_ssz_fixed_len() -> bool { false }
                fn ssz_bytes_len(&self) -> usize { #extra + match self { #(#arms_len)* } }
                fn ssz_append(&self, buf: &mut Vec<u8>) { match self { #(#arms)* } }
            }
        }
        _ => panic!("union"),
    };
    quote!(impl #ig ssz::Encode for #name #tg #wc { #body }).into()
}

#[proc_macro_derive(Decode, attributes(ssz))]
pub fn decode(input: TokenStream) -> TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let (transparent, union) = behaviour(&d);
    let name = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let body = match &d.data {
        Data::Struct(s) => {
            let fs = fields(&s.fields);
            if transparent {
                let F { acc, ty, .. } = &fs[0];
                quote! {
                    fn is_ssz_fixed_len() -> bool { <#ty as ssz::Decode>::is_ssz_fixed_len() }
                    fn ssz_fixed_len() -> usize { <#ty as ssz::Decode>::ssz_fixed_len() }
                    fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
                        Ok(Self { #acc: <#ty as ssz::Decode>::from_ssz_bytes(b)? })
                    }
                }
            } else {
                let fixed = fs.iter().map(|F { ty, with, .. }| match with {
                    Some(m) => quote!(#m::decode::is_ssz_fixed_len()),
                    None => quote!(<#ty as ssz::Decode>::is_ssz_fixed_len()),
                });
                let flen = fs.iter().map(|F { ty, with, .. }| match with {
                    Some(m) => quote!(#m::decode::ssz_fixed_len()),
                    None => quote!(<#ty as ssz::Decode>::ssz_fixed_len()),
                });
                let reg = fs.iter().map(|F { ty, with, .. }| match with {
                    Some(m) => quote!(d.register_type_parameterized(#m::decode::is_ssz_fixed_len(), #m::decode::ssz_fixed_len())?;),
                    None => quote!(d.register_type::<#ty>()?;),
                });
                let direct = fs.iter().map(|F { acc, with, ty }| match with {
                    Some(m) => quote!(#acc: { let n = #m::decode::ssz_fixed_len(); at += n; #m::decode::from_ssz_bytes(&b[at - n..at])? },),
                    None => quote!(#acc: { let n = <#ty as ssz::Decode>::ssz_fixed_len(); at += n; <#ty as ssz::Decode>::from_ssz_bytes(&b[at - n..at])? },),
                });
                let dec = fs.iter().map(|F { acc, with, .. }| match with {
                    Some(m) => quote!(#acc: d.decode_next_with(#m::decode::from_ssz_bytes)?,),
                    None => quote!(#acc: d.decode_next()?,),
                });
                quote! {
                    fn is_ssz_fixed_len() -> bool { true #(&& #fixed)* }
                    fn ssz_fixed_len() -> usize {
                        if <Self as ssz::Decode>::is_ssz_fixed_len() { 0 #(+ #flen)* } else { 4 }
                    }
                    fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
                        if <Self as ssz::Decode>::is_ssz_fixed_len() {
                            let n = <Self as ssz::Decode>::ssz_fixed_len();
                            if b.len() != n {
                                return Err(ssz::DecodeError::InvalidByteLength { len: b.len(), expected: n });
                            }
                            let mut at = 0;
                            let r = Self { #(#direct)* };
                            let _ = at;
                            return Ok(r);
                        }
                        let mut d = ssz::SszDecoderBuilder::new(b);
                        #(#reg)*
                        let mut d = d.build()?;
                        Ok(Self { #(#dec)* })
                    }
                }
            }
        }
        Data::Enum(en) => {
            let tys: Vec<_> = en.variants.iter().map(|v| (&v.ident, v.fields.iter().next().map(|f| f.ty.clone()))).collect();
            if union {
                let arms = tys.iter().enumerate().map(|(i, (n, t))| { let i = i as u8; quote!(#i => <#t as ssz::Decode>::from_ssz_bytes(body).map(Self::#n),) });
                quote! {
                    fn is_ssz_fixed_len() -> bool { false }
                    fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
                        let (s, body) = ssz::split_union_bytes(b)?;
                        match u8::from(s) { #(#arms)* x => Err(ssz::DecodeError::UnionSelectorInvalid(x)) }
                    }
                }
            } else {
                let tries = tys.iter().map(|(n, t)| quote!(if let Ok(x) = <#t as ssz::Decode>::from_ssz_bytes(b) { return Ok(Self::#n(x)); }));
                quote! {
                    fn is_ssz_fixed_len() -> bool { false }
                    fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
                        #(#tries)*
                        Err(ssz::DecodeError::NoMatchingVariant)
                    }
                }
            }
        }
        _ => panic!("union"),
    };
    quote!(impl #ig ssz::Decode for #name #tg #wc { #body }).into()
}
