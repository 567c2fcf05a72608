//! `derive(TreeHash)` expands to nothing: hash tree roots enter only through `tree_hash::TreeHash`
//! implementations an area gives itself.
use proc_macro::TokenStream;
#[proc_macro_derive(TreeHash, attributes(tree_hash))]
pub fn tree_hash(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
