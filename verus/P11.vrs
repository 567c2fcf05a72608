use vstd::prelude::*;
verus! {
global size_of usize == 8;
broadcast use bits::all;
/// Bit operations in terms of arithmetic.
mod bits {
use vstd::prelude::*;
pub broadcast group all { masked, masked_eq, odd }
pub broadcast proof fn masked(x: usize, i: usize)
    requires i < 64,
    ensures (#[trigger] (x & (1usize << i)) != 0) == ((x >> i) & 1 == 1),
{
    assert(i < 64 ==> ((x & (1usize << i)) != 0) == ((x >> i) & 1 == 1)) by (bit_vector);
}
pub broadcast proof fn masked_eq(x: usize, i: usize)
    requires i < 64,
    ensures (#[trigger] (x & (1usize << i)) == (1usize << i)) == ((x >> i) & 1 == 1),
{
    assert(i < 64 ==> ((x & (1usize << i)) == (1usize << i)) == ((x >> i) & 1 == 1)) by (bit_vector);
}
pub broadcast proof fn odd(x: usize)
    ensures #[trigger] (x & 1) == x % 2,
{
    assert((x & 1) == x % 2) by (bit_vector);
}
}
/// A 32-byte word.
#[derive(Clone, Copy)]
pub struct B256(pub [u8; 32]);
impl B256 {
    pub open spec fn view(&self) -> Seq<u8> {
        self.0@
    }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &[u8])
        ensures r@ == self.view(),
    {
        &self.0
    }
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: B256)
        requires b@.len() == 32,
        ensures r.view() == b@,
    {
        let mut x = [0u8; 32];
        x.copy_from_slice(b);
        B256(x)
    }
}
impl PartialEq for B256 {
    #[verifier::external_body]
    fn eq(&self, o: &B256) -> (r: bool)
    {
        self.0 == o.0
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for B256 {
    open spec fn obeys_eq_spec() -> bool {
        true
    }
    open spec fn eq_spec(&self, o: &B256) -> bool {
        self.view() == o.view()
    }
}
/// Copying bytes into a vector.
pub assume_specification<T>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    where T: Clone
    ensures r@ == s@;
/// An arbitrary hash function with results of 32 bytes.
pub uninterp spec fn digest(b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn hash(b: &[u8]) -> (r: Vec<u8>)
    ensures r@ == digest(b@), r@.len() == 32, forall|x: Seq<u8>, y: Seq<u8>| b@ =~= x + y ==> r@ == #[trigger] digest(x + y),
{
    unimplemented!()
}
#[verifier::external_body]
pub fn hash32_concat(a: &[u8], b: &[u8]) -> (r: [u8; 32])
    ensures r@ == digest(a@ + b@), r@.len() == 32,
{
    unimplemented!()
}
fn must(b: bool)
    requires b,
{
}
macro_rules! assert_eq { ($a:expr, $b:expr $(, $m:expr)* $(,)?) => { must($a == $b) } }
/// The root after the first n nodes of the branch.
pub open spec fn fold(leaf: Seq<u8>, branch: Seq<B256>, index: usize, n: nat) -> Seq<u8>
    decreases n,
{
    if n == 0 {
        leaf
    } else {
        let below = fold(leaf, branch, index, (n - 1) as nat);
        let side = branch[n - 1].view();
        if (index >> ((n - 1) as usize)) & 1 == 1 { digest(side + below) } else { digest(below + side) }
    }
}
//@fn crates/validation/src/merkle/proof.rs merkle_root_from_branch
//@ returns r
//@ spec requires branch@.len() == depth, depth <= 64,
//@ spec ensures r.view() == fold(leaf.view(), branch@, index, depth as nat),
//@ loop 0 invariant
//@ loop 0     at__ <= branch@.len(), branch@.len() == depth, depth <= 64, merkle_root@.len() == 32,
//@ loop 0     merkle_root@ == fold(leaf.view(), branch@, index, at__ as nat),
//@ loop 0 decreases branch@.len() - at__
//@end
//@fn crates/validation/src/merkle/proof.rs verify_merkle_proof
//@ returns r
//@ spec requires depth <= 64,
//@ spec ensures r == (branch@.len() == depth && fold(leaf.view(), branch@, index, depth as nat) == root.view()),
//@end
}
fn main() {}
