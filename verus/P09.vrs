use std::collections::HashMap;
use vstd::prelude::*;
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, bits::all};
/// Bit operations in terms of arithmetic.
mod bits {
use vstd::prelude::*;
pub broadcast group all { shift_right, shift_left, low_bits }
pub broadcast proof fn shift_right(x: u64)
    ensures #[trigger] (x >> 13) == x / 8192,
{
    assert((x >> 13) == x / 8192) by (bit_vector);
}
pub broadcast proof fn shift_left(x: u64)
    requires x <= 0xffff_ffff_ffff_ffffu64 / 8192,
    ensures #[trigger] (x << 13) == x * 8192,
{
    assert(x <= 0xffff_ffff_ffff_ffffu64 / 8192 ==> (x << 13) == x * 8192) by (bit_vector);
}
pub broadcast proof fn low_bits(x: u64)
    ensures #[trigger] (x & 8191) == x % 8192, #[trigger] (x | 8191) == (x / 8192) * 8192 + 8191,
{
    assert((x & 8191) == x % 8192) by (bit_vector);
    assert((x | 8191) == (x / 8192) * 8192 + 8191) by (bit_vector);
}
}
//@const crates/ethportal-api/src/types/consensus/constants.rs SLOTS_PER_HISTORICAL_ROOT
/// The part of epoch k within blocks s..=e: none when it is the whole epoch.
pub open spec fn part(s: int, e: int, k: int) -> Option<(u64, u64)> {
    if k * 8192 >= s && k * 8192 + 8191 <= e {
        None
    } else {
        Some((if s > k * 8192 { s as u64 } else { (k * 8192) as u64 }, if e < k * 8192 + 8191 { e as u64 } else { (k * 8192 + 8191) as u64 }))
    }
}
//@fn bin/portal-bridge/src/types/range.rs block_range_to_epochs
//@ returns r
//@ spec ensures
//@ spec     forall|k: u64| #[trigger] r@.contains_key(k) <==> start_block / 8192 <= k <= end_block / 8192,
//@ spec     forall|k: u64| #[trigger] r@.contains_key(k) ==> r@[k] == part(start_block as int, end_block as int, k as int),
//@ loop 0 invariant
//@ loop 0     from__ == start_block / 8192, to__ == end_block / 8192, from__ <= at__,
//@ loop 0     more__ ==> at__ <= to__, !more__ ==> from__ > to__ || at__ == to__,
//@ loop 0     vstd::std_specs::hash::obeys_key_model::<u64>(),
//@ loop 0     forall|k: u64| #[trigger] $result@.contains_key(k) <==> from__ <= k <= to__ && (k < at__ || !more__),
//@ loop 0     forall|k: u64| #[trigger] $result@.contains_key(k) ==> $result@[k] == part(start_block as int, end_block as int, k as int),
//@ loop 0 decreases to__ - at__, more__ as int
//@end
}
fn main() {}
