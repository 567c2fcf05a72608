UF = "shims/uf: the hash is an arbitrary function (verifier: keyed family of mixing functions with 64-bit digests; native: truly arbitrary)"
ALLOY = "shims/alloy: B256/U256/Header as plain values; header hash an arbitrary function of the header"
SSZT = "shims/ssz_types: fixed vectors and bounded lists as sequences"
ASYNC = "shims/tokio: locks never contended, futures run to completion"
LOG = "shims/anyhow, shims/tracing: errors opaque, logging without effect"

C["P10"] = dict(
    area="header", level="proof",
    files=["crates/validation/src/header_validator.rs", "crates/validation/src/historical_summaries_provider.rs",
           "crates/validation/src/accumulator.rs", "crates/validation/src/historical_roots_acc.rs",
           "crates/ethportal-api/src/types/consensus/historical_summaries.rs",
           "crates/ethportal-api/src/types/execution/header_with_proof.rs",
           "crates/ethportal-api/src/types/consensus/constants.rs"],
    functions=["HeaderValidator::{validate_header_with_proof,verify_*}", "HistoricalSummariesProvider::get_historical_summary",
               "PreMergeAccumulator::get_epoch_index_of_header", "historical_summary_index"],
    trusted=[RUSTC, ALLOY, SSZT, ASYNC, LOG, "contract of verify_merkle_proof (decided in P11): an arbitrary relation that needs branch length = depth",
             "shims/alloy_hardforks: mainnet activation points",
             "accumulators of the real pre-merge size (three entries unconstrained), 3 historical roots, 1-2 summaries"],
    level_note="Every header, slot and proof; accumulator sizes fixed as listed; uses the contract of branch verification instead of its body.",
    harnesses=[c("p10_pre_merge"), c("p10_roots"), c("p10_capella"), c("p10_deneb"), c("p10_provider"), c("p10_provider_network"), c("p10_provider_silent")])

C["P11"] = dict(
    area="merkle", level="model_checking", verus="verus/P11.vrs",
    technique="contracts on the real functions discharged by Kani/CBMC; root recomputation and proof check for every depth by Verus on the extracted functions",
    files=["crates/validation/src/merkle/proof.rs", "crates/validation/src/merkle/safe_arith.rs"],
    functions=["verify_merkle_proof", "merkle_root_from_branch", "MerkleTree::{create,push_leaf,hash,depth,generate_proof,finalize_deposits,get_finalized_hashes,from_finalized_snapshot}"],
    trusted=[RUSTC, UF, ALLOY, VERUS, "verus/P11.vrs: contracts of hash, hash32_concat, word/slice conversion and slice copying", "shims/ethereum_hashing: hash32_concat and zero hashes over that hash"],
    level_note="Root recomputation and proof check: every leaf, branch, index and depth up to 64 (Verus, an arbitrary hash function). On the file in place: all leaf and branch values at the listed depths and indices; all trees up to depth 2; deeper ones natively.",
    harnesses=[b("p11_branch_0_2", "depths 0..2, every index"), b("p11_branch_3", "depth 3, indices 0..3"), b("p11_branch_3_high", "depth 3, indices 4..7"),
               b("p11_branch_7", "depth 7, index 41"), b("p11_branch_13", "depth 13, one index"), b("p11_branch_15", "depth 15, one index"),
               b("p11_verify", "depths 0..2"), b("p11_depth", "branches of 0..2 nodes"), b("p11_tree_0_1", "depths 0,1"),
               b("p11_tree_2", "depth 2, 3 leaves"), b("p11_tree_2_full", "depth 2, 4 leaves"), b("p11_push_1", "depth 1"),
               b("p11_push_2", "depth 2, 2 leaves"), n("p11_native_branch", "branches of up to 64 nodes, seeded", 20000), n("p11_native", "trees of depth up to 6, seeded", 20000)])
