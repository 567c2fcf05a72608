C["P14"] = dict(
    area="head", level="proof",
    files=["crates/validation/src/chain_head/mod.rs", "crates/validation/src/chain_head/store.rs",
           "crates/ethportal-api/src/types/consensus/historical_summaries.rs", "crates/ethportal-api/src/types/consensus/constants.rs"],
    functions=["ChainHead::{new_pectra_defaults,latest_beacon_header,finalized_beacon_header,historical_summary,process_update,process_optimistic_update,process_finality_update,update_historical_summaries}",
               "ChainHeadStore::*", "historical_summary_index"],
    trusted=[RUSTC, "light-client update types reduced to slot and identity of the two headers they carry", "shims/ssz, ssz_types: SSZ lists",
             "parking_lot::RwLock used by one thread", "lists of 1-3 summaries stand for all lengths (only the comparison of lengths and the index matter)"],
    level_note="Induction over updates: every state is reached by one finality update from arbitrary embedded headers, then one arbitrary step. Summary lists of 1..3 entries.",
    harnesses=[c("p14_update"), c("p14_optimistic"), c("p14_finality"), c("p14_other"),
               b("p14_summaries_shorter", "1 new against 2 known"), b("p14_summaries_same", "2 against 2"), b("p14_summaries_longer", "3 against 2")])
