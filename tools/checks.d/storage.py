S = "crates/storage/src/versioned/"
C["P19"] = dict(
    area="storage", level="model_checking",
    files=["crates/storage/src/config.rs", S+"usage_stats.rs", S+"store.rs", S+"id_indexed_v1/config.rs", S+"id_indexed_v1/pruning_strategy.rs", S+"id_indexed_v1/sql.rs", S+"id_indexed_v1/store.rs"],
    functions=["UsageStats::{new,on_store,on_delete,is_above,average_content_size_bytes,estimated_full_content_count}", "PruningStrategy::{new,should_prune,should_delete_all,get_pruning_count,on_pruning_finished}",
               "StorageCapacityConfig::into", "bounded: IdIndexedV1Store::{create,init,insert,delete,prune,lookup_farthest,has_content,lookup_content_key,lookup_content_value,paginate}"],
    trusted=[RUSTC, MAPS, "areas/storage/src/db.rs: the statements used, run on in-memory tables (native runs only)"],
    level_note="Counters, limits and capacities by the verifier at the listed widths; the store itself only natively, against tables in memory (bounded).",
    harnesses=[b("p19_usage", "capacities 500 and 750, 24-bit counts and sizes"), c("p19_ask_zero"), b("p19_ask_million", "capacity 1000000, 6-bit counts, 22-bit sizes"),
               b("p19_ask_small", "capacity 3, 8-bit counts and sizes"), b("p19_adapt", "eight rounds, changes by a fifth"), b("p19_adapt_far", "seven rounds, changes by three fifths"), c("p19_combined_two"), c("p19_combined_one"), c("p19_specific"),
               n("p19_native_ask", "seeded capacities, counts, sizes and times", 200000), n("p19_native_store", "seeded runs of the store on in-memory tables", 2000)])
