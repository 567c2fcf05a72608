C["P15"] = dict(
    area="metric", level="proof",
    files=["crates/ethportal-api/src/types/distance.rs"],
    functions=["XorMetric::distance", "Distance::{log2,big_endian,big_endian_u32,from,deref,cmp}"],
    trusted=[RUSTC, "shims/alloy U256: 256-bit unsigned integers"],
    level_note="All pairs and triples of 32-byte keys; the only loop is over the 32 bytes.",
    harnesses=[c("p15_value"), c("p15_order"), c("p15_metric"), c("p15_log"), c("p15_convert")])
