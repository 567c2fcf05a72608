#!/usr/bin/env python3
"""Source of checks.json: one entry per decided property. Run after editing, then gen_manifest.py."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = {}


def c(name, **k):
    """Full-domain obligation: every input of the stated type, no bound."""
    return dict(name=name, kind="complete", **k)


def b(name, bound, **k):
    """Verifier obligation with a stated input bound."""
    return dict(name=name, kind="bounded", bound=bound, **k)


def n(name, bound, iters, **k):
    """Native bounded stand-in (not proof)."""
    return dict(name=name, kind="native", bound=bound, iters=iters, **k)


HEX = "shims/hex: contract of the hex crate (base-16 text, either case on input)"
FMT = "shims/lightfmt: format! on strings appends the pieces (message texts of other types opaque)"
LOWER = "nd::stub::lower: str::to_lowercase on ASCII text"
MAPS = "shims/vstd: finite-capacity association arrays with the documented std map/set semantics"
VERUS = "bin/verus_layer.py: text extraction without comments, range loops rewritten to while loops; Verus and its standard-library contracts, Z3"
RUSTC = "rustc/Kani translation, CBMC, CaDiCaL or Z3"

C["P01"] = dict(
    area="hexids", level="model_checking",
    files=["crates/ethportal-api/src/utils/bytes.rs"],
    functions=["hex_encode", "hex_encode_upper", "hex_encode_compact", "hex_decode"],
    trusted=[RUSTC, HEX, FMT, LOWER],
    level_note="All byte values and all well-formed UTF-8 texts, at the listed lengths (bounded in length).",
    harnesses=[b("p01_encode_0_3", "lengths 0..3"), b("p01_encode_8", "length 8"), b("p01_encode_32", "length 32"),
               b("p01_roundtrip_0_2", "lengths 0..2"), b("p01_roundtrip_5", "length 5"),
               b("p01_decode_0_3", "texts of 0..3 bytes"), b("p01_decode_4", "texts of 4 bytes"),
               b("p01_decode_5", "texts of 5 bytes"), b("p01_decode_8", "texts of 8 bytes"),
               b("p01_compact_short", "lengths 0,1,7,8"), b("p01_compact_9", "length 9"),
               b("p01_compact_10_16", "lengths 10,16"), b("p01_compact_33", "length 33"),
               n("p01_native_long", "lengths 0..300 and one-character edits, seeded", 20000)])

C["P02"] = dict(
    area="hexids", level="proof",
    files=["crates/ethportal-api/src/utils/bytes.rs"], functions=["random_32byte_array"],
    trusted=[RUSTC, "shims/rand: every value in the documented range is possible, nothing outside it",
             "nd::stub::powi32: powi by repeated multiplication (exact for the powers of two used)"],
    level_note="All 256 counts and every outcome of the random source; the only loops are over the 32 bytes.",
    harnesses=[c("p02_exact")])

C["P03"] = dict(
    area="names", level="model_checking",
    files=["crates/ethportal-api/src/types/client_type.rs"],
    functions=["ClientType::from(&str)", "ClientType::fmt"],
    trusted=[RUSTC, LOWER], level_note="All ASCII texts of the listed lengths (every known name's length and neighbours).",
    harnesses=[b("p03_len_" + x, "texts of %s bytes" % x.replace("_", "..")) for x in
               ("0_3", "4", "5", "6", "7_9", "10", "14", "15")] +
              [c("p03_render_known"), b("p03_render_unknown", "unknown texts of 4 bytes"),
               n("p03_unicode", "seeded compositions of 24 fragments, non-ASCII included", 200000)])

C["P04"] = dict(
    area="names", level="model_checking",
    files=["crates/ethportal-api/src/types/consensus/fork.rs"],
    functions=["ForkName::try_from(ForkDigest)", "as_fork_digest", "as_capitalized_str", "from_str", "fmt", "String::from", "try_from(String)"],
    trusted=[RUSTC, LOWER, HEX, FMT],
    level_note="All 2^32 digests and all forks without bound; names: all ASCII texts of the listed lengths.",
    harnesses=[c("p04_digest"), c("p04_render"), c("p04_string"), b("p04_len_0_4", "texts of 0,1,4 bytes"),
               b("p04_len_5", "5 bytes"), b("p04_len_6_7", "6,7 bytes"), b("p04_len_8_9", "8,9 bytes"), b("p04_len_10", "10 bytes"),
               n("p03_unicode", "seeded compositions of 24 fragments, non-ASCII included", 200000)])

C["P05"] = dict(
    area="params", level="model_checking",
    files=["crates/ethportal-api/src/types/jsonrpc/params.rs"],
    functions=["Value::from(Params)", "derived Serialize/Deserialize of Params"],
    trusted=[RUSTC, "shims/kserde_derive: documented meaning of untagged derive", "shims/kserde_json: JSON value tree"],
    level_note="All integer contents, at the listed shapes; the native run uses the real serde.",
    harnesses=[c("p05_none"), b("p05_array_0", "empty array"), b("p05_array_1", "1 element"), b("p05_array_3", "3 elements"),
               b("p05_map_0", "no entry"), b("p05_map_1", "1 entry"), c("p05_refuse_bool"), c("p05_refuse_num"),
               b("p05_refuse_str", "two texts"), n("p05_native_tree", "seeded JSON trees of depth 3, real serde", 100000)])

C["P06"] = dict(
    area="timer", level="model_checking",
    files=["crates/metrics/src/timer.rs"],
    functions=["DiscardOnDropHistogramTimer::{new,observe_duration,stop_and_record,stop_and_discard,observe,drop}"],
    trusted=[RUSTC, "shims/prometheus_exporter: a histogram records what it is given", "shims/vstd clock: monotone clock under harness control"],
    level_note="Counts for every clock schedule; the recorded value for every whole number of seconds and for listed sub-second spans.",
    harnesses=[b("p06_record", "8 listed spans"), b("p06_observe", "8 listed spans"), b("p06_discard", "8 listed spans"),
               b("p06_any_seconds", "spans of n+1/4 s, all n < 2^32"), c("p06_drop"), c("p06_moving_clock")])

C["P07"] = dict(
    area="arith", level="proof",
    files=["crates/validation/src/merkle/safe_arith.rs"],
    functions=["SafeArith::{safe_add,safe_sub,safe_mul,safe_div,safe_rem,safe_shl,safe_shr and *_assign} for 10 integer types", "SafeArithIter::safe_sum"],
    trusted=[RUSTC, "core's / and % as oracle for quotients", "core's overflowing_mul as oracle for 32/64-bit products"],
    level_note="Full domain of every type; the sum over sequences of up to 4 elements is bounded.",
    harnesses=[c("p07_" + x) for x in ("add_sub_unsigned", "add_sub_signed", "mul_8_16", "mul_32", "mul_64", "mul_size", "shifts",
                                       "div_8_16", "div_32", "div_64", "div_size")] + [b("p07_sum", "sequences of up to 4 elements")])

C["P08"] = dict(
    area="bridge", level="model_checking",
    files=["bin/portal-bridge/src/types/mode.rs"], functions=["BridgeMode::from_str", "ModeType::from_str"],
    trusted=[RUSTC],
    level_note="Verifier: every text after 'snapshot:' of 0, 1 or 3 bytes. The rest is a bounded native stand-in (string searching is out of the verifier's reach).",
    harnesses=[b("p08_snapshot_0_1", "0..1 bytes after the prefix"), b("p08_snapshot_3", "3 bytes after the prefix"),
               n("p08_exhaustive", "all texts of up to 5 symbols over a 9-symbol alphabet after 6 prefixes", 1),
               n("p08_edits", "all one-character edits of 18 arguments", 1),
               n("p08_numbers", "seeded numbers", 200000)])

C["P09"] = dict(
    area="bridge", level="proof", verus="verus/P09.vrs",
    technique="contract on the extracted function discharged by Verus for every range; bounded obligations by Kani/CBMC on the file in place",
    files=["bin/portal-bridge/src/types/range.rs", "crates/ethportal-api/src/types/consensus/constants.rs"],
    functions=["block_range_to_epochs"], trusted=[RUSTC, MAPS, VERUS],
    level_note="Every range of 64-bit blocks, with a loop invariant (Verus). The same contract on the unextracted file for ranges touching at most 3 epochs (Kani), which decides alone when the function no longer has the annotated form.",
    harnesses=[b("range_partition", "ranges touching at most 3 epochs"), c("range_backwards"),
               n("range_long", "ranges of up to 64 epochs, some of up to 300000, seeded", 2000)])

if __name__ == "__main__":
    import glob
    for f in sorted(glob.glob(os.path.join(V, "tools", "checks.d", "*.py"))):
        exec(open(f).read(), globals())
    json.dump(C, open(os.path.join(V, "checks.json"), "w"), indent=1, sort_keys=True)
    print(len(C), "checks")
