T="crates/ethportal-api/src/types/"
C["P16"] = dict(
    area="keys", level="model_checking",
    files=[T+"content_key/legacy_history.rs", T+"content_key/history.rs", T+"content_key/state.rs", T+"content_key/beacon.rs", T+"content_key/content_id.rs",
           T+"content_key/overlay.rs", T+"content_key/error.rs", T+"state_trie/nibbles.rs"],
    functions=["{LegacyHistory,History,State,Beacon,Identity}ContentKey::{to_bytes,try_from_bytes,content_id,affected_by_radius}", "range_content_id",
               "Nibbles::{try_from_unpacked_nibbles,nibbles,ssz_append,ssz_bytes_len,from_ssz_bytes}"],
    trusted=[RUSTC, ALLOY, SSZT, UF, "shims/bytes: byte buffers over plain vectors", "shims/anyhow, error texts: opaque"],
    level_note="Fixed-size key kinds: every key, every byte string of the listed lengths. Ids by number: proved for all numbers and kinds. State keys are verified against the contract of packed paths, which the path harnesses decide at the listed lengths.",
    harnesses=[b("p16_legacy_33", "33 bytes"), b("p16_legacy_9", "9 bytes"), b("p16_legacy_34", "34 bytes"), b("p16_legacy_other", "0,1,8,10,32,35 bytes"),
               b("p16_beacon_9_17", "9,17 bytes"), b("p16_beacon_33", "33 bytes"), b("p16_beacon_other", "0,1,8,10,16,18,34 bytes"), b("p16_history", "0,1,8,9,10 bytes"),
               c("p16_history_roundtrip"), c("p16_range_id"), c("p16_legacy_roundtrip_a"), c("p16_legacy_roundtrip_b"), c("p16_beacon_roundtrip"),
               b("p16_account", "paths of 1,3 bytes"), b("p16_storage", "paths of 1,2 bytes"), c("p16_bytecode"),
               b("p16_state_account", "38,40 bytes"), b("p16_state_storage", "70,71 bytes"), b("p16_state_any", "65 bytes"), b("p16_state_39", "39 bytes"),
               b("p16_state_short", "0,1,4,37,64,66,69 bytes"), b("p16_path_any", "packed paths of 0..2 bytes"), b("p16_path_even", "even paths packed in 3,32,33,34 bytes"),
               b("p16_path_odd", "odd paths packed in 4,32,33 bytes"), b("p16_path_encode", "paths of 0,1,2,7 digits"), b("p16_path_encode_64", "64 digits"),
               b("p16_path_encode_63", "63,65 digits"), b("p16_identity", "0,31,32,33 bytes"), n("p16_native", "byte strings of up to 110 bytes, seeded", 40000)])
