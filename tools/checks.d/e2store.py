C["P25"] = dict(
    area="e2store", level="model_checking",
    files=["crates/e2store/src/e2store/types.rs", "crates/e2store/src/e2store/memory.rs", "crates/e2store/src/e2store/stream.rs", "crates/e2store/src/entry_types.rs"],
    functions=["Entry::{new,length,serialize,write,deserialize}", "Header::{write,deserialize}", "VersionEntry::try_from", "E2StoreMemory::{serialize,write,length,deserialize}",
               "E2StoreStreamReader::next_entry and E2StoreStreamWriter::append_entry (native stand-in only)"],
    trusted=[RUSTC, "shims/anyhow: errors opaque"],
    level_note="All contents at the listed lengths; the streaming interface natively.",
    harnesses=[b("p25_roundtrip_0_1", "values of 0,1 bytes"), b("p25_roundtrip_5", "5 bytes"), b("p25_roundtrip_33", "33 bytes"),
               b("p25_decode_0_7", "inputs of 0,1,6,7 bytes"), b("p25_decode_8_9", "8,9 bytes"), b("p25_decode_13", "13 bytes"), b("p25_decode_40", "40 bytes"),
               b("p25_buffer", "values of 0,2 bytes"), b("p25_memory_0_8", "sequences of 0,5,8 bytes"), b("p25_memory_16", "sequences of 16 bytes"),
               b("p25_memory_roundtrip", "entries of 1 and 2 bytes"), b("p25_version", "values of 0..1 bytes"),
               n("p25_native", "files of up to 5 entries of up to 5000 bytes, cut and corrupted, seeded", 20000)])
