fn main() {
    let lc = "/repo/crates/light-client/src";
    let api = "/repo/crates/ethportal-api/src/types/consensus";
    // Everything but the unit tests.
    extract::write(&format!("{lc}/consensus/consensus_client.rs"), "consensus_client.rs", |_, _| true);
    // Dropped: the deserialisation helper.
    extract::write(&format!("{lc}/consensus/types.rs"), "types.rs", |h, _| !h.contains("fn u64_deserialize"));
    // Dropped: the network access; kept: everything the expected slot is computed from.
    extract::write(&format!("{lc}/consensus/rpc/portal_rpc.rs"), "portal_rpc.rs", |h, _| {
        h.starts_with("pub const") || h.starts_with("const") || h.starts_with("use std") || (h.contains("fn ") && !h.starts_with("impl"))
    });
    // Dropped: reading the configuration from files and the command line.
    extract::write_edited(
        &format!("{lc}/config/client_config.rs"),
        "client_config.rs",
        |h, _| !h.contains("figment") && !h.starts_with("use crate::config"),
        |t| if t.contains("impl Config") { extract::drop_methods(t, &["from_file", "to_base_config"]) } else { t },
    );
    extract::write(&format!("{api}/header.rs"), "header.rs", |h, _| h.contains("struct BeaconBlockHeader"));
    extract::write(&format!("{api}/light_client/store.rs"), "store.rs", |_, _| true);
}
