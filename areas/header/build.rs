fn main() {
    let api = "/repo/crates/ethportal-api/src/types";
    // The data types; dropped: imports, their SSZ codecs and the proof builders used by the bridge.
    extract::write(&format!("{api}/execution/header_with_proof.rs"), "header_with_proof.rs", |h, _| {
        h.starts_with("pub type") || h.starts_with("pub struct") || h.starts_with("pub enum")
    });
}
