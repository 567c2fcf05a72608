fn main() {
    // Everything but the unit tests.
    extract::write("/repo/crates/subnetworks/state/src/validation/trie.rs", "trie.rs", |_, _| true);
    extract::write("/repo/crates/subnetworks/state/src/validation/validator.rs", "validator.rs", |_, _| true);
}
