fn main() {
    // Everything but the unit tests.
    extract::write("/repo/crates/subnetworks/state/src/validation/trie.rs", "trie.rs", |_, _| true);
    extract::write("/repo/crates/subnetworks/state/src/validation/validator.rs", "validator.rs", |_, _| true);
    // The traversal of one node is left out: the obligations of the area "trie" are about it, and
    // here any traversal function takes its place.
    extract::write("/repo/crates/ethportal-api/src/types/state_trie/trie_traversal.rs", "trie_traversal.rs", |head, _| {
        !head.starts_with("impl NodeTraversal for Node")
    });
}
