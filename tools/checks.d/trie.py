ST_ = "crates/subnetworks/state/src/validation/"
SAPI = "crates/ethportal-api/src/types/state_trie/"
C["P26"] = dict(
    area="trie", level="model_checking",
    files=[ST_+"trie.rs", ST_+"validator.rs", ST_+"error.rs", SAPI+"trie_traversal.rs", SAPI+"nibbles.rs"],
    functions=["Node::traverse", "validate_node_trie_proof", "validate_account_state", "validate_trie_proof", "check_node_hash", "check_traversal_result_is_node", "check_traversal_result_is_value",
               "StateValidator::{validate_content,validate_account_trie_node,validate_contract_storage_trie_node,validate_contract_bytecode}", "Nibbles::{try_from_unpacked_nibbles,nibbles,unpack_nibbles}"],
    trusted=[RUSTC, "areas/trie: decoded nodes as the trie crate defines them (leaf, extension, branch, reference by hash; leaf keys end in 16)",
             "areas/trie, areas/proofs: decoding of nodes, accounts and content values given; node hashes arbitrary; code hash by shims/uf",
             "shims/tokio, shims/tracing: one poll, log lines without effect"],
    level_note="Three modular layers: one node of each sort along paths of up to 3 digits; chains of up to 4 nodes over any traversal function; the validator over the contracts of the two proof checks. All layers together natively.",
    harnesses=[b(x, y) for x, y in (
                   ("p26_leaf", "keys and paths of up to 3 digits"), ("p26_extension", "keys of up to 2 digits"),
                   ("p26_branch", "paths of one digit"), ("p26_branch_upper", "paths of one digit"), ("p26_branch_3", "paths of up to 3 digits"), ("p26_branch_inline", "branch stored in a branch"))] +
              [b(x, y, area="proofs") for x, y in (
                   ("p26_chain_none", "no node"), ("p26_chain_one", "one node"), ("p26_chain_two", "2 nodes"), ("p26_chain_three", "3 nodes"), ("p26_chain_four", "4 nodes"),
                   ("p26_chain_account", "1 and 2 nodes, 64 digits"), ("p26_chain_account_3", "3 nodes, 64 digits"),
                   ("p26_valid_node", "one node"), ("p26_valid_account", "any answers of the proof checks"), ("p26_valid_storage", "any answers of the proof checks"), ("p26_valid_code", "code of 5 bytes"),
                   ("p26_valid_code_proof", "code of 5 bytes"), ("p26_valid_mixed", "values of another kind"), ("p26_valid_mixed_2", "values of another kind"))] +
              [n("p26_native", "up to 5 nodes, paths of up to 8 digits, seeded", 60000), n("p26_extension_branch", "branch stored in an extension, seeded", 20000), n("p26_native_account", "two nodes, 64 digits, seeded", 30000), n("p26_native_content", "every pair of key and value kind, seeded", 30000)])
