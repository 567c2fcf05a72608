LC = "crates/light-client/src/"
LCT = [RUSTC, "areas/light: BLS as an arbitrary relation between message, signing keys (in order) and signature; committee keys well formed; committees of 4 represented keys under the verifier (512 natively)",
       "shims/tree_hash, shims/tree_hash_derive_full: containers merkleise the roots of their fields in declaration order; hash by shims/uf (arbitrary mixing)",
       "areas/light: light-client messages carry the listed fields (execution parts left out); subscribers only counted; chrono durations in whole seconds",
       "areas/light/build.rs: the light client file without its unit tests; configuration reading and network access left out"]
C["P12"] = dict(
    area="light", level="model_checking",
    files=[LC+"consensus/consensus_client.rs", LC+"consensus/utils.rs", LC+"consensus/types.rs", LC+"utils.rs", LC+"config/client_config.rs", LC+"consensus/rpc/portal_rpc.rs",
           "crates/validation/src/merkle/proof.rs", "crates/ethportal-api/src/types/consensus/header.rs"],
    functions=["verify_generic_update", "ConsensusLightClient::{verify_update,verify_finality_update,verify_optimistic_update,bootstrap,is_valid_checkpoint}", "GenericUpdate::from (3)", "get_bits", "get_participating_keys",
               "verify_sync_committee_signature", "compute_committee_sign_root", "is_proof_valid", "is_finality_proof_valid", "is_next_committee_proof_valid", "is_current_committee_proof_valid", "is_aggregate_valid",
               "compute_signing_root", "compute_domain", "compute_fork_data_root", "calc_sync_period", "Config::fork_version", "expected_current_slot", "merkle_root_from_branch", "bounded: ConsensusLightClient::{sync,advance}"],
    trusted=LCT,
    level_note="Arbitrary slots below 2^40, headers, proofs, keys, fork schedules and signatures; the clock and which members take part are fixed per obligation. Whole rounds with a server and other participation are judged natively.",
    harnesses=[b("p12_full_known", "2 participants, next committee known"), b("p12_full_unknown", "2 participants, next committee unknown"), b("p12_finality_known", "1 participant"), b("p12_finality_unknown", "1 participant"),
               b("p12_optimistic_known", "3 participants"), b("p12_optimistic_unknown", "1 participant"), b("p12_start", "one checkpoint"),
               n("p12_native", "0..512 participants, slots around period and fork boundaries, seeded", 30000), n("p12_rounds", "up to 4 updates from a server, seeded", 20000)])
C["P13"] = dict(
    area="light", level="model_checking",
    files=[LC+"consensus/consensus_client.rs", LC+"consensus/types.rs", LC+"consensus/utils.rs", "crates/ethportal-api/src/types/consensus/light_client/store.rs"],
    functions=["ConsensusLightClient::{apply_generic_update,apply_update,apply_finality_update,apply_optimistic_update,has_finality_update,has_sync_update,safety_threshold,age,slot_timestamp}", "GenericUpdate::from (3)", "get_bits", "calc_sync_period",
               "bounded: ConsensusLightClient::{sync,advance}"],
    trusted=LCT + ["precondition: the conditions a verified update satisfies (decided in P12) and the store invariant, which each step is shown to preserve"],
    level_note="One step from any store satisfying the invariant, so histories of any length follow by induction; participation counts fixed per obligation around the two-thirds boundary.",
    harnesses=[b("p13_full_known", "342 of 512 participants"), b("p13_full_unknown", "342 participants"), b("p13_full_minority", "341 participants"), b("p13_full_minority_unknown", "341 participants"),
               b("p13_finality_known", "512 participants"), b("p13_finality_unknown", "342 participants"), b("p13_finality_minority", "200 participants"), b("p13_optimistic", "100 participants"), b("p13_optimistic_all", "512 participants"),
               n("p13_native", "histories of 6 updates, seeded", 30000), n("p13_rounds", "up to 4 updates from a server, seeded", 20000)])
