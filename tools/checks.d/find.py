FI = "crates/portalnet/src/find/"
FIND_TRUST = [RUSTC, "areas/find: keys by their place in the order of distance; ordered maps with one slot per distance (the documented map semantics)",
              "areas/find: clock in whole seconds under the verifier; channel of crossbeam as a queue"]
C["P21"] = dict(
    area="find", level="model_checking",
    files=[FI+"iterators/findnodes.rs", FI+"iterators/query.rs", FI+"query_pool.rs"],
    functions=["FindNodeQuery::{with_config,poll,on_success,on_failure,into_result,at_capacity}", "QueryPeer::*", "QueryPool::{new,add_query,get_mut,poll}"],
    trusted=FIND_TRUST,
    level_note="Histories of the listed steps with every choice of answering peer, answer, failure and passing of time; up to 4 peers. Long histories natively.",
    harnesses=[b("p21_fates", "2 candidates, every fate, then one step and the result"), b("p21_learn", "3 peers, any answer naming up to 2, then two steps"),
               b("p21_learn_4", "4 peers, every fate, any answer"), b("p21_serial", "4 peers, one request at a time, two answers"),
               b("p21_stall", "4 candidates, answers naming nobody"), b("p21_one", "3 peers, one result wanted, two answers"), b("p21_one_result", "3 peers, one result wanted"),
               b("p21_pool", "pools of 0 and 1 lookups"), b("p21_pool_2", "pools of 2 lookups"),
               n("p21_native", "3 to 40 peers, up to 200 events, seeded", 40000)])
C["P22"] = dict(
    area="find", level="model_checking",
    files=[FI+"iterators/findcontent.rs", FI+"iterators/query.rs"],
    functions=["FindContentQuery::{with_config,poll,on_success,on_failure,into_result,pending_validation_result,at_capacity,pending_peers}"],
    trusted=FIND_TRUST,
    level_note="Histories of the listed steps with every choice of answer, content, offer, failure, verdict and passing of time; up to 3 peers. Long histories natively, with the peers to inform.",
    harnesses=[b("p22_fates", "2 candidates, every fate, one step and the result"), b("p22_verdict", "2 candidates, every fate and verdict"), b("p22_verdict_result", "2 candidates, every fate and verdict, the result"),
               b("p22_learn", "3 peers, any answer naming up to 2, then two steps"), b("p22_stall", "3 candidates, one request at a time"),
               n("p22_native", "3 to 12 peers, up to 80 events, seeded", 40000)])
