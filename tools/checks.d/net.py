PN = "crates/portalnet/src/"
TABLE = "shims/discv5: routing table by contract (peers kept once, iteration, updates, removal); node ids of one byte under the verifier"
C["P20"] = dict(
    area="net", level="model_checking",
    files=[PN+"types/kbucket.rs", PN+"types/node.rs", "crates/ethportal-api/src/types/distance.rs"],
    functions=["SharedKBucketsTable::{entry,remove,update_node,insert_or_update_discovered_nodes,closest_to_node_id,closest_to_content_id}", "Entry::{from,present,present_or_pending}", "Node::{new,set_enr}",
               "bounded: SharedKBucketsTable::{nodes_by_distances,random_peers}"],
    trusted=[RUSTC, MAPS, TABLE, "shims/itertools, shims/parking_lot: sorting and locks"],
    level_note="Tables of up to 3 peers with arbitrary ids and records; larger tables and real-size ids natively.",
    harnesses=[b("p20_closest_node", "3 peers, 2 asked for"), b("p20_closest_node_all", "3 peers, one down"), b("p20_closest_content", "3 peers, 2 asked for"), b("p20_closest_content_all", "3 peers, one down"),
               b("p20_lookups", "2 peers"), b("p20_known", "2 peers"), b("p20_new", "2 peers"), b("p20_refused", "2 records"), b("p20_refused_pending", "2 records"),
               n("p20_distance", "tables of 2 peers, seeded", 100000), n("p20_distance_self", "tables of 2 peers, seeded", 100000), n("p20_distance_limit", "tables of 3 peers, seeded", 100000),
               n("p20_native", "tables of up to 13 peers with 32-byte ids, seeded", 60000)])
C["P23"] = dict(
    area="net", level="model_checking",
    files=[PN+"accept_queue.rs"],
    functions=["AcceptQueue::{default,add_key_to_queue,remove_key,process_failed_key}"],
    trusted=[RUSTC, "shims/delay_map: map whose entries fall due after a delay", "shims/futures: polling once", "shims/rand: every shuffle possible"],
    level_note="The listed sequences of operations with arbitrary peers and every outcome of the random choice; every sequence of five operations natively.",
    harnesses=[b("p23_offers", "offer, offer, fail, offer"), b("p23_offers_3", "three offers, fail"), b("p23_again", "three or four offers, a peer offering again, fail"), b("p23_two_keys", "two keys, five operations"), b("p23_remove", "two keys, six operations"),
               b("p23_early", "second offer after 119 s"), b("p23_late", "second offer after 120 s"), n("p23_native", "every sequence of 5 operations on 2 keys and 3 peers", 20)])
C["P24"] = dict(
    area="gossip", level="other",
    files=[PN+"gossip/neighborhood.rs", PN+"types/kbucket.rs"],
    functions=["gossip_recipients", "bounded: select_content_recipients, SharedKBucketsTable::batch_interested_enrs"],
    trusted=[RUSTC, MAPS, TABLE, "areas/gossip: contract of the interested-peer query (its code is run natively in areas/net)", "shims/rand: every choice possible"],
    level_note="Mostly bounded: the verifier runs out of memory beyond three interested peers, so the selection among more is judged natively on seeded tables.",
    harnesses=[b("p24_none", "no peer"), b("p24_one", "one peer"), b("p24_two", "two peers"), n("p24_sizes", "3, 8, 9 and 12 peers, random choices", 20000),
               n("p24_interested", "2 peers, seeded", 60000, area="net"), n("p24_recipients", "2, 5, 8, 9, 13 peers, seeded", 20000, area="net"), n("p24_native", "tables of up to 13 peers with 32-byte ids, seeded", 60000, area="net")])
