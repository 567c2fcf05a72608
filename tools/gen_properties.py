#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is edited here, one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})

API = "crates/ethportal-api/src/"
PN = "crates/portalnet/src/"
VA = "crates/validation/src/"
ST = "crates/storage/src/"

p("P01", "Prefixed hex text codec is exact, total and reversible",
  "Encoding any byte string yields '0x' followed by exactly two hex digits per byte (lower case, or upper case in the upper-case variant), and decoding that text returns the original bytes. Decoding never panics: it succeeds exactly for texts made of a '0x' or '0X' prefix followed by an even number of hex digits of either case, and reports an error for every other text. The compact rendering is the full encoding up to 8 bytes and otherwise '0x', the first four hex digits, '..', and the last four hex digits.",
  ["inputs"], "every byte string and every text", "The tests use seven fixed strings; the claim is about every string, including multi-byte UTF-8 cut by the prefix.",
  [API + "utils/bytes.rs"], [("hex_encode / hex_decode / hex_encode_upper / hex_encode_compact", API + "utils/bytes.rs")])

p("P02", "Random ids have exactly the requested number of leading zero bits",
  "For every requested count from 0 to 255, and whatever the random source produces, the generated 32-byte id has exactly that many leading zero bits, and all bits below the first set bit remain free (never forced). Generation never panics.",
  ["inputs", "schedules"], "every requested count and every outcome of the random source", "Tests call it with three counts and one random draw each.",
  [API + "utils/bytes.rs"], [("random_32byte_array", API + "utils/bytes.rs")])

p("P03", "Client names are recognised case-insensitively and otherwise preserved",
  "Each of the names fluffy, trin, trin-execution, shisui, ultralight and samba, in any mix of letter case, is recognised as its own distinct client, and no other text is recognised as any of them. Any other text is kept, lower-cased and otherwise unchanged, as an unknown client. Rendering a known client gives its own capitalised name (Fluffy, Trin, TrinExecution, Shisui, Ultralight, Samba), and rendering an unknown client gives 'Unknown(<text>)', or 'Unknown' when there is no text.",
  ["inputs"], "every text", "There is no test for this parser.",
  [API + "types/client_type.rs"], [("From<&str> / Display for ClientType", API + "types/client_type.rs")])

p("P04", "Consensus fork names and digests identify each other uniquely",
  "Every fork maps to a fixed 4-byte digest (Bellatrix 4a26c58b, Capella bba4da96, Deneb 6a95a1a9, Electra ad532ceb), and a 4-byte digest is accepted exactly when it is one of these four and then yields that fork. A text is accepted as a fork name exactly when, ignoring letter case, it is bellatrix, merge (meaning Bellatrix), capella, deneb or electra; rendering a fork gives its lower-case name, which parses back to the same fork, and the capitalised rendering differs only in the first letter's case. Parsing never panics.",
  ["inputs"], "all 2^32 digests and every text", "Tests exercise the four valid digests and names, not the rejection of everything else.",
  [API + "types/consensus/fork.rs"], [("TryFrom<ForkDigest>, as_fork_digest, FromStr, Display", API + "types/consensus/fork.rs")])

p("P05", "JSON-RPC parameters keep their kind and contents",
  "Converting request parameters to a JSON value yields null for no parameters, an array with the same elements in the same order for positional parameters, and an object with the same entries for named parameters. Reading parameters back from that value yields the same parameters, and any value that is neither null, array nor object is refused.",
  ["inputs"], "every parameter list", "Tests deserialise eleven literals and never convert back.",
  [API + "types/jsonrpc/params.rs"], [("Params, From<Params> for Value", API + "types/jsonrpc/params.rs")])

p("P06", "A metrics timer records its duration exactly once, or never when discarded",
  "Stopping a timer with a recording operation adds exactly one observation to its histogram, and the recorded (and returned) value is the time elapsed since the timer was created, in seconds. Stopping with the discarding operation returns the elapsed time and records nothing; dropping an unstopped timer records nothing. Time never comes out negative, even if the clock does not advance.",
  ["schedules", "histories"], "every clock reading sequence and every way a timer ends", "Tests sleep 100 ms and check a lower bound only.",
  ["crates/metrics/src/timer.rs"], [("DiscardOnDropHistogramTimer", "crates/metrics/src/timer.rs")])

p("P07", "Checked integer arithmetic never wraps and never panics",
  "For every supported integer type and every pair of operands, each checked operation (add, subtract, multiply, divide, remainder, shift left, shift right) returns the exact mathematical result when it is representable, an overflow error when an add, subtract, multiply or over-wide shift is not, and a division error when a quotient or remainder does not exist or is not representable. The in-place variants store exactly that result, and on error leave the operand unchanged. Summing a sequence returns the exact sum, or an overflow error when some partial sum is not representable.",
  ["inputs"], "all operand pairs of all ten integer types; all sequences", "Tests try a handful of operand pairs on three types.",
  [VA + "merkle/safe_arith.rs"], [("SafeArith, SafeArithIter", VA + "merkle/safe_arith.rs")])

p("P08", "Bridge mode arguments are parsed exactly, and malformed ones are refused",
  "The texts 'latest', 'e2hs' and 'ephemeral-history' select those modes; 'snapshot:N' selects the snapshot at block N; 'single:rX-Y' selects the inclusive block range X to Y and is accepted only when X does not exceed Y. Every other text, including one with missing, extra, non-numeric or out-of-range numbers, is refused with an error. Parsing never panics on any text.",
  ["inputs"], "every text", "Tests cover one valid and four invalid texts.",
  ["bin/portal-bridge/src/types/mode.rs"], [("FromStr for BridgeMode / ModeType", "bin/portal-bridge/src/types/mode.rs")])

p("P09", "A block range is split into epochs without loss, overlap or excess",
  "For every start not exceeding end, splitting the inclusive block range into 8192-block epochs yields exactly one entry for each epoch the range touches and none for any other epoch. An epoch lying entirely inside the range is reported as complete; any other touched epoch is reported with exactly the first and last of its blocks that lie in the range. An empty range (start after end, in a later epoch) yields nothing, and no input makes the split panic.",
  ["inputs"], "all pairs of 64-bit block numbers", "Tests try four small ranges.",
  ["bin/portal-bridge/src/types/range.rs"], [("block_range_to_epochs", "bin/portal-bridge/src/types/range.rs")])

p("P10", "A header is accepted only with a complete inclusion chain for its era",
  "A header with proof is accepted only if the kind of proof matches the era of the header (pre-merge by block number; merge-to-Shanghai, Shanghai-to-Cancun and post-Cancun by block number and timestamp), the header's own hash is proven into the claimed beacon block at the execution block-hash position (or into the pre-merge epoch at the header's own index), and the beacon block is proven at its own slot into the locally trusted accumulator entry for that slot's period. Every header meeting all of these is accepted. Validation never panics, whatever slot or proof the remote peer supplies.",
  ["inputs"], "every header, proof, slot and accumulator content, for an arbitrary hash function", "Tests replay a few genuine mainnet headers; forged slots, indices or eras are not explored.",
  [VA + "header_validator.rs", VA + "merkle/proof.rs", VA + "historical_summaries_provider.rs", VA + "accumulator.rs"],
  [("validate_header_with_proof", VA + "header_validator.rs"), ("verify_merkle_proof", VA + "merkle/proof.rs"), ("get_historical_summary", VA + "historical_summaries_provider.rs")])

p("P11", "Merkle branches verify exactly the leaf, index and root they were built for",
  "Recomputing a root from a leaf and a branch combines, level by level from the bottom, the running hash with the branch node on the side given by that bit of the index. A branch is accepted exactly when its length equals the stated depth and the recomputed root equals the given root. A proof generated from a tree built over any list of leaves verifies against that tree's root for each of its leaves, and the tree's root equals the root of the zero-padded full tree.",
  ["inputs"], "all leaves, branches, depths and indices, for an arbitrary hash function", "The in-tree test is randomised and ignores malformed lengths.",
  [VA + "merkle/proof.rs"], [("merkle_root_from_branch, verify_merkle_proof", VA + "merkle/proof.rs"), ("MerkleTree::create / push_leaf / generate_proof", VA + "merkle/proof.rs")])

p("P12", "A light-client update is verified only if timing, proofs and signature all hold",
  "An update passes verification only if it has at least one participant, its signature slot is after the attested slot and not in the future, the finalized slot does not exceed the attested slot, its signature period is the store's period or (only with a known next committee) the one after, it is newer than what is known or supplies a missing next committee, every finality or next-committee claim it carries is proven into the attested header's state at the position of that fork, and the aggregate signature of the committee of the signature period verifies over the attested header, in the domain of the fork active in the slot before the signature slot. Every update for which all of this holds is accepted. The store starts only from a header that hashes to the trusted checkpoint, with a committee proven into that header's state.",
  ["inputs", "histories"], "every store state and every update", "Tests replay recorded mainnet updates plus one tampered field each.",
  ["crates/light-client/src/consensus/consensus_client.rs"], [("verify_generic_update", "crates/light-client/src/consensus/consensus_client.rs")])

p("P13", "The light-client store never moves backwards and finality needs two thirds",
  "Applying an update never lowers the finalized or optimistic slot, and the optimistic header is never older than the finalized one. The finalized header and the committees change only through an update signed by at least two thirds of the committee, and the committee rotates only when the finalized header enters the period right after the store's. The optimistic header advances to a newer attested header only with more participants than the safety threshold, half of the greatest participation seen in the current and the previous period.",
  ["histories"], "every sequence of verified updates", "Tests apply a single recorded update.",
  ["crates/light-client/src/consensus/consensus_client.rs"], [("apply_generic_update", "crates/light-client/src/consensus/consensus_client.rs")])

p("P14", "Chain-head data is monotone and summaries are looked up by slot period",
  "Processing any sequence of updates never lowers the latest or the finalized beacon slot and never shortens the known historical summaries; the value kept is always one of the offered values with the greatest slot (or length). Looking up the summary of a slot returns the entry of that slot's 8192-slot period counted from the Capella fork, and nothing for a slot before Capella or not yet covered.",
  ["histories", "inputs"], "every update sequence, every slot", "Only the embedded defaults are tested.",
  [VA + "chain_head/mod.rs", VA + "chain_head/store.rs", API + "types/consensus/historical_summaries.rs"],
  [("ChainHead::process_* / update_historical_summaries", VA + "chain_head/mod.rs"), ("historical_summary_index", API + "types/consensus/historical_summaries.rs")])

p("P15", "The key-space distance is the XOR metric",
  "The distance between two 32-byte keys is the big-endian integer value of their bitwise XOR: it is symmetric, zero only for equal keys, satisfies the triangle inequality, and for a given key and distance there is exactly one other key. The logarithmic distance is absent for equal keys and otherwise 256 minus the number of leading equal bits; the big-endian rendering returns the XOR bytes.",
  ["inputs"], "all triples of 256-bit keys", "Quickcheck samples a hundred random points, which almost never share a prefix.",
  [API + "types/distance.rs"], [("XorMetric::distance, Distance::log2", API + "types/distance.rs")])

p("P16", "Content keys and ids are canonical and collision-free by construction",
  "Encoding a content key and decoding it returns the same key, decoding never panics, and two different encodings never decode to equal keys. A byte string whose selector or payload length does not belong to a defined key kind is refused. Content ids that place history by block number keep block order information exactly as specified: the id is determined by the number's low 16 bits, high bits and the kind, and differs for different keys.",
  ["inputs"], "every key and every byte string", "Tests use one literal per key kind.",
  [API + "types/content_key/legacy_history.rs", API + "types/content_key/history.rs", API + "types/content_key/state.rs", API + "types/content_key/beacon.rs", API + "types/content_key/content_id.rs"],
  [("OverlayContentKey::{to_bytes, try_from_bytes, content_id}", API + "types/content_key/")])

p("P17", "Offer answers and protocol versions survive the wire unchanged",
  "Decoding an encoded list of per-item accept codes returns the same list (at the first protocol version, which only carries one bit per item, the same acceptances), and every byte string either decodes to the list it denotes or is refused. Unknown codes are never read as acceptance. The protocol version chosen with a peer is the highest one both sides support (a peer announcing none supports the first), and none is chosen when they share none.",
  ["inputs"], "every code list, byte string and pair of version lists", "Tests use a few literals.",
  [API + "types/accept_code.rs", API + "types/protocol_versions.rs", API + "types/network_spec.rs"],
  [("AcceptCodeList", API + "types/accept_code.rs"), ("ProtocolVersionList", API + "types/protocol_versions.rs"), ("latest_common_protocol_version", API + "types/network_spec.rs")])

p("P18", "Framed multi-content payloads round-trip and malformed ones are refused",
  "Decoding an encoded sequence of content items returns exactly the items, in order. Every byte string either decodes completely or is refused with an error: truncated items, length prefixes longer than 32 bits or longer than the remaining data are never accepted, and nothing is read beyond the end. A length prefix never makes more memory be set aside than the payload could fill.",
  ["inputs"], "every list of items and every byte string", "Tests use a few literals.",
  [PN + "utils/portal_wire.rs"], [("encode_content_payload / decode_content_payload / decode_single_content_payload", PN + "utils/portal_wire.rs")])

p("P19", "Storage pruning respects capacity and reacts in bounded steps",
  "Pruning happens exactly when usage exceeds the configured capacity, removes at least one item and no more than the per-round limit (everything at capacity zero), and always the content farthest from the local node; the limit stays at least one and grows or shrinks only with how fast the last round was. Item counts and sizes match what is stored after every addition, removal and restart (adding stored content again changes nothing), and what is stored is returned unchanged until removed. A combined capacity is divided between enabled subnetworks without exceeding the total.",
  ["inputs", "histories"], "every usage, capacity, pruning duration and sequence of additions and removals", "Tests try a few table rows.",
  [ST + "versioned/id_indexed_v1/pruning_strategy.rs", ST + "versioned/usage_stats.rs", ST + "config.rs", ST + "versioned/id_indexed_v1/store.rs"],
  [("PruningStrategy", ST + "versioned/id_indexed_v1/pruning_strategy.rs"), ("UsageStats", ST + "versioned/usage_stats.rs"), ("StorageCapacityConfig", ST + "config.rs"), ("IdIndexedV1Store", ST + "versioned/id_indexed_v1/store.rs")])

p("P20", "Peer queries return the right peers and discovered records are merged safely",
  "Closest-peer queries return the requested number (or all) of the connected peers in increasing distance to the target, leaving out none that is closer than one returned; queries by distance return only connected peers at the asked distances, each once and at most the limit, and the local record exactly for distance zero. Looking up a peer returns what was stored for it and nothing for a peer not stored or removed. A discovered record adds an unknown peer as not connected and covering everything, replaces only an older record of a known one without touching what else is known of it, and the peers reported as added or removed are exactly those that were.",
  ["inputs", "histories"], "every table of peers, target, limit and discovered record", "Tests cover single operations on random tables.",
  [PN + "types/kbucket.rs"], [("SharedKBucketsTable", PN + "types/kbucket.rs")])

p("P21", "A node lookup terminates with the closest responsive peers",
  "A node lookup contacts candidates closest first and each at most once, opens no request beyond the configured parallelism (beyond the configured number of results once answers bring nothing new), and contacts nobody once the closest candidates that have not failed or timed out, that number of them, have answered. It ends exactly then, or when no candidate is left to contact or wait for, and is given up at its overall time limit. Its result is the closest peers that answered, closest first, at most the configured number.",
  ["histories", "schedules"], "every interleaving of answers, failures and timeouts", "Tests drive random but well-behaved schedules.",
  [PN + "find/iterators/findnodes.rs", PN + "find/iterators/query.rs"], [("FindNodeQuery", PN + "find/iterators/findnodes.rs")])

p("P22", "A content lookup returns content only from a peer that supplied it",
  "A content lookup contacts candidates closest first, each at most once and within the configured parallelism. Content or a transfer offered by a contacted peer is validated once, one at a time, before anybody else is contacted; the lookup returns content only if it was found valid, attributed to the peer that supplied it. Without valid content it ends only when nothing is left to validate and no candidate is left to contact or wait for.",
  ["histories", "schedules"], "every interleaving of answers, failures and timeouts", "Tests drive random but well-behaved schedules.",
  [PN + "find/iterators/findcontent.rs", PN + "find/iterators/query.rs"], [("FindContentQuery", PN + "find/iterators/findcontent.rs")])

p("P23", "A content key in transfer is accepted once and falls back to other offerers",
  "While a content key is being transferred, further offers of it are not accepted again; each further offering peer is remembered once. When a transfer fails, the key becomes acceptable again and the fallback returned is a peer other than the original that offered this key, or none if no other peer did. Removing one key never affects another, and a key is forgotten two minutes after its last offer.",
  ["histories"], "every sequence of offers, failures and removals", "Tests use fixed sequences of two or three calls.",
  [PN + "accept_queue.rs"], [("AcceptQueue", PN + "accept_queue.rs")])

p("P24", "Gossip goes only to interested peers and to the closest of them",
  "Content is propagated only to connected peers whose advertised radius covers it. With at most eight interested peers all of them are chosen; with more, exactly eight distinct peers are chosen and they include the four closest to the content.",
  ["inputs"], "every set of peers, radii and distinct content ids", "Tests use fixed peer sets.",
  [PN + "gossip/neighborhood.rs"], [("gossip_recipients / select_content_recipients", PN + "gossip/neighborhood.rs")])

p("P25", "Archive entries decode exactly what was written and refuse short input",
  "Writing an archive entry and reading it back returns the same type and value, the encoded size is 8 bytes plus the value length, and consecutive entries are read back in order. Every byte string that is truncated, carries a reserved non-zero header field or a length different from the value is refused with an error, never with a panic.",
  ["inputs"], "every entry and every byte string", "Tests read well-formed fixture files.",
  ["crates/e2store/src/e2store/types.rs", "crates/e2store/src/e2store/memory.rs"], [("Entry / Header (de)serialisation", "crates/e2store/src/e2store/types.rs")])

p("P26", "A state proof is accepted only if each node is the parent's referenced child",
  "A trie proof is accepted only if its first node hashes to the given root, each following node is the child that the previous node references along the remaining path, the path is consumed exactly, and the last node hashes to the key's node hash (or leads to the account's value for an account path). Following a path of nibbles through a node never panics, whatever the node. Storage nodes and bytecode offered with a proof are accepted only if proven below the account at the key's address.",
  ["inputs"], "every proof, path and root, for an arbitrary hash function", "Tests replay recorded proofs and a few broken ones.",
  ["crates/subnetworks/state/src/validation/trie.rs", API + "types/state_trie/trie_traversal.rs", API + "types/state_trie/nibbles.rs"],
  [("validate_node_trie_proof / validate_account_state", "crates/subnetworks/state/src/validation/trie.rs"), ("NodeTraversal", API + "types/state_trie/trie_traversal.rs"), ("Nibbles", API + "types/state_trie/nibbles.rs")])

p("P27", "Stored content survives a crash at any point without corrupting the index",
  "After a crash at any point during an insertion or pruning round, reopening the store yields every fully inserted and unpruned item, no partial item, and usage figures equal to what is stored.",
  ["crash_points"], "every crash point", "Tests never crash the process.",
  [ST + "versioned/id_indexed_v1/store.rs"], [("IdIndexedV1Store insert / prune / init_usage_stats", ST + "versioned/id_indexed_v1/store.rs")])

p("P28", "Executing a block yields the header's state root",
  "Executing any valid block on its parent state yields the state, receipts and gas that the header commits to, under the rules of the fork active at that block.",
  ["programs", "inputs"], "every block and parent state", "Tests execute a few early mainnet blocks.",
  ["bin/trin-execution/src/execution.rs", "crates/evm/src/block_executor.rs"], [("BlockExecutor", "crates/evm/src/block_executor.rs")])

p("P29", "Overlay requests complete under every message loss and reordering",
  "Every overlay request that is issued is eventually answered or reported as failed exactly once, under every loss, duplication and reordering of messages, and lookups make progress as long as one candidate answers.",
  ["schedules", "fault_sequences"], "every schedule and fault sequence of the asynchronous service", "Tests run happy paths with a real runtime.",
  [PN + "overlay/service/manager.rs"], [("OverlayService event loop", PN + "overlay/service/manager.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
