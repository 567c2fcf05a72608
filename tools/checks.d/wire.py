C["P17"] = dict(
    area="accept", level="model_checking",
    files=[T+"accept_code.rs", T+"protocol_versions.rs", T+"network_spec.rs"],
    functions=["AcceptCode::from", "AcceptCodeList::{new,set,len,all_declined,encode,decode}", "ProtocolVersion::{from,is_v1_enabled,cmp}",
               "ProtocolVersionList::{new,encode,decode,is_strictly_sorted_and_specified}", "NetworkSpec::{new,latest_common_protocol_version}"],
    trusted=[RUSTC, SSZT, "shims/alloy_rlp: RLP strings up to 55 bytes", "shims/ssz_types BitList: bit lists of up to 512 bits", "shims/bytes: byte buffers over plain vectors",
             "node records: one optional value under the version key"],
    level_note="Single codes and versions: all. Lists at the listed lengths with arbitrary contents; other lengths natively.",
    harnesses=[c("p17_codes"), b("p17_list_0_3", "0,3 codes"), b("p17_list_8", "8 codes"), b("p17_list_9", "9 codes"), b("p17_list_64", "64 codes"), b("p17_list_65", "65 codes"),
               b("p17_decode_codes", "0,4 bytes"), b("p17_decode_64", "64 bytes"), b("p17_decode_65", "65 bytes"), b("p17_bits_0", "0,1,3 bytes"), b("p17_bits_1", "1 byte"),
               b("p17_bits_2", "2 bytes, 8 items"), b("p17_bits_65", "9,10 bytes, over 64 items"), b("p17_negotiate_2_2", "2 against 2 versions"), b("p17_negotiate_1_3", "1 against 3 versions"),
               b("p17_negotiate_2_1", "against a single version"), b("p17_negotiate_3_1", "against a single version"), b("p17_negotiate_3_3", "3 against 3 versions"), b("p17_unordered", "one list out of order"), b("p17_announce", "0,1,8 versions"),
               n("p17_native", "lists of up to 70 codes, bit lists of up to 11 bytes, seeded", 40000)])
C["P18"] = dict(
    area="wire", level="model_checking",
    files=["crates/portalnet/src/utils/portal_wire.rs"],
    functions=["encode_content_payload", "decode_content_payload", "decode_single_content_payload", "decode_next_content_item", "read_varint"],
    trusted=[RUSTC, "shims/bytes: byte buffers over plain vectors, recording the largest buffer requested", "shims/leb128: the reader and writer of the crate of that name",
             "shims/vstd io: input and output errors carry only their kind"],
    level_note="Byte strings of the listed lengths and shapes with arbitrary contents; longer ones natively.",
    harnesses=[b("p18_length_1_5", "0,1,2,5 bytes"), b("p18_length_7", "7 bytes"), b("p18_length_12", "12 bytes"), b("p18_payload_1", "1 byte"), b("p18_payload_items", "5,6 bytes, well formed"),
               b("p18_payload_short", "4,5 bytes, truncated"), b("p18_payload_huge", "5,6 bytes, huge announced length"), b("p18_payload_three", "3 items"), b("p18_single_2", "0..2 bytes"),
               b("p18_single_4", "4 bytes"), b("p18_single_7", "7 bytes, two-byte length"), b("p18_encode_2_3", "items of 2,3 bytes"), b("p18_encode_0_5", "items of 0,5 bytes"), c("p18_none"),
               n("p18_native", "items of up to 70000 bytes, seeded", 3000)])
