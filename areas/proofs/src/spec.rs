use types::state_trie::{nibbles::Nibbles, trie_traversal::*};
use over_contracts::state_validator::StateValidator;
use validation::trie::*;
use validator::{ValidationResult, Validator};

fn short(b: &[u8]) -> B256 {
    let mut x = [0u8; 32];
    x[..8].copy_from_slice(b);
    B256::from(x)
}
fn hash(x: u64) -> B256 {
    short(&x.to_le_bytes())
}
fn word() -> B256 {
    hash(nd::any())
}
fn state_root(h: B256) -> B256 {
    B256::from(uf::hash2(&h.0, &[9; 32]))
}

// ---- nodes -----------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
pub enum T {
    Empty,
    Malformed,
    Value,
    Node,
}
/// Where a node leads: to the node of hash `x` with `cut` digits consumed, to a value, or nowhere.
#[derive(Clone, Copy)]
pub struct Outcome {
    t: T,
    x: u64,
    cut: usize,
    value: [u8; 17],
}
const NOWHERE: Outcome = Outcome { t: T::Empty, x: 0, cut: 0, value: [0; 17] };
/// A node: its hash, whether it decodes, where it leads along the path `expected` and along any
/// other path.
#[derive(Clone, Copy)]
pub struct Entry {
    x: u64,
    decodes: bool,
    expected: &'static [u8],
    along: Outcome,
    other: Outcome,
}
fn hash_of(e: &Entry) -> B256 {
    hash(e.x)
}
fn decoded(e: &'static Entry) -> Result<Node, TrieError> {
    if e.decodes { Ok(Node(e)) } else { Err(TrieError) }
}
fn outcome(e: &Entry, path: &[u8]) -> Outcome {
    if same(path, e.expected) { e.along } else { e.other }
}
fn same(path: &[u8], p: &[u8]) -> bool {
    if path.len() != p.len() {
        return false;
    }
    let mut i = 0;
    while i < path.len() {
        if path[i] != p[i] {
            return false;
        }
        i += 1;
    }
    true
}

// ---- specification ---------------------------------------------------------------------------

/// Digits left when the nodes form a chain from the root along the path.
fn chain<'a>(root: Option<B256>, path: &'a [u8], nodes: &[Entry]) -> Option<&'a [u8]> {
    if nodes.is_empty() {
        return None;
    }
    if let Some(r) = root {
        if hash_of(&nodes[0]) != r {
            return None;
        }
    }
    let mut rest = path;
    let mut i = 0;
    while i + 1 < nodes.len() {
        let o = outcome(&nodes[i], rest);
        if !nodes[i].decodes || o.t != T::Node || o.x != nodes[i + 1].x {
            return None;
        }
        rest = &rest[o.cut..];
        i += 1;
    }
    Some(rest)
}
fn proves_node(root: Option<B256>, node: B256, path: &[u8], nodes: &[Entry]) -> bool {
    match chain(root, path, nodes) {
        Some(rest) => rest.is_empty() && hash_of(&nodes[nodes.len() - 1]) == node,
        None => false,
    }
}
fn proven_account(root: Option<B256>, path: &[u8], nodes: &[Entry]) -> Option<(B256, B256)> {
    let rest = chain(root, path, nodes)?;
    let last = &nodes[nodes.len() - 1];
    let o = outcome(last, rest);
    if last.decodes && o.t == T::Value && o.value[0] == 1 {
        Some((short(&o.value[1..9]), short(&o.value[9..17])))
    } else {
        None
    }
}
fn digits_of(a: &B256) -> [u8; 64] {
    let mut d = [0u8; 64];
    let mut i = 0;
    while i < 32 {
        d[2 * i] = a.0[i] >> 4;
        d[2 * i + 1] = a.0[i] & 15;
        i += 1;
    }
    d
}

// ---- inputs ----------------------------------------------------------------------------------

fn digit() -> u8 {
    nd::any::<u8>() & 15
}
fn digits<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N {
        a[i] = digit();
        i += 1;
    }
    a
}
/// An outcome consuming `cut` digits where it leads to a node.
fn any_outcome(cut: usize) -> Outcome {
    let t = match nd::any::<u8>() & 7 {
        0 => T::Empty,
        1 => T::Malformed,
        2 | 3 | 4 => T::Value,
        _ => T::Node,
    };
    let mut value = [0u8; 17];
    value[0] = 1 + (nd::any::<u8>() & 1);
    value[1..9].copy_from_slice(&nd::any::<u64>().to_le_bytes());
    value[9..].copy_from_slice(&nd::any::<u64>().to_le_bytes());
    Outcome { t, x: nd::any(), cut, value }
}
/// Nodes expecting the path with so many digits consumed by each; often linked.
fn nodes<const N: usize>(path: &[u8], cuts: [usize; N]) -> [Entry; N] {
    let path = forever(path);
    let mut es = [Entry { x: 0, decodes: false, expected: path, along: NOWHERE, other: NOWHERE }; N];
    let mut used = 0;
    let mut i = 0;
    while i < N {
        es[i] = Entry {
            x: nd::any(),
            decodes: nd::any::<u8>() & 7 != 0,
            expected: &path[used..],
            along: any_outcome(cuts[i]),
            other: any_outcome(0),
        };
        used += cuts[i];
        i += 1;
    }
    i = 0;
    while i + 1 < N {
        if nd::any() {
            es[i].along.x = es[i + 1].x;
        }
        if nd::any() {
            es[i].other.x = es[i + 1].x;
        }
        i += 1;
    }
    es
}
fn enc(e: &Entry) -> EncodedTrieNode {
    EncodedTrieNode(forever(e))
}
/// Inputs outlive the calls they are passed to.
fn forever<T: ?Sized>(x: &T) -> &'static T {
    unsafe { core::mem::transmute(x) }
}
fn wrap<const N: usize>(es: &[Entry; N]) -> [EncodedTrieNode; N] {
    core::array::from_fn(|i| enc(&es[i]))
}

// ---- obligations -----------------------------------------------------------------------------

/// A proof of N nodes for a path of L digits, whatever the nodes lead to.
fn proof<const L: usize, const N: usize>(cuts: [usize; N], root: bool) {
    let path: [u8; L] = digits();
    let es = nodes(&path, cuts);
    let root = if root { Some(if N == 0 || nd::any() { word() } else { hash_of(&es[0]) }) } else { None };
    let node = if N == 0 || nd::any() { word() } else { hash_of(&es[N - 1]) };
    let want = proves_node(root, node, &path, &es);
    let encoded = wrap(&es);
    let p = TrieProof(forever(&encoded));
    let n = Nibbles::try_from_unpacked_nibbles(&path).unwrap();
    let r = validate_node_trie_proof(root, node, &n, &p);
    let got = r.is_ok();
    assert!(!got || want, "P26.sound: broken proof accepted");
    assert!(got || !want, "P26.complete: proof refused although every link holds");
    forget((r, p, n));
}
fn account<const N: usize>(cuts: [usize; N], root: bool) {
    let address = word();
    let path = digits_of(&address);
    let es = nodes(&path, cuts);
    let root = if root { Some(if nd::any() { hash_of(&es[0]) } else { word() }) } else { None };
    let want = proven_account(root, &path, &es);
    let encoded = wrap(&es);
    let p = TrieProof(forever(&encoded));
    let r = validate_account_state(root, &address, &p);
    match (&r, want) {
        (Ok(a), Some((s, c))) => assert!(a.storage_root == s && a.code_hash == c, "P26.account: another account returned"),
        (Err(_), None) => {}
        (Ok(_), None) => panic!("P26.account: account returned without a proof"),
        (Err(_), Some(_)) => panic!("P26.account: proven account refused"),
    }
    forget((r, p));
}
/// A case of the validator: the content and what the proof checks say about it. A check answers
/// `node_ok`, `account` for the arguments of the case and `other_…` for any others.
#[derive(Clone, Copy)]
struct Case {
    kind: usize,
    nodes: &'static [EncodedTrieNode],
    account_nodes: &'static [EncodedTrieNode],
    code: &'static [u8],
    block_hash: B256,
    digit: u8,
    address: B256,
    target: B256,
    storage: bool,
    node_ok: bool,
    other_node_ok: bool,
    account: Option<(B256, B256)>,
    other_account: Option<(B256, B256)>,
}
static mut CASE: Case = Case {
    kind: 0x5eed_0031,
    nodes: &[],
    account_nodes: &[],
    code: &[],
    block_hash: B256::repeat_byte(0x5e),
    digit: 0x5f,
    address: B256::repeat_byte(0x5a),
    target: B256::repeat_byte(0x5b),
    storage: true,
    node_ok: false,
    other_node_ok: true,
    account: None,
    other_account: None,
};
/// The content value of the case.
fn given() -> StateContentValue {
    let c = unsafe { CASE };
    let (proof, account_proof, code, block_hash) = (TrieProof(c.nodes), TrieProof(c.account_nodes), c.code, c.block_hash);
    match c.kind {
        0 => StateContentValue::TrieNode(TrieNode { node: c.nodes[0].clone() }),
        1 => StateContentValue::AccountTrieNodeWithProof(AccountTrieNodeWithProof { proof, block_hash }),
        2 => StateContentValue::ContractStorageTrieNodeWithProof(ContractStorageTrieNodeWithProof { storage_proof: proof, account_proof, block_hash }),
        3 => StateContentValue::ContractBytecode(ContractBytecode { code }),
        _ => StateContentValue::ContractBytecodeWithProof(ContractBytecodeWithProof { code, account_proof, block_hash }),
    }
}
fn node_proven(root: Option<B256>, node: B256, path: &[u8], proof: &TrieProof) -> bool {
    let c = unsafe { CASE };
    let root_expected = match (root, c.account) {
        (None, _) => !c.storage,
        (Some(r), Some((s, _))) => c.storage && r == s,
        _ => false,
    };
    // proofs are told apart by their length: one node, and two for accounts
    if root_expected && node == c.target && path.len() == 1 && path[0] == c.digit && proof.len() == 1 { c.node_ok } else { c.other_node_ok }
}
fn account_proven(root: Option<B256>, address: &B256, proof: &TrieProof) -> Option<(B256, B256)> {
    let c = unsafe { CASE };
    if root.is_none() && *address == c.address && proof.len() == 2 { c.account } else { c.other_account }
}
/// Content of each kind through the validator. `kind`: 0 node, 1 account node with proof, 2 storage
/// node with proof, 3 code, 4 code with proof. `to`: the kind of key.
fn content(to: usize, kind: usize) {
    uf::reset();
    let es = nodes(&[], [0, 0, 0]);
    let encoded = wrap(&es);
    let code: [u8; 5] = nd::bytes();
    let code_hash = alloy::primitives::keccak256(&code[..]);
    let target = match nd::any::<u8>() & 3 {
        0 | 1 => hash_of(&es[0]),
        2 => code_hash,
        _ => word(),
    };
    let account = |b: bool| if b { Some((word(), if nd::any() { target } else { word() })) } else { None };
    let c = Case {
        kind,
        nodes: forever(&encoded[..1]),
        account_nodes: forever(&encoded[1..]),
        code: forever(&code),
        block_hash: word(),
        digit: digit(),
        address: word(),
        target,
        storage: kind == 2,
        node_ok: nd::any(),
        other_node_ok: nd::any(),
        account: account(nd::any()),
        other_account: account(nd::any()),
    };
    unsafe { CASE = c }
    // what is proven about the content, canonical when tied to an account or state proof
    let want = match (to, kind) {
        (0 | 1, 0) => (hash_of(&es[0]) == target, false),
        (0, 1) => (c.node_ok, true),
        (1, 2) => (c.account.is_some() && c.node_ok, true),
        (2, 3) => (code_hash == target, false),
        (2, 4) => (code_hash == target && matches!(c.account, Some((_, h)) if h == target), true),
        _ => (false, false),
    };
    let n = Nibbles::try_from_unpacked_nibbles(&[c.digit]).unwrap();
    let k = match to {
        0 => StateContentKey::AccountTrieNode(AccountTrieNodeKey { path: n, node_hash: target }),
        1 => StateContentKey::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash: c.address, path: n, node_hash: target }),
        _ => StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash: c.address, code_hash: target }),
    };
    let val = StateValidator { header_oracle: Arc::new(tokio::sync::RwLock::new(oracle::HeaderOracle)) };
    let r = tokio::run(val.validate_content(&k, &[]));
    let ok = !matches!(r, ValidationResult::Invalid(_));
    assert!(!ok || want.0, "P26.content: unproven content accepted");
    assert!(ok || !want.0, "P26.content: proven content refused");
    assert!(!ok || (r == ValidationResult::CanonicallyValid) == want.1, "P26.canonical: content called canonical without, or not canonical despite, a proof");
    forget((r, k, val));
}

nd::harnesses! {
    fn p26_chain_none(unwind = 34) { proof::<0, 0>([], false); proof::<2, 0>([], true) }
    fn p26_chain_one(unwind = 34) { proof::<0, 1>([0], true); proof::<2, 1>([0], false) }
    fn p26_chain_two(unwind = 34) { proof::<2, 2>([2, 0], true); proof::<2, 2>([1, 0], false) }
    fn p26_chain_three(unwind = 34) { proof::<3, 3>([1, 2, 0], true); proof::<3, 3>([1, 0, 0], true) }
    fn p26_chain_four(unwind = 34) { proof::<4, 4>([1, 2, 1, 0], true) }
    fn p26_chain_account(unwind = 67) { account([3, 0], true); account([0], false) }
    fn p26_chain_account_3(unwind = 67) { account([1, 2, 0], false) }
    fn p26_valid_node(unwind = 34) { content(0, 0); content(1, 0) }
    fn p26_valid_account(unwind = 34) { content(0, 1) }
    fn p26_valid_storage(unwind = 34) { content(1, 2) }
    fn p26_valid_code(unwind = 34) { content(2, 3) }
    fn p26_valid_code_proof(unwind = 34) { content(2, 4) }
    fn p26_valid_mixed(unwind = 34) { content(0, 2); content(1, 1); content(2, 0) }
    fn p26_valid_mixed_2(unwind = 34) { content(0, 3); content(1, 4); content(2, 2) }
}
