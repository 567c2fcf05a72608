use types::state_trie::{nibbles::Nibbles, trie_traversal::*};
use validation::{state_validator::StateValidator, trie::*};
use validator::{ValidationResult, Validator};

fn short(b: &[u8]) -> B256 {
    let mut x = [0u8; 32];
    x[..8].copy_from_slice(b);
    B256::from(x)
}
fn word() -> B256 {
    short(&nd::any::<u64>().to_le_bytes())
}
fn state_root(h: B256) -> B256 {
    B256::from(uf::hash2(&h.0, &[9; 32]))
}

// ---- nodes -----------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
pub enum C {
    Empty,
    /// A node elsewhere, by hash `x`.
    Hash,
    /// A short leaf stored in place: key digit `a`, value `v`.
    Leaf,
    /// A branch stored in place: a value if `with`, children `x` at `a` and `y` at `b`.
    Branch,
}
/// Where a branch or extension leads.
#[derive(Clone, Copy)]
pub struct Child {
    t: C,
    a: u8,
    b: u8,
    x: u64,
    y: u64,
    v: [u8; 2],
    with: bool,
}
const NO_CHILD: Child = Child { t: C::Empty, a: 0, b: 0, x: 0, y: 0, v: [0; 2], with: false };
fn to_hash() -> Child {
    Child { t: C::Hash, x: nd::any(), ..NO_CHILD }
}
fn to_leaf() -> Child {
    Child { t: C::Leaf, a: digit(), v: nd::bytes(), ..NO_CHILD }
}
fn to_branch(with: bool, a: u8, b: u8) -> Child {
    Child { t: C::Branch, a, b, x: nd::any(), y: nd::any(), with, ..NO_CHILD }
}
#[derive(Clone, Copy, PartialEq)]
pub enum K {
    Undecodable,
    Empty,
    /// Key digits `key` (leaves carry a final 16), value `value`.
    Leaf,
    /// Key digits `key`, leading to `to[0]`.
    Extension,
    Branch,
}
#[derive(Clone)]
pub struct Shape {
    id: u64,
    t: K,
    key: List,
    to: [Child; 16],
    /// Branches may have a value.
    value: List,
    with: bool,
}
fn hash(x: u64) -> B256 {
    short(&x.to_le_bytes())
}
fn hash_of(s: &Shape) -> B256 {
    let h = uf::tagged(220, [s.id as u128, 0, 0, 0]);
    short(&h[..8])
}
/// The hash as the 64 bits children are given by.
fn short_hash_of(s: &Shape) -> u64 {
    let h = hash_of(s);
    let mut b = [0u8; 8];
    b.copy_from_slice(&h.0[..8]);
    u64::from_le_bytes(b)
}
fn by_hash(x: u64) -> Node {
    Node::Hash(P::new(HashNode { hash: hash(x) }))
}
fn child(c: &Child) -> Node {
    match c.t {
        C::Empty => Node::Empty,
        C::Hash => by_hash(c.x),
        C::Leaf => Node::Leaf(P::new(LeafNode { key: KeyNibbles(List::of(&[c.a, 16])), value: List::of(&c.v) })),
        C::Branch => {
            let f = |i: u8| {
                if i == c.a {
                    by_hash(c.x)
                } else if i == c.b {
                    by_hash(c.y)
                } else {
                    Node::Empty
                }
            };
            let children = [f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15)];
            Node::Branch(P::new(BranchNode { children, value: if c.with { Some(List::of(&[5, 6])) } else { None } }))
        }
    }
}
fn decoded(s: &Shape) -> Result<Node, TrieError> {
    Ok(match s.t {
        K::Undecodable => return Err(TrieError),
        K::Empty => Node::Empty,
        K::Leaf => Node::Leaf(P::new(LeafNode { key: KeyNibbles(s.key.clone()), value: s.value.clone() })),
        K::Extension => Node::Extension(P::new(ExtensionNode { prefix: KeyNibbles(s.key.clone()), node: child(&s.to[0]) })),
        K::Branch => {
            let f = |i: usize| child(&s.to[i]);
            let children = [f(0), f(1), f(2), f(3), f(4), f(5), f(6), f(7), f(8), f(9), f(10), f(11), f(12), f(13), f(14), f(15)];
            Node::Branch(P::new(BranchNode { children, value: if s.with { Some(s.value.clone()) } else { None } }))
        }
    })
}

// ---- specification ---------------------------------------------------------------------------

/// Where a path leads from a node.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    /// To the node of this hash, with so many digits consumed.
    Node(B256, usize),
    Value([u8; 17], usize),
    /// Nowhere: the path ends, leaves the trie, or the node is malformed.
    Stop,
}
fn val(v: &[u8]) -> Step {
    let mut x = [0u8; 17];
    x[..v.len()].copy_from_slice(v);
    Step::Value(x, v.len())
}
fn starts(path: &[u8], p: &[u8]) -> bool {
    if path.len() < p.len() {
        return false;
    }
    let mut i = 0;
    while i < p.len() {
        if path[i] != p[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn leaf_step(key: &[u8], value: &[u8], path: &[u8]) -> Step {
    let n = key.len();
    if n < 2 || key[n - 1] != 16 || n - 1 != path.len() || !starts(path, &key[..n - 1]) {
        return Step::Stop;
    }
    val(value)
}
fn child_step(c: &Child, path: &[u8], used: usize) -> Step {
    match c.t {
        C::Empty => Step::Stop,
        C::Hash => Step::Node(hash(c.x), used),
        C::Leaf => leaf_step(&[c.a, 16], &c.v, path),
        C::Branch => {
            if path.is_empty() {
                if c.with { val(&[5, 6]) } else { Step::Stop }
            } else if path[0] == c.a {
                Step::Node(hash(c.x), used + 1)
            } else if path[0] == c.b {
                Step::Node(hash(c.y), used + 1)
            } else {
                Step::Stop
            }
        }
    }
}
fn step(s: &Shape, path: &[u8]) -> Step {
    match s.t {
        K::Undecodable | K::Empty => Step::Stop,
        K::Leaf => leaf_step(&s.key, &s.value, path),
        K::Extension => {
            let n = s.key.len();
            if n == 0 || !starts(path, &s.key) {
                Step::Stop
            } else {
                child_step(&s.to[0], &path[n..], n)
            }
        }
        K::Branch => {
            if path.is_empty() {
                if s.with { val(&s.value) } else { Step::Stop }
            } else {
                child_step(&s.to[path[0] as usize], &path[1..], 1)
            }
        }
    }
}
/// Digits left when the nodes form a chain from the root along the path.
fn chain(root: Option<B256>, path: &[u8], proof: &[Shape]) -> Option<usize> {
    if proof.is_empty() {
        return None;
    }
    if let Some(r) = root {
        if hash_of(&proof[0]) != r {
            return None;
        }
    }
    let mut used = 0;
    let mut i = 0;
    while i + 1 < proof.len() {
        match step(&proof[i], &path[used..]) {
            Step::Node(h, n) if h == hash_of(&proof[i + 1]) => used += n,
            _ => return None,
        }
        i += 1;
    }
    Some(used)
}
fn proves_node(root: Option<B256>, node: B256, path: &[u8], proof: &[Shape]) -> bool {
    match chain(root, path, proof) {
        Some(used) => used == path.len() && hash_of(&proof[proof.len() - 1]) == node,
        None => false,
    }
}
fn proven_account(root: Option<B256>, address: &B256, proof: &[Shape]) -> Option<(B256, B256)> {
    let path = digits_of(address);
    let used = chain(root, &path, proof)?;
    match step(&proof[proof.len() - 1], &path[used..]) {
        Step::Value(v, 17) if v[0] == 1 => Some((short(&v[1..9]), short(&v[9..17]))),
        _ => None,
    }
}
fn digits_of(a: &B256) -> [u8; 64] {
    let mut d = [0u8; 64];
    let mut i = 0;
    while i < 32 {
        d[2 * i] = a.0[i] >> 4;
        d[2 * i + 1] = a.0[i] & 15;
        i += 1;
    }
    d
}

// ---- inputs ----------------------------------------------------------------------------------

fn digit() -> u8 {
    let x = nd::any::<u8>() & 15;
    x
}
fn digits<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N {
        a[i] = digit();
        i += 1;
    }
    a
}
fn value() -> [u8; 17] {
    let mut v = [0u8; 17];
    v[0] = 1 + (nd::any::<u8>() & 1);
    v[1..9].copy_from_slice(&nd::any::<u64>().to_le_bytes());
    v[9..].copy_from_slice(&nd::any::<u64>().to_le_bytes());
    v
}
/// A node without content, to be filled in.
fn blank(id: u64, t: K) -> Shape {
    Shape { id, t, key: List::of(&[]), to: [NO_CHILD; 16], value: List::of(&[]), with: false }
}
/// A branch with a child of every sort.
fn branch(id: u64, with: bool) -> Shape {
    let mut s = blank(id, K::Branch);
    let mut i = 0;
    while i < 16 {
        s.to[i] = match i % 4 {
            0 | 3 => to_hash(),
            1 => NO_CHILD,
            _ => to_leaf(),
        };
        i += 1;
    }
    s.to[7] = to_branch(true, 2, 11);
    s.value = List::of(&value());
    s.with = with;
    s
}
fn extension(id: u64, n: usize, c: Child) -> Shape {
    let d: [u8; 3] = digits();
    let mut s = blank(id, K::Extension);
    s.key = List::of(&d[..n]);
    s.to[0] = c;
    s
}
fn leaf(id: u64, n: usize, marked: bool) -> Shape {
    let mut d: [u8; 4] = digits();
    let mut s = blank(id, K::Leaf);
    if marked {
        d[n] = 16;
    }
    s.key = List::of(&d[..n + marked as usize]);
    s.value = List::of(&value());
    s
}
fn wrap(p: &[Shape]) -> TrieProof {
    let mut v = Vec::with_capacity(p.len());
    let mut i = 0;
    while i < p.len() {
        v.push(EncodedTrieNode(p[i].clone()));
        i += 1;
    }
    TrieProof(v)
}
/// Let the node lead to `to` wherever it refers to a hash along the path.
fn link(s: &mut Shape, path: &[u8], to: u64) {
    let (c, rest) = match s.t {
        K::Extension if path.len() >= s.key.len() => (&mut s.to[0], &path[s.key.len()..]),
        K::Branch if !path.is_empty() => (&mut s.to[path[0] as usize], &path[1..]),
        _ => return,
    };
    if c.t == C::Hash {
        c.x = to;
    } else if c.t == C::Branch && !rest.is_empty() {
        if rest[0] == c.a {
            c.x = to;
        } else if rest[0] == c.b {
            c.y = to;
        }
    }
}

// ---- obligations -----------------------------------------------------------------------------

/// One node, any path of this length.
fn traversed<const L: usize>(s: Shape, path: [u8; L]) {
    let node = decoded(&s).unwrap();
    let want = step(&s, &path);
    let got = node.traverse(&path);
    match (&got, want) {
        (TraversalResult::Node(n), Step::Node(h, used)) => {
            assert!(n.hash == h, "P26.child: path leads to another child");
            assert!(n.remaining_path.len() == L - used && starts(&path[used..], n.remaining_path), "P26.rest: wrong part of the path is left");
        }
        (TraversalResult::Value(v), Step::Value(x, n)) => {
            assert!(v.len() == n && starts(&x, &v[..]), "P26.value: path leads to another value");
        }
        (TraversalResult::Empty(_) | TraversalResult::Error(_), Step::Stop) => {}
        _ => panic!("P26.step: path leads elsewhere than the node says"),
    }
    forget((got, node, s));
}
/// An extension for the first three digits, then a leaf.
fn account_nodes(address: &B256) -> [Shape; 2] {
    let d = digits_of(address);
    let mut e = blank(20, K::Extension);
    e.key = List::of(&d[..3]);
    let mut l = blank(21, K::Leaf);
    let mut k = [16u8; 62];
    k[..61].copy_from_slice(&d[3..]);
    k[0] ^= digit() & 1;
    k[60] ^= digit() & 1;
    l.key = List::of(&k);
    l.value = List::of(&value());
    e.to[0] = Child { t: C::Hash, x: if nd::any() { short_hash_of(&l) } else { nd::any() }, ..NO_CHILD };
    [e, l]
}
fn account(root: bool) {
    uf::reset();
    pool::reset();
    let address = word();
    let nodes = account_nodes(&address);
    let root = if root { Some(if nd::any() { hash_of(&nodes[0]) } else { word() }) } else { None };
    let want = proven_account(root, &address, &nodes);
    let p = wrap(&nodes);
    let r = validate_account_state(root, &address, &p);
    match (&r, want) {
        (Ok(a), Some((s, c))) => assert!(a.storage_root == s && a.code_hash == c, "P26.account: another account returned"),
        (Err(_), None) => {}
        (Ok(_), None) => panic!("P26.account: account returned without a proof"),
        (Err(_), Some(_)) => panic!("P26.account: proven account refused"),
    }
    forget((r, p, nodes));
}
/// Content of each kind through the validator. `kind`: 0 node, 1 account node with proof, 2 storage
/// node with proof, 3 code, 4 code with proof. `to`: the kind of key.
fn content(to: usize, kind: usize) {
    uf::reset();
    pool::reset();
    let address = word();
    let acct = account_nodes(&address);
    let code: [u8; 5] = nd::bytes();
    let code_hash = alloy::primitives::keccak256(&code[..]);
    let path: [u8; 1] = digits();
    let mut nodes = [extension(30, 1, to_hash()), blank(31, K::Empty)];
    if nd::any() {
        nodes[0].to[0].x = short_hash_of(&nodes[1]);
    }
    let target = match nd::below(3) {
        0 => hash_of(&nodes[1]),
        1 => code_hash,
        _ => word(),
    };
    let found = proven_account(None, &address, &acct);
    let single = blank(31, K::Empty);
    // what is proven about the content, canonical when tied to an account or state proof
    let want = match (to, kind) {
        (0 | 1, 0) => (hash_of(&single) == target, false),
        (0, 1) => (proves_node(None, target, &path, &nodes), true),
        (1, 2) => match found {
            Some((storage, _)) => (proves_node(Some(storage), target, &path, &nodes), true),
            None => (false, true),
        },
        (2, 3) => (code_hash == target, false),
        (2, 4) => match found {
            Some((_, c)) => (code_hash == target && c == target, true),
            None => (false, true),
        },
        _ => (false, false),
    };
    let n = Nibbles::try_from_unpacked_nibbles(&path).unwrap();
    let k = match to {
        0 => StateContentKey::AccountTrieNode(AccountTrieNodeKey { path: n, node_hash: target }),
        1 => StateContentKey::ContractStorageTrieNode(ContractStorageTrieNodeKey { address_hash: address, path: n, node_hash: target }),
        _ => StateContentKey::ContractBytecode(ContractBytecodeKey { address_hash: address, code_hash: target }),
    };
    let block_hash = word();
    let v = match kind {
        0 => StateContentValue::TrieNode(TrieNode { node: EncodedTrieNode(single) }),
        1 => StateContentValue::AccountTrieNodeWithProof(AccountTrieNodeWithProof { proof: wrap(&nodes), block_hash }),
        2 => StateContentValue::ContractStorageTrieNodeWithProof(ContractStorageTrieNodeWithProof { storage_proof: wrap(&nodes), account_proof: wrap(&acct), block_hash }),
        3 => StateContentValue::ContractBytecode(ContractBytecode { code: code.to_vec() }),
        _ => StateContentValue::ContractBytecodeWithProof(ContractBytecodeWithProof { code: code.to_vec(), account_proof: wrap(&acct), block_hash }),
    };
    unsafe { forget(core::mem::replace(&mut *core::ptr::addr_of_mut!(VALUE), Some(v))) }
    let val = StateValidator { header_oracle: Arc::new(tokio::sync::RwLock::new(oracle::HeaderOracle)) };
    let r = tokio::run(val.validate_content(&k, &[]));
    let ok = !matches!(r, ValidationResult::Invalid(_));
    assert!(!ok || want.0, "P26.content: unproven content accepted");
    assert!(ok || !want.0, "P26.content: proven content refused");
    assert!(!ok || (r == ValidationResult::CanonicallyValid) == want.1, "P26.canonical: content called canonical without, or not canonical despite, a proof");
    forget((r, k, val, acct, nodes));
}

#[cfg(not(kani))]
fn random_node(id: u64) -> Shape {
    let c = || match nd::below(6) {
        0 => NO_CHILD,
        1 | 2 => to_hash(),
        3 => to_leaf(),
        _ => to_branch(nd::any(), digit() % 4, digit() % 4),
    };
    match nd::below(12) {
        0 => blank(id, K::Undecodable),
        1 => blank(id, K::Empty),
        2 => leaf(id, nd::below(4), nd::below(6) > 0),
        3 | 4 | 5 => {
            let n = [1, 1, 1, 2, 3, 0][nd::below(6)];
            let mut s = extension(id, n, c());
            s.key = List::of(&[digit() % 4, digit() % 4, digit() % 4][..n]);
            s
        }
        _ => {
            let mut s = branch(id, nd::any());
            for x in s.to.iter_mut() {
                *x = c();
            }
            s
        }
    }
}
#[cfg(not(kani))]
fn native() {
    uf::reset();
    let n = nd::below(6);
    let mut path: Vec<u8> = (0..nd::below(9)).map(|_| if nd::below(5) == 0 { digit() } else { digit() % 4 }).collect();
    let mut nodes: Vec<Shape> = (0..n).map(|i| random_node(i as u64)).collect();
    // follow the path, mostly agreeing with it
    let mut used = 0;
    for i in 0..n.saturating_sub(1) {
        if nodes[i].t == K::Extension {
            let mut k = nodes[i].key.to_vec();
            for j in 0..k.len() {
                if used + j < path.len() && nd::below(12) > 0 {
                    k[j] = path[used + j];
                }
            }
            nodes[i].key = List::of(&k);
        }
        let to = if nd::below(12) > 0 { short_hash_of(&nodes[i + 1]) } else { nd::any() };
        link(&mut nodes[i], &path[used..], to);
        if let Step::Node(_, k) = step(&nodes[i], &path[used..]) {
            used += k;
        }
    }
    if nd::below(4) > 0 {
        path.truncate(used);
    }
    let root = match nd::below(3) {
        0 => None,
        1 => Some(word()),
        _ => nodes.first().map(hash_of),
    };
    let node = if nd::below(6) == 0 || n == 0 { word() } else { hash_of(&nodes[n - 1]) };
    let want = proves_node(root, node, &path, &nodes);
    let got = validate_node_trie_proof(root, node, &Nibbles::try_from_unpacked_nibbles(&path).unwrap(), &wrap(&nodes)).is_ok();
    assert!(!got || want, "P26.sound: broken proof accepted");
    assert!(got || !want, "P26.complete: proof refused although every link holds");
    nd::cover!(got && n > 3, "P26.long: no long proof is accepted");
}

nd::harnesses! {
    fn p26_branch(unwind = 18) {
        pool::reset();
        traversed(branch(1, false), []);
        pool::reset();
        traversed(branch(1, true), []);
        let mut d = 0;
        while d < 8 {
            pool::reset();
            traversed(branch(1, false), [d]);
            d += 1;
        }
    }
    fn p26_branch_upper(unwind = 18) {
        let mut d = 8;
        while d < 16 {
            pool::reset();
            traversed(branch(1, false), [d]);
            d += 1;
        }
    }
    fn p26_branch_3(unwind = 18) {
        pool::reset();
        traversed(branch(1, true), [0, digit(), digit()]);
        pool::reset();
        traversed(branch(1, true), [2, digit()]);
        pool::reset();
        traversed(branch(1, true), [2, digit(), digit()]);
    }
    fn p26_branch_inline(unwind = 18) {
        pool::reset();
        traversed(branch(1, true), [7, 2]);
        pool::reset();
        traversed(branch(1, true), [7, 11, digit()]);
        pool::reset();
        traversed(branch(1, true), [7, 3]);
    }
    fn p26_extension(unwind = 18) {
        pool::reset();
        traversed(extension(1, 2, to_hash()), digits::<3>());
        pool::reset();
        traversed(extension(1, 2, to_hash()), digits::<1>());
        pool::reset();
        traversed(extension(1, 0, to_hash()), digits::<2>());
        pool::reset();
        traversed(extension(1, 2, NO_CHILD), digits::<2>());
        pool::reset();
        traversed(extension(1, 1, to_leaf()), digits::<3>());
        pool::reset();
        traversed(extension(1, 1, to_leaf()), digits::<2>());
    }
    fn p26_extension_branch(unwind = 18) {
        pool::reset();
        traversed(extension(1, 1, to_branch(true, 3, 9)), [digit(), 3]);
        pool::reset();
        traversed(extension(1, 1, to_branch(true, 3, 9)), [digit(), 9, digit()]);
        pool::reset();
        traversed(extension(1, 1, to_branch(true, 3, 9)), [digit(), 4]);
        pool::reset();
        traversed(extension(1, 2, to_branch(true, 3, 9)), digits::<2>());
        pool::reset();
        traversed(extension(1, 2, to_branch(false, 3, 9)), digits::<2>());
    }
    fn p26_leaf(unwind = 18) {
        pool::reset();
        traversed(leaf(1, 2, true), digits::<2>());
        pool::reset();
        traversed(leaf(1, 3, true), digits::<2>());
        pool::reset();
        traversed(leaf(1, 2, true), digits::<3>());
        pool::reset();
        traversed(leaf(1, 2, false), digits::<2>());
        pool::reset();
        traversed(leaf(1, 0, true), []);
        pool::reset();
        traversed(leaf(1, 0, false), []);
        pool::reset();
        traversed(blank(1, K::Empty), digits::<1>());
    }
    fn p26_native(unwind = 1) { #[cfg(not(kani))] native() }
    fn p26_native_account(unwind = 1) { #[cfg(not(kani))] account(nd::any()) }
    fn p26_native_content(unwind = 1) { #[cfg(not(kani))] content(nd::below(3), nd::below(5)) }
}
