#![allow(dead_code, unused_imports, clippy::all)]
extern crate self as ethportal_api;
extern crate vstd as std;

#[path = "/repo/crates/portalnet/src/accept_queue.rs"]
pub mod accept_queue;
pub mod gossip {
    #[path = "/repo/crates/portalnet/src/gossip/neighborhood.rs"]
    pub mod neighborhood;
}
pub mod types {
    #[path = "/repo/crates/ethportal-api/src/types/distance.rs"]
    pub mod distance;
    #[path = "/repo/crates/portalnet/src/types/kbucket.rs"]
    pub mod kbucket;
    #[path = "/repo/crates/portalnet/src/types/node.rs"]
    pub mod node;
    pub mod enr {
        pub use discv5::Enr;
    }
    pub mod ping_extensions {
        pub mod extension_types {
            #[derive(Clone, Debug, PartialEq, Eq)]
            pub enum PingExtensionType {
                Capabilities,
            }
        }
    }
}
// Stand-ins: a content key is one byte; the wire form of the table.
pub trait OverlayContentKey: Clone + core::fmt::Debug + PartialEq + Eq + core::hash::Hash {
    fn to_bytes(&self) -> alloy::primitives::Bytes {
        Default::default()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Content(pub u8);
impl OverlayContentKey for Content {}
pub struct Bucket {
    pub node_ids: Vec<discv5::NodeId>,
}
pub struct KBucketsTable {
    pub buckets: Vec<Bucket>,
}

use accept_queue::AcceptQueue;
use alloy::primitives::U256;
use core::mem::forget;
use discv5::{
    kbucket::{ConnectionDirection, ConnectionState, InsertResult, NodeStatus},
    Enr, Key, NodeId,
};
use types::{
    distance::{Distance, Metric, XorMetric},
    kbucket::*,
    node::Node,
};

/// Ids that differ in their first byte only.
fn id(b: u8) -> NodeId {
    let mut r = [0u8; 32];
    r[0] = b;
    NodeId::new(&r)
}
fn record(b: u8) -> Enr {
    Enr { id: id(b), seq: 0 }
}
/// Distance by the first byte.
struct First;
impl Metric for First {
    fn distance(x: &[u8; 32], y: &[u8; 32]) -> Distance {
        Distance::from(U256::from((x[0] ^ y[0]) as u64))
    }
}
fn status(connected: bool) -> NodeStatus {
    NodeStatus { state: if connected { ConnectionState::Connected } else { ConnectionState::Disconnected }, direction: ConnectionDirection::Outgoing }
}
#[derive(Clone, Copy)]
struct Peer {
    b: u8,
    connected: bool,
    pending: bool,
    radius: u8,
}
/// A table of `N` different peers, each connected or not, with a radius.
/// Ids of different peers.
fn ids<const N: usize>(local: u8) -> [u8; N] {
    #[cfg(kani)]
    return nd::bytes();
    #[cfg(not(kani))]
    {
        let mut r = [local; N];
        for i in 0..N {
            let mut b: u8 = nd::any();
            while b == local || r[..i].contains(&b) {
                b = b.wrapping_add(1 + nd::below(40) as u8);
            }
            r[i] = b;
        }
        r
    }
}
fn table<const N: usize>(local: u8, ids: [u8; N], connected: [bool; N], pending: [bool; N]) -> (SharedKBucketsTable, [Peer; N]) {
    table_of(local, ids, connected, pending, None)
}
fn table_of<const N: usize>(local: u8, ids: [u8; N], connected: [bool; N], pending: [bool; N], radius: Option<u8>) -> (SharedKBucketsTable, [Peer; N]) {
    let ps: [Peer; N] = core::array::from_fn(|i| Peer { b: ids[i], connected: connected[i], pending: pending[i], radius: match radius { Some(r) => r, None => nd::any() } });
    let mut t = discv5::kbucket::KBucketsTable::new(Key::from(id(local)));
    let mut i = 0;
    while i < N {
        nd::assume(ps[i].b != local);
        let mut j = 0;
        while j < i {
            nd::assume(ps[i].b != ps[j].b);
            j += 1;
        }
        t.put(discv5::kbucket::Slot {
            key: Key::from(id(ps[i].b)),
            value: Node::new(record(ps[i].b), Distance::from(U256::from(ps[i].radius as u64))),
            status: status(ps[i].connected),
            pending: ps[i].pending,
        });
        i += 1;
    }
    (SharedKBucketsTable::new(t), ps)
}
fn listed(p: &Peer) -> bool {
    p.connected && !p.pending
}
/// `got` is the closest `limit` of the listed peers, in order of distance to `target`.
fn check_closest<const N: usize>(ps: &[Peer; N], got: &[Enr], target: u8, limit: usize) {
    let mut total = 0;
    let mut i = 0;
    while i < N {
        total += listed(&ps[i]) as usize;
        i += 1;
    }
    assert!(got.len() == if total < limit { total } else { limit }, "P20.closest-count: not the number of peers asked for");
    let mut i = 0;
    while i < got.len() {
        let b = got[i].id.first();
        let mut found = false;
        let mut j = 0;
        while j < N {
            found |= listed(&ps[j]) && ps[j].b == b;
            j += 1;
        }
        assert!(found, "P20.closest-member: a peer is returned that is not a connected one of the table");
        assert!(i == 0 || got[i - 1].id.first() ^ target < b ^ target, "P20.closest-order: peers are not in order of distance, or repeated");
        i += 1;
    }
    if got.len() > 0 {
        let last = got[got.len() - 1].id.first() ^ target;
        let mut j = 0;
        let mut nearer = 0;
        while j < N {
            nearer += (listed(&ps[j]) && ps[j].b ^ target <= last) as usize;
            j += 1;
        }
        assert!(nearer == got.len(), "P20.closest-left-out: a closer peer is left out");
    }
}
fn closest_node<const N: usize>(limit: usize, connected: [bool; N]) {
    let (t, ps) = table::<N>(0, ids(0), connected, [false; N]);
    let target: u8 = nd::any();
    let got = t.closest_to_node_id(id(target), limit);
    check_closest(&ps, &got, target, limit);
    forget((t, got));
}
fn closest_content<const N: usize>(limit: usize, connected: [bool; N]) {
    let (t, ps) = table::<N>(0, ids(0), connected, [false; N]);
    let target: u8 = nd::any();
    let got = t.closest_to_content_id::<First>(&id(target).raw(), limit);
    check_closest(&ps, &got, target, limit);
    forget((t, got));
}
/// Base-2 logarithm of a distance between ids of this harness, counted from one.
fn log(a: u8, b: u8) -> u16 {
    256 - (a ^ b).leading_zeros() as u16
}
fn by_distance<const N: usize>(limit: usize, with_self: bool) {
    let local: u8 = nd::any();
    let (t, ps) = table::<N>(local, ids(local), core::array::from_fn(|i| i != 1), [false; N]);
    let d = 249 + nd::below(8) as u16;
    let ds: [u16; 2] = if with_self { [d, 0] } else { [d, d] };
    let got = t.nodes_by_distances(record(local), &ds, limit);
    let mut total = with_self as usize;
    let mut i = 0;
    while i < N {
        total += (ps[i].connected && log(local, ps[i].b) == d) as usize;
        i += 1;
    }
    // The table hands out the limit before connected peers are picked, so the count is exact when every peer fits.
    assert!(got.len() <= limit, "P20.distance-limit: more peers than asked for");
    if limit >= N + 1 {
        assert!(got.len() == total, "P20.distance-count: peers at a distance are left out or repeated");
    }
    let mut i = 0;
    while i < got.len() {
        let b = got[i].id.first();
        if with_self && i == 0 {
            assert!(b == local, "P20.distance-self: the local record is not given for distance zero");
        } else {
            let mut ok = false;
            let mut j = 0;
            while j < N {
                ok |= ps[j].b == b && ps[j].connected && log(local, b) == d;
                j += 1;
            }
            assert!(ok, "P20.distance-member: a peer is returned that is not a connected one at that distance");
        }
        let mut j = 0;
        while j < i {
            assert!(got[j].id != got[i].id, "P20.distance-repeat: a peer is returned twice");
            j += 1;
        }
        i += 1;
    }
    forget((t, got));
}
fn interested<const N: usize>(connected: [bool; N]) {
    let (t, ps) = table::<N>(0, if cfg!(kani) { core::array::from_fn(|i| 1 + 0x7f * i as u8) } else { ids(0) }, connected, [false; N]);
    #[cfg(not(kani))]
    let (a, b): (u8, u8) = (nd::any(), nd::any());
    #[cfg(kani)]
    let (a, b): (u8, u8) = (0x55, 0x0f);
    nd::assume(a != b);
    let (ia, ib) = (id(a).raw(), id(b).raw());
    let ids = [&ia, &ib];
    let got = t.batch_interested_enrs::<First>(&ids);
    let mut k = 0;
    while k < 2 {
        let c = if k == 0 { a } else { b };
        match got.get(ids[k]) {
            Some(v) => {
                let mut n = 0;
                let mut i = 0;
                while i < N {
                    n += (ps[i].connected && (ps[i].b ^ c) <= ps[i].radius) as usize;
                    i += 1;
                }
                assert!(v.len() == n, "P24.interested-count: an interested peer is left out, or another is counted");
                let mut j = 0;
                while j < v.len() {
                    let mut ok = false;
                    let mut i = 0;
                    while i < N {
                        ok |= ps[i].b == v[j].id.first() && ps[i].connected && (ps[i].b ^ c) <= ps[i].radius;
                        i += 1;
                    }
                    assert!(ok, "P24.interested: content would go to a peer whose radius does not cover it");
                    j += 1;
                }
            }
            None => assert!(false, "P24.interested-all: content without an answer"),
        }
        k += 1;
    }
    forget((t, got));
}
/// Records found elsewhere: a newer record replaces an older one, a new peer is added, nothing else changes.
fn discovered(known: bool, pending: bool) {
    let (t, ps) = table::<2>(0, if cfg!(kani) { [1, 2] } else { ids(0) }, [true, false], [false; 2]);
    let b: u8 = if known { ps[0].b } else { nd::any() };
    nd::assume(known || (b != ps[0].b && b != ps[1].b));
    let (old, new): (u8, u8) = (nd::any(), nd::any());
    let refuse: bool = nd::any();
    let radius = Distance::from(U256::from(ps[0].radius as u64));
    // Set the stored sequence number.
    let mut n0 = Node::new(Enr { id: id(ps[0].b), seq: old as u64 }, radius);
    n0.set_ephemeral_header_count(7);
    forget(t.update_node(n0, None));
    let r = t.insert_or_update_discovered_nodes([Enr { id: id(b), seq: new as u64 }]);
    if known {
        assert!(r.inserted_nodes.is_empty() && r.removed_nodes.is_empty(), "P20.discovered-known: a known peer is reported as new or gone");
        match t.entry(id(b)) {
            Entry::Present(n, s) => {
                assert!(n.enr.seq == if new > old { new as u64 } else { old as u64 }, "P20.discovered-newer: not the newest record is kept");
                assert!(n.data_radius == radius && n.ephemeral_header_count == Some(7) && s == status(ps[0].connected), "P20.discovered-data: what was known of a peer is lost");
            }
            _ => assert!(false, "P20.discovered-lost: a known peer is lost"),
        }
    } else if b == 0 {
        assert!(r.inserted_nodes.is_empty(), "P20.discovered-self: the local node is added");
        assert!(matches!(t.entry(id(0)), Entry::SelfEntry), "P20.discovered-self-entry: the local node is added");
    } else {
        assert!(r.inserted_nodes.len() == 1 && r.inserted_nodes[0] == id(b), "P20.discovered-new: a new peer is not reported");
        match t.entry(id(b)) {
            Entry::Present(n, s) => {
                assert!(n.enr.seq == new as u64 && n.data_radius == Distance::MAX, "P20.discovered-value: a new peer is stored with another record or radius");
                assert!(s == status(false), "P20.discovered-status: a new peer counts as connected");
            }
            _ => assert!(false, "P20.discovered-added: a new peer is not added"),
        }
    }
    match t.entry(id(ps[1].b)) {
        Entry::Present(n, s) => assert!(n.enr == record(ps[1].b) && s == status(ps[1].connected), "P20.discovered-other: another peer changes"),
        _ => assert!(false, "P20.discovered-other-lost: another peer is lost"),
    }
    let _ = (pending, refuse);
    forget((t, r));
}
/// A discovered record whose update the table refuses: the peer is gone and reported so.
fn discovered_refused(pending: bool) {
    let (old, new): (u8, u8) = (nd::any(), nd::any());
    let bs = [1, 2];
    let mut t = discv5::kbucket::KBucketsTable::new(Key::from(id(0)));
    t.put(discv5::kbucket::Slot { key: Key::from(id(bs[0])), value: Node::new(Enr { id: id(bs[0]), seq: old as u64 }, Distance::MAX), status: status(true), pending });
    t.refuse = Some(id(bs[0]));
    let t = SharedKBucketsTable::new(t);
    let r = t.insert_or_update_discovered_nodes([Enr { id: id(bs[0]), seq: new as u64 }, record(bs[1])]);
    assert!(r.inserted_nodes.len() == 1 && r.inserted_nodes[0] == id(bs[1]), "P20.refused-new: a new peer is not reported");
    if new > old {
        assert!(r.removed_nodes.len() == 1 && r.removed_nodes[0] == id(bs[0]), "P20.refused-gone: a removed peer is not reported");
    } else {
        assert!(r.removed_nodes.is_empty(), "P20.refused-kept: a peer is reported as removed");
        assert!(t.entry(id(bs[0])).present_or_pending().is_some(), "P20.refused-lost: a peer is lost");
    }
    forget((t, r));
}
fn lookups() {
    let (t, ps) = table::<2>(0, ids(0), [true, false], [false, true]);
    let b: u8 = nd::any();
    let e = t.entry(id(b));
    let mut i = 0;
    let mut any = false;
    while i < 2 {
        if ps[i].b == b {
            any = true;
            match &e {
                Entry::Present(n, s) => assert!(!ps[i].pending && n.enr == record(b) && *s == status(ps[i].connected), "P20.lookup-present: another peer or status is looked up"),
                Entry::Pending(n, s) => assert!(ps[i].pending && n.enr == record(b) && *s == status(ps[i].connected), "P20.lookup-pending: another peer or status is looked up"),
                _ => assert!(false, "P20.lookup-lost: a stored peer is not found"),
            }
            assert!(e.clone().present().is_some() == !ps[i].pending, "P20.lookup-present-only: a pending peer counts as present");
            assert!(e.clone().present_or_pending().is_some(), "P20.lookup-either: a stored peer is not found");
        }
        i += 1;
    }
    if !any {
        assert!(if b == 0 { matches!(e, Entry::SelfEntry) } else { matches!(e, Entry::Absent) }, "P20.lookup-absent: a peer is found that is not stored");
        assert!(e.clone().present_or_pending().is_none(), "P20.lookup-none: a peer is found that is not stored");
    }
    let gone = t.remove(id(b));
    assert!(gone == any, "P20.remove: wrong answer whether a peer was removed");
    assert!(t.entry(id(b)).present_or_pending().is_none(), "P20.removed: a removed peer is still there");
    forget((t, e));
}
/// Who gets content that `N` peers may be interested in.
fn recipients<const N: usize>(all: bool) {
    // The verifier is given fixed ids, and any radius.
    let c: u8 = if cfg!(kani) { 0x55 } else { nd::any() };
    let ids: [u8; N] = if cfg!(kani) { core::array::from_fn(|i| i as u8 + 1) } else { ids(0) };
    let (t, ps) = table_of::<N>(0, ids, [true; N], [false; N], if all { Some(255) } else { None });
    let ic = id(c).raw();
    let key = Content(0);
    let got = gossip::neighborhood::gossip_recipients::<Content, First>(vec![(&ic, &key)], &t);
    let want = |p: &Peer| p.connected && p.b ^ c <= p.radius;
    let mut n = 0;
    let mut i = 0;
    while i < N {
        n += want(&ps[i]) as usize;
        i += 1;
    }
    let mut chosen = 0;
    let mut i = 0;
    while i < N {
        let mut before = 0;
        let mut j = 0;
        while j < N {
            before += (want(&ps[j]) && ps[j].b ^ c < ps[i].b ^ c) as usize;
            j += 1;
        }
        match got.get(&record(ps[i].b)) {
            Some(ids) => {
                assert!(want(&ps[i]), "P24.only-interested: content goes to a peer that is not interested");
                assert!(ids.len() == 1 && ids[0][0] == c, "P24.content: other content is sent");
                chosen += 1;
            }
            None => {
                assert!(!want(&ps[i]) || n > 8, "P24.everyone: an interested peer is left out though there are at most eight");
                assert!(!want(&ps[i]) || before >= 4, "P24.closest: one of the four closest peers is left out");
            }
        }
        i += 1;
    }
    assert!(chosen == if n < 8 { n } else { 8 } && got.len() == chosen, "P24.count: not the right number of peers is chosen");
    forget((t, got));
}
/// One step of the queue against its description, kept per key: who offered first, and who else.
struct Spec {
    origin: [Option<u8>; 2],
    other: [[bool; 3]; 2],
}
#[derive(Clone, Copy)]
enum Op {
    Offer(usize, u8),
    Fail(usize),
    Remove(usize),
}
fn step(q: &mut AcceptQueue<Content>, s: &mut Spec, op: Op) {
    match op {
        Op::Remove(k) => {
            q.remove_key(&Content(k as u8));
            s.origin[k] = None;
            s.other[k] = [false; 3];
        }
        Op::Fail(k) => {
            rand::seq::last_choice_from();
            let f = q.process_failed_key(&Content(k as u8));
            // If the fallback is drawn, then from as many entries as there are other peers.
            let others = s.other[k][0] as usize + s.other[k][1] as usize + s.other[k][2] as usize;
            assert!(rand::seq::last_choice_from() <= others, "P23.remembered-once: a peer is remembered more than once");
            match &f {
                Some(e) => {
                    let b = e.id.first();
                    let ok = s.origin[k].is_some() && ((b == 0 && s.other[k][0]) || (b == 1 && s.other[k][1]) || (b == 2 && s.other[k][2]));
                    assert!(ok, "P23.fallback: fallback is not another peer that offered this key");
                }
                None => assert!(s.origin[k].is_none() || (!s.other[k][0] && !s.other[k][1] && !s.other[k][2]), "P23.fallback-none: no fallback though another peer offered this key"),
            }
            forget(f);
            s.origin[k] = None;
            s.other[k] = [false; 3];
        }
        Op::Offer(k, p) => {
            let accepted = q.add_key_to_queue(&Content(k as u8), &record(p));
            assert!(accepted == s.origin[k].is_none(), "P23.once: key accepted while in transfer, or refused while not");
            match s.origin[k] {
                None => s.origin[k] = Some(p),
                Some(o) if o != p => {
                    s.other[k][0] |= p == 0;
                    s.other[k][1] |= p == 1;
                    s.other[k][2] |= p == 2;
                }
                _ => {}
            }
        }
    }
}
fn peer() -> u8 {
    let p: u8 = nd::any();
    nd::assume(p < 3);
    p
}
fn script<const N: usize>(ops: [Op; N]) {
    delay_map::set_now(0);
    let mut q: AcceptQueue<Content> = AcceptQueue::default();
    let mut s = Spec { origin: [None; 2], other: [[false; 3]; 2] };
    let mut i = 0;
    while i < N {
        step(&mut q, &mut s, ops[i]);
        i += 1;
    }
    forget(q);
}
/// Every sequence of five operations on two keys and three peers.
#[cfg(not(kani))]
fn every_sequence() {
    let op = |x: usize| {
        let k = x / 5;
        match x % 5 {
            3 => Op::Fail(k),
            4 => Op::Remove(k),
            p => Op::Offer(k, p as u8),
        }
    };
    for n in 0..100_000usize {
        script([op(n % 10), op(n / 10 % 10), op(n / 100 % 10), op(n / 1000 % 10), op(n / 10_000)]);
    }
}
/// A key is forgotten once its time has passed, and not before.
fn expiry(wait: u64) {
    delay_map::set_now(0);
    let mut q: AcceptQueue<Content> = AcceptQueue::default();
    let key = Content(0);
    let (a, b) = (peer(), peer());
    nd::assume(a != b);
    assert!(q.add_key_to_queue(&key, &record(a)), "P23.first: first offer is not accepted");
    delay_map::set_now(wait);
    let again = q.add_key_to_queue(&key, &record(b));
    assert!(again == (wait >= 120), "P23.expiry: key is forgotten too early, or kept too long");
    let f = q.process_failed_key(&key);
    match &f {
        Some(e) => assert!(!again && e.id.first() == b, "P23.expiry-fallback: wrong fallback"),
        None => assert!(again, "P23.expiry-fallback-none: no fallback though another peer offered this key"),
    }
    forget((q, f));
}
#[cfg(not(kani))]
fn native() {
    let n = nd::below(14);
    let local = NodeId::new(&nd::bytes());
    let mut t = discv5::kbucket::KBucketsTable::new(Key::from(local));
    let ps: Vec<(NodeId, bool, Distance)> = (0..n).map(|_| (NodeId::new(&nd::bytes()), nd::any(), Distance::from(U256::from_be_bytes(nd::bytes::<32>())))).filter(|p| p.0 != local).collect();
    for p in &ps {
        t.insert_or_update(&Key::from(p.0), Node::new(Enr { id: p.0, seq: 0 }, p.2), status(p.1));
    }
    let ps: Vec<_> = t.slots().map(|s| (*s.key.preimage(), s.status.is_connected(), s.value.data_radius)).collect();
    let t = SharedKBucketsTable::new(t);
    let target: [u8; 32] = nd::bytes();
    let limit = nd::below(16);
    let dist = |x: &NodeId| XorMetric::distance(&target, &x.0);
    let mut up: Vec<NodeId> = ps.iter().filter(|p| p.1).map(|p| p.0).collect();
    up.sort_by_key(|p| dist(p));
    let want: Vec<NodeId> = up.iter().take(limit).cloned().collect();
    let a: Vec<NodeId> = t.closest_to_node_id(NodeId::new(&target), limit).iter().map(|e| e.id).collect();
    let b: Vec<NodeId> = t.closest_to_content_id::<XorMetric>(&target, limit).iter().map(|e| e.id).collect();
    assert!(a == want, "P20.closest-node: not the closest connected peers in order");
    assert!(b == want, "P20.closest-content: not the closest connected peers in order");
    let r = t.random_peers(limit);
    assert!(r.len() == limit.min(up.len()) && r.iter().all(|e| up.contains(&e.id)), "P20.random: random peers are not connected ones");
    let key = Content(0);
    let got = gossip::neighborhood::gossip_recipients::<Content, XorMetric>(vec![(&target, &key)], &t);
    let near: Vec<NodeId> = up.iter().filter(|p| ps.iter().any(|q| q.0 == **p && dist(p) <= q.2)).cloned().collect();
    assert!(got.len() == near.len().min(8), "P24.count: not the right number of peers is chosen");
    assert!(got.iter().all(|(e, c)| near.contains(&e.id) && c.len() == 1 && *c[0] == target), "P24.only-interested: content goes to a peer that is not interested");
    assert!(near.iter().take(4).all(|p| got.keys().any(|e| e.id == *p)), "P24.closest: one of the four closest peers is left out");
}

nd::harnesses! {
    fn p20_closest_node(unwind = 4) { closest_node::<3>(2, [true; 3]) }
    fn p20_closest_node_all(unwind = 4) { closest_node::<3>(5, [true, false, true]) }
    fn p20_closest_content(unwind = 4) { closest_content::<3>(2, [true; 3]) }
    fn p20_closest_content_all(unwind = 4) { closest_content::<3>(5, [true, false, true]) }
    fn p20_distance(unwind = 2) { #[cfg(not(kani))] by_distance::<2>(4, false) }
    fn p20_distance_self(unwind = 2) { #[cfg(not(kani))] by_distance::<2>(4, true) }
    fn p20_distance_limit(unwind = 2) { #[cfg(not(kani))] by_distance::<3>(1, false) }
    fn p20_known(unwind = 4) { discovered(true, false) }
    fn p20_new(unwind = 4) { discovered(false, false) }
    fn p20_refused(unwind = 4) { discovered_refused(false) }
    fn p20_refused_pending(unwind = 4) { discovered_refused(true) }
    fn p20_lookups(unwind = 4) { lookups() }
    fn p20_native(unwind = 2) { #[cfg(not(kani))] native() }
    fn p23_offers(unwind = 8) { script([Op::Offer(0, peer()), Op::Offer(0, peer()), Op::Fail(0), Op::Offer(0, peer())]) }
    fn p23_offers_3(unwind = 8) { script([Op::Offer(0, 0), Op::Offer(0, 1), Op::Offer(0, 2), Op::Fail(0)]) }
    fn p23_again(unwind = 8) { script([Op::Offer(0, 0), Op::Offer(0, 1), Op::Offer(0, 2), Op::Offer(0, 1), Op::Fail(0)]); script([Op::Offer(0, 0), Op::Offer(0, 1), Op::Offer(0, peer()), Op::Fail(0)]) }
    fn p23_two_keys(unwind = 8) { script([Op::Offer(0, peer()), Op::Offer(1, peer()), Op::Offer(0, peer()), Op::Fail(1), Op::Fail(0)]) }
    fn p23_remove(unwind = 8) { script([Op::Offer(0, peer()), Op::Offer(1, peer()), Op::Remove(0), Op::Fail(0), Op::Offer(0, peer()), Op::Offer(1, peer())]) }
    fn p23_early(unwind = 8) { expiry(119) }
    fn p23_late(unwind = 8) { expiry(120) }
    fn p23_native(unwind = 2) { #[cfg(not(kani))] every_sequence() }
    fn p24_interested(unwind = 2) { #[cfg(not(kani))] { interested([true, true]); interested([false, true]) } }
    fn p24_recipients(unwind = 2) { #[cfg(not(kani))] { recipients::<2>(false); recipients::<5>(false); recipients::<8>(true); recipients::<9>(true); recipients::<13>(false) } }
    fn p24_native(unwind = 2) { #[cfg(not(kani))] native() }
}
