//! Node records and the routing table of the crate of that name, by contract: an entry per node in the bucket of its
//! distance to the local node, pending entries that are looked up but not listed, and updates that the table's filters may
//! refuse (what they refuse is chosen freely by the harness).
use core::fmt;

pub mod enr {
    use super::*;
    #[cfg(not(kani))]
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct NodeId(pub [u8; 32]);
    #[cfg(not(kani))]
    impl NodeId {
        pub fn new(b: &[u8; 32]) -> Self {
            NodeId(*b)
        }
        pub fn raw(&self) -> [u8; 32] {
            self.0
        }
    }
    /// Under the verifier, ids differ in their first byte only.
    #[cfg(kani)]
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct NodeId(pub u8);
    #[cfg(kani)]
    impl NodeId {
        pub fn new(b: &[u8; 32]) -> Self {
            NodeId(b[0])
        }
        pub fn raw(&self) -> [u8; 32] {
            let mut r = [0; 32];
            r[0] = self.0;
            r
        }
    }
    impl NodeId {
        pub fn first(&self) -> u8 {
            self.raw()[0]
        }
    }
    impl fmt::Display for NodeId {
        fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
            Ok(())
        }
    }
}
pub use enr::NodeId;
/// A record: whose it is, and its sequence number.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Enr {
    pub id: NodeId,
    pub seq: u64,
}
impl Enr {
    pub fn node_id(&self) -> NodeId {
        self.id
    }
    pub fn seq(&self) -> u64 {
        self.seq
    }
}
impl fmt::Display for Enr {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Distance(pub u128, pub u128);
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Key<T> {
    preimage: T,
}
impl From<NodeId> for Key<NodeId> {
    fn from(n: NodeId) -> Self {
        Key { preimage: n }
    }
}
fn halves(b: &[u8; 32]) -> (u128, u128) {
    let (mut h, mut l) = ([0u8; 16], [0u8; 16]);
    h.copy_from_slice(&b[..16]);
    l.copy_from_slice(&b[16..]);
    (u128::from_be_bytes(h), u128::from_be_bytes(l))
}
impl Key<NodeId> {
    pub fn preimage(&self) -> &NodeId {
        &self.preimage
    }
    pub fn into_preimage(self) -> NodeId {
        self.preimage
    }
    pub fn distance(&self, other: &Key<NodeId>) -> Distance {
        #[cfg(kani)]
        return Distance(((self.preimage.0 ^ other.preimage.0) as u128) << 120, 0);
        let (a, b) = halves(&self.preimage.raw());
        let (c, d) = halves(&other.preimage.raw());
        Distance(a ^ c, b ^ d)
    }
    pub fn log2_distance(&self, other: &Key<NodeId>) -> Option<u64> {
        let Distance(h, l) = self.distance(other);
        if h != 0 {
            Some(256 - h.leading_zeros() as u64)
        } else if l != 0 {
            Some(128 - l.leading_zeros() as u64)
        } else {
            None
        }
    }
}
pub use kbucket::{ConnectionDirection, ConnectionState};
pub mod kbucket {
    use super::*;
    pub const MAX_NODES_PER_BUCKET: usize = 16;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum ConnectionState {
        Connected,
        Disconnected,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum ConnectionDirection {
        Incoming,
        Outgoing,
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct NodeStatus {
        pub direction: ConnectionDirection,
        pub state: ConnectionState,
    }
    impl NodeStatus {
        pub fn is_connected(&self) -> bool {
            self.state == ConnectionState::Connected
        }
        pub fn is_incoming(&self) -> bool {
            self.direction == ConnectionDirection::Incoming
        }
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum FailureReason {
        TooManyIncoming,
        BucketFilter,
        TableFilter,
        KeyNonExistant,
        BucketFull,
        InvalidSelfUpdate,
    }
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub enum InsertResult<K> {
        Inserted,
        Pending { disconnected: Key<K> },
        StatusUpdated { promoted_to_connected: bool },
        ValueUpdated,
        Updated { promoted_to_connected: bool },
        UpdatedPending,
        Failed(FailureReason),
    }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum UpdateResult {
        Updated,
        UpdatedAndPromoted,
        UpdatedPending,
        Failed(FailureReason),
        NotModified,
    }
    impl UpdateResult {
        pub fn failed(&self) -> bool {
            matches!(self, UpdateResult::Failed(_))
        }
    }
    pub struct Slot<V> {
        pub key: Key<NodeId>,
        pub value: V,
        pub status: NodeStatus,
        pub pending: bool,
    }
    struct Cell<V> {
        live: bool,
        slot: core::mem::MaybeUninit<Slot<V>>,
    }
    /// The stored peers, in order of insertion.
    pub struct Slots<'a, V> {
        cells: &'a [Cell<V>; CAP],
        at: usize,
    }
    impl<'a, V> Iterator for Slots<'a, V> {
        type Item = &'a Slot<V>;
        fn next(&mut self) -> Option<&'a Slot<V>> {
            while self.at < CAP {
                let c = &self.cells[self.at];
                self.at += 1;
                if c.live {
                    return Some(unsafe { c.slot.assume_init_ref() });
                }
            }
            None
        }
    }
    pub struct Entries<'a, V>(Slots<'a, V>);
    impl<'a, V> Iterator for Entries<'a, V> {
        type Item = EntryRefView<'a, V>;
        fn next(&mut self) -> Option<EntryRefView<'a, V>> {
            while let Some(s) = self.0.next() {
                if !s.pending {
                    return Some(EntryRefView { node: NodeRefView { key: &s.key, value: &s.value }, status: s.status });
                }
            }
            None
        }
    }
    #[cfg(kani)]
    pub const CAP: usize = 3;
    #[cfg(not(kani))]
    pub const CAP: usize = 16;
    pub struct KBucketsTable<K, V> {
        pub local: Key<K>,
        cells: [Cell<V>; CAP],
        /// Nodes whose insertion or update the filters refuse.
        pub refuse: Option<NodeId>,
    }
    pub struct NodeRefView<'a, V> {
        pub key: &'a Key<NodeId>,
        pub value: &'a V,
    }
    pub struct EntryRefView<'a, V> {
        pub node: NodeRefView<'a, V>,
        pub status: NodeStatus,
    }
    pub struct Present<'a, V>(&'a mut V);
    impl<V> Present<'_, V> {
        pub fn value(&self) -> &V {
            self.0
        }
    }
    pub struct Pending<'a, V>(&'a mut V);
    impl<V> Pending<'_, V> {
        pub fn value(&mut self) -> &mut V {
            self.0
        }
    }
    pub enum Entry<'a, K, V> {
        Present(Present<'a, V>, NodeStatus),
        Pending(Pending<'a, V>, NodeStatus),
        Absent(core::marker::PhantomData<K>),
        SelfEntry,
    }
    pub struct AppliedPending<K, V>(core::marker::PhantomData<(K, V)>);
    pub struct Bucket<'a, V>(Vec<&'a Slot<V>>);
    impl<'a, V> Bucket<'a, V> {
        pub fn iter(&self) -> impl Iterator<Item = &&'a Slot<V>> {
            self.0.iter()
        }
    }
    impl<V: PartialEq> KBucketsTable<NodeId, V> {
        pub fn new(local: Key<NodeId>) -> Self {
            Self { local, cells: [const { Cell { live: false, slot: core::mem::MaybeUninit::uninit() } }; CAP], refuse: None }
        }
        pub fn put(&mut self, x: Slot<V>) {
            let mut i = 0;
            while i < CAP {
                if !self.cells[i].live {
                    self.cells[i].slot.write(x);
                    self.cells[i].live = true;
                    return;
                }
                i += 1;
            }
            panic!("model capacity exceeded")
        }
        pub fn slots(&self) -> Slots<'_, V> {
            Slots { cells: &self.cells, at: 0 }
        }
        fn find(&mut self, k: &Key<NodeId>) -> Option<&mut Slot<V>> {
            let mut i = 0;
            while i < CAP {
                if self.cells[i].live && unsafe { self.cells[i].slot.assume_init_ref() }.key == *k {
                    return Some(unsafe { self.cells[i].slot.assume_init_mut() });
                }
                i += 1;
            }
            None
        }
        pub fn entry(&mut self, k: &Key<NodeId>) -> Entry<'_, NodeId, V> {
            if *k == self.local {
                return Entry::SelfEntry;
            }
            match self.find(k) {
                Some(s) => {
                    if s.pending { Entry::Pending(Pending(&mut s.value), s.status) } else { Entry::Present(Present(&mut s.value), s.status) }
                }
                None => Entry::Absent(core::marker::PhantomData),
            }
        }
        pub fn remove(&mut self, k: &Key<NodeId>) -> bool {
            let mut i = 0;
            while i < CAP {
                if self.cells[i].live && unsafe { self.cells[i].slot.assume_init_ref() }.key == *k {
                    self.cells[i].live = false;
                    return true;
                }
                i += 1;
            }
            false
        }
        pub fn update_node(&mut self, k: &Key<NodeId>, v: V, state: Option<ConnectionState>) -> UpdateResult {
            if *k == self.local {
                return UpdateResult::Failed(FailureReason::InvalidSelfUpdate);
            }
            if self.refuse == Some(*k.preimage()) && self.remove(k) {
                return UpdateResult::Failed(FailureReason::TableFilter);
            }
            match self.find(k) {
                Some(s) => {
                    let same = s.value == v;
                    core::mem::forget(core::mem::replace(&mut s.value, v));
                    match state {
                        Some(x) => {
                            s.status.state = x;
                            UpdateResult::Updated
                        }
                        None if same => UpdateResult::NotModified,
                        None if s.pending => UpdateResult::UpdatedPending,
                        None => UpdateResult::Updated,
                    }
                }
                None => UpdateResult::Failed(FailureReason::KeyNonExistant),
            }
        }
        pub fn update_node_status(&mut self, k: &Key<NodeId>, state: ConnectionState, direction: Option<ConnectionDirection>) -> UpdateResult {
            match self.find(k) {
                Some(s) => {
                    s.status.state = state;
                    if let Some(d) = direction {
                        s.status.direction = d;
                    }
                    UpdateResult::Updated
                }
                None => UpdateResult::Failed(FailureReason::KeyNonExistant),
            }
        }
        pub fn insert_or_update(&mut self, k: &Key<NodeId>, value: V, status: NodeStatus) -> InsertResult<NodeId> {
            if *k == self.local {
                return InsertResult::Failed(FailureReason::InvalidSelfUpdate);
            }
            if self.refuse == Some(*k.preimage()) {
                self.remove(k);
                return InsertResult::Failed(FailureReason::TableFilter);
            }
            match self.find(k) {
                Some(s) => {
                    core::mem::forget(core::mem::replace(&mut s.value, value));
                    s.status = status;
                    InsertResult::Updated { promoted_to_connected: false }
                }
                None => {
                    self.put(Slot { key: k.clone(), value, status, pending: false });
                    InsertResult::Inserted
                }
            }
        }
        pub fn iter(&mut self) -> Entries<'_, V> {
            Entries(self.slots())
        }
        pub fn nodes_by_distances(&mut self, distances: &[u64], max: usize) -> Vec<EntryRefView<'_, V>> {
            let mut out = Vec::with_capacity(16);
            for d in distances {
                for s in self.slots() {
                    if !s.pending && self.local.log2_distance(&s.key) == Some(*d) {
                        if out.len() >= max {
                            return out;
                        }
                        out.push(EntryRefView { node: NodeRefView { key: &s.key, value: &s.value }, status: s.status });
                    }
                }
            }
            out
        }
        pub fn buckets_iter(&self) -> impl Iterator<Item = Bucket<'_, V>> {
            (1..=256).map(|d| Bucket(self.slots().filter(|s| !s.pending && self.local.log2_distance(&s.key) == Some(d)).collect()))
        }
        pub fn take_applied_pending(&mut self) -> Option<AppliedPending<NodeId, V>> {
            None
        }
    }
}
