#![allow(dead_code, unused_imports, clippy::all)]
extern crate self as ethportal_api;
extern crate vstd as std;

pub mod gossip {
    #[path = "/repo/crates/portalnet/src/gossip/neighborhood.rs"]
    pub mod neighborhood;
}
pub mod types {
    #[path = "/repo/crates/ethportal-api/src/types/distance.rs"]
    pub mod distance;
    /// The routing table by its contract only (its own code is judged in the area `net`): it names the peers interested
    /// in each content.
    pub mod kbucket {
        use crate::types::distance::Metric;
        use discv5::Enr;
        use std::collections::HashMap;
        pub struct SharedKBucketsTable(pub [Vec<Enr>; 2]);
        impl SharedKBucketsTable {
            pub fn batch_interested_enrs<'id, M: Metric>(&self, ids: &[&'id [u8; 32]]) -> HashMap<&'id [u8; 32], Vec<Enr>> {
                assert!(ids.len() <= 2, "P24.asked-once: peers are asked for content that is not to be sent");
                let mut r = HashMap::new();
                let mut i = 0;
                while i < ids.len() {
                    r.insert(ids[i], self.0[i].clone());
                    i += 1;
                }
                r
            }
        }
    }
}
pub trait OverlayContentKey: Clone + core::fmt::Debug + PartialEq + Eq + core::hash::Hash {
    fn to_bytes(&self) -> alloy::primitives::Bytes {
        Default::default()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Content(pub u8);
impl OverlayContentKey for Content {}

use alloy::primitives::U256;
use core::mem::forget;
use discv5::{Enr, NodeId};
use types::{
    distance::{Distance, Metric},
    kbucket::SharedKBucketsTable,
};

fn id(b: u8) -> NodeId {
    let mut r = [0u8; 32];
    r[0] = b;
    NodeId::new(&r)
}
struct First;
impl Metric for First {
    fn distance(x: &[u8; 32], y: &[u8; 32]) -> Distance {
        Distance::from(U256::from((x[0] ^ y[0]) as u64))
    }
}
fn peers<const N: usize>(ids: &[u8; N]) -> Vec<Enr> {
    let mut v = Vec::with_capacity(16);
    let mut i = 0;
    while i < N {
        v.push(Enr { id: id(ids[i]), seq: 0 });
        i += 1;
    }
    v
}
/// One content, with exactly these interested peers.
fn chosen<const N: usize>(c: u8, ids: [u8; N]) {
    let t = SharedKBucketsTable([peers(&ids), Vec::new()]);
    let mut ic = [0u8; 32];
    ic[0] = c;
    let key = Content(0);
    let got = gossip::neighborhood::gossip_recipients::<Content, First>(vec![(&ic, &key)], &t);
    let mut n = 0;
    let mut i = 0;
    while i < N {
        let mut before = 0;
        let mut j = 0;
        while j < N {
            before += (ids[j] ^ c < ids[i] ^ c) as usize;
            j += 1;
        }
        match got.get(&Enr { id: id(ids[i]), seq: 0 }) {
            Some(l) => {
                assert!(l.len() == 1 && l[0][0] == c, "P24.content: other content is sent, or the same twice");
                n += 1;
            }
            None => {
                assert!(N > 8, "P24.everyone: an interested peer is left out though there are at most eight");
                assert!(before >= 4, "P24.closest: one of the four closest peers is left out");
            }
        }
        i += 1;
    }
    assert!(n == if N < 8 { N } else { 8 }, "P24.count: not the right number of peers is chosen");
    assert!(got.len() == n, "P24.only-interested: content goes to a peer that is not interested");
    forget((t, got));
}
/// Two contents: each goes to its own peers, one message per peer.
fn both() {
    let t = SharedKBucketsTable([peers(&[1, 2]), peers(&[2, 3])]);
    let (mut a, mut b) = ([0u8; 32], [0u8; 32]);
    a[0] = 0x11;
    b[0] = 0x22;
    let key = Content(0);
    let got = gossip::neighborhood::gossip_recipients::<Content, First>(vec![(&a, &key), (&b, &key)], &t);
    let get = |p: u8| match got.get(&Enr { id: id(p), seq: 0 }) {
        Some(l) => {
            let mut m = 0;
            let mut i = 0;
            while i < l.len() {
                m |= match l[i][0] {
                    0x11 => 1,
                    0x22 => 2,
                    _ => 4,
                };
                i += 1;
            }
            (l.len(), m)
        }
        None => (0, 0),
    };
    assert!(get(1) == (1, 1) && get(3) == (1, 2), "P24.both-own: content goes to a peer that is not interested in it");
    assert!(get(2) == (2, 3), "P24.both-shared: a peer interested in two contents does not get both once");
    assert!(got.len() == 3, "P24.both-others: another peer is chosen");
    forget((t, got));
}
nd::harnesses! {
    fn p24_none(unwind = 34) { chosen(7, []) }
    fn p24_one(unwind = 34) { chosen(7, [9]) }
    fn p24_two(unwind = 34) { chosen(7, [9, 1]) }
    fn p24_sizes(unwind = 2) {
        #[cfg(not(kani))]
        {
            chosen(7, [9, 1, 200]);
            chosen(7, [9, 1, 200, 4, 3, 250, 16, 90]);
            chosen(7, [9, 1, 200, 4, 3, 250, 16, 90, 7]);
            chosen(0xf0, [250, 240, 230, 1, 2, 3, 128, 127, 60, 33, 90, 5]);
            both();
        }
    }
}
