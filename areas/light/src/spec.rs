use crate::{
    config::{client_config::Config, ChainConfig, Fork, Forks},
    consensus::{
        body::SyncAggregate, consensus_client::contract, consensus_client::ConsensusLightClient, header::BeaconBlockHeader,
        rpc::ConsensusRpc, signature::BlsSignature, sync_committee::SyncCommittee, types::*,
    },
    light_client::store::LightClientStore,
};
use anyhow::{anyhow, Result};
use core::mem::forget;
use ssz_types::{typenum::*, BitVector, FixedVector};
use std::sync::Arc;

const GENESIS: u64 = 1606824023;
/// Slots in the verifier's clock-bound harnesses are compared with this "now".
const NOW: u64 = 20_000_000;

// ---- inputs ----------------------------------------------------------------------------------

fn word() -> B256 {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&nd::any::<u64>().to_le_bytes());
    B256::from(b)
}
fn words<const N: usize>() -> [B256; N] {
    let mut a = [B256::ZERO; N];
    let mut i = 0;
    while i < N {
        a[i] = word();
        i += 1;
    }
    a
}
/// Slots around a few period and fork boundaries natively; any for the verifier.
fn slot() -> u64 {
    #[cfg(kani)]
    {
        let s = nd::any::<u64>();
        nd::assume(s < 1 << 40);
        s
    }
    #[cfg(not(kani))]
    {
        let base = [NOW - 8192, NOW - 8192 - NOW % 8192 + 8192, NOW - NOW % 8192, NOW, NOW - 40, NOW - NOW % 32, 0];
        let b = base[nd::below(7)];
        (b + nd::below(6) as u64).saturating_sub(nd::below(3) as u64)
    }
}
fn header(slot: u64) -> BeaconBlockHeader {
    BeaconBlockHeader { slot, proposer_index: nd::any::<u16>() as u64, parent_root: word(), state_root: word(), body_root: word() }
}
fn committee() -> SyncCommittee {
    SyncCommittee::seeded([nd::any(), nd::any(), nd::any(), nd::any()])
}
#[derive(Clone)]
struct Update {
    att: BeaconBlockHeader,
    fin: Option<(BeaconBlockHeader, [B256; 7])>,
    next: Option<(SyncCommittee, [B256; 6])>,
    bits: [u128; 4],
    sig: [u8; 8],
    slot: u64,
}
/// The first `n` of 512 bits.
fn first(n: usize) -> [u128; 4] {
    let mut w = [0u128; 4];
    let mut i = 0;
    while i < 4 {
        let k = if n > 128 * i { n - 128 * i } else { 0 };
        w[i] = if k >= 128 { !0 } else { (1u128 << k) - 1 };
        i += 1;
    }
    w
}
fn count(bits: &[u128; 4]) -> u64 {
    (bits[0].count_ones() + bits[1].count_ones() + bits[2].count_ones() + bits[3].count_ones()) as u64
}
fn h(a: B256, b: B256) -> B256 {
    B256::from(uf::hash2(&a.0, &b.0))
}
fn fold(leaf: B256, branch: &[B256], index: usize) -> B256 {
    let mut x = leaf;
    let mut i = 0;
    while i < branch.len() {
        x = if (index >> i) & 1 == 1 { h(branch[i], x) } else { h(x, branch[i]) };
        i += 1;
    }
    x
}
/// Merkle root of a header: five chunks padded to eight.
fn header_root(x: &BeaconBlockHeader) -> B256 {
    let n = |v: u64| {
        let mut b = [0u8; 32];
        b[..8].copy_from_slice(&v.to_le_bytes());
        B256::from(b)
    };
    let z = h(B256::ZERO, B256::ZERO);
    let l = h(h(n(x.slot), n(x.proposer_index)), h(x.parent_root, x.state_root));
    h(l, h(h(x.body_root, B256::ZERO), z))
}
/// An update of the given kind (0 committee, 1 finality, 2 optimistic) whose claims are proven,
/// unless the state root is then replaced.
fn update(kind: usize, bits: [u128; 4], att: u64, fin: u64, sig_slot: u64) -> Update {
    let mut u = Update { att: header(att), fin: None, next: None, bits, sig: nd::any::<u64>().to_le_bytes(), slot: sig_slot };
    let f = header(fin);
    let mut fb: [B256; 7] = words();
    let c = committee();
    let mut cb: [B256; 6] = words();
    if kind == 0 {
        // both claims lie in the same state: their paths meet at generalised index 21
        let n42 = h(h(fb[0], header_root(&f)), fb[1]);
        let n43 = h(cb[0], c.tree_hash_root());
        fb[2] = n43;
        cb[1] = n42;
        let mut i = 2;
        while i < 6 {
            cb[i] = fb[i + 1];
            i += 1;
        }
    }
    if kind <= 1 {
        u.att.state_root = fold(header_root(&f), &fb, 41);
        u.fin = Some((f, fb));
    }
    if kind == 0 {
        u.next = Some((c, cb));
    }
    u
}
/// What an attacker may alter about the claims.
fn tamper(u: &mut Update) {
    match nd::below(8) {
        0 => u.att.state_root = word(),
        1 => {
            if let Some((f, _)) = &mut u.fin {
                f.body_root = word();
            }
        }
        2 => {
            if let Some((_, b)) = &mut u.fin {
                b[nd::below(7)] = word();
            }
        }
        3 => {
            if let Some((c, _)) = &mut u.next {
                *c = committee();
            }
        }
        4 => {
            if let Some((_, b)) = &mut u.next {
                b[nd::below(6)] = word();
            }
        }
        _ => {}
    }
}
fn lh(x: &BeaconBlockHeader) -> LightClientHeaderElectra {
    LightClientHeaderElectra { beacon: x.clone() }
}
fn aggregate(u: &Update) -> SyncAggregate {
    SyncAggregate { sync_committee_bits: BitVector::from_words(u.bits), sync_committee_signature: BlsSignature { signature: u.sig } }
}
fn full(u: &Update) -> LightClientUpdateElectra {
    let (f, fb) = u.fin.as_ref().unwrap();
    let (c, cb) = u.next.as_ref().unwrap();
    LightClientUpdateElectra {
        attested_header: lh(&u.att),
        next_sync_committee: c.clone(),
        next_sync_committee_branch: FixedVector::from(cb.to_vec()),
        finalized_header: lh(f),
        finality_branch: FixedVector::from(fb.to_vec()),
        sync_aggregate: aggregate(u),
        signature_slot: u.slot,
    }
}
fn finality(u: &Update) -> LightClientFinalityUpdateElectra {
    let (f, fb) = u.fin.as_ref().unwrap();
    LightClientFinalityUpdateElectra {
        attested_header: lh(&u.att),
        finalized_header: lh(f),
        finality_branch: FixedVector::from(fb.to_vec()),
        sync_aggregate: aggregate(u),
        signature_slot: u.slot,
    }
}
fn optimistic(u: &Update) -> LightClientOptimisticUpdateElectra {
    LightClientOptimisticUpdateElectra { attested_header: lh(&u.att), sync_aggregate: aggregate(u), signature_slot: u.slot }
}
fn config() -> Config {
    let mut c = Config::default();
    let e: [u64; 5] = {
        #[cfg(kani)]
        {
            [nd::any(), nd::any(), nd::any(), nd::any(), nd::any()]
        }
        #[cfg(not(kani))]
        {
            let b = NOW / 32 - 200;
            [b, b + 20, b + 20 + nd::below(3) as u64, NOW / 32 - nd::below(4) as u64, NOW / 32 + nd::below(2) as u64]
        }
    };
    nd::assume(e[0] <= e[1] && e[1] <= e[2] && e[2] <= e[3] && e[3] <= e[4]);
    let f = |i: u8, epoch: u64| Fork { epoch, fork_version: FixedBytes::new([i, 7, 3, 100 + i]) };
    c.forks = Forks { genesis: f(0, 0), altair: f(1, e[0]), bellatrix: f(2, e[1]), capella: f(3, e[2]), deneb: f(4, e[3]), electra: f(5, e[4]) };
    c.chain = ChainConfig { chain_id: 1, genesis_time: GENESIS, genesis_root: word() };
    c.max_checkpoint_age = 1_209_600;
    c
}
fn copy(c: &Config) -> Config {
    let mut d = Config::default();
    d.forks = c.forks.clone();
    d.chain = c.chain.clone();
    d.max_checkpoint_age = c.max_checkpoint_age;
    d.strict_checkpoint_age = c.strict_checkpoint_age;
    d
}
fn store(fin: u64, opt: u64, next: bool) -> LightClientStore {
    LightClientStore {
        finalized_header: header(fin),
        current_sync_committee: committee(),
        next_sync_committee: if next { Some(committee()) } else { None },
        optimistic_header: header(opt),
        previous_max_active_participants: nd::below(513) as u64,
        current_max_active_participants: nd::below(513) as u64,
    }
}

/// A server that answers with the given data.
#[derive(Clone)]
struct Rpc {
    bootstrap: Option<LightClientBootstrapElectra>,
    updates: Vec<LightClientUpdateElectra>,
    finality: Option<LightClientFinalityUpdateElectra>,
    optimistic: Option<LightClientOptimisticUpdateElectra>,
}
impl ConsensusRpc for Rpc {
    fn new(_: &str) -> Self {
        Rpc { bootstrap: None, updates: Vec::new(), finality: None, optimistic: None }
    }
    async fn get_bootstrap(&self, _: B256) -> Result<LightClientBootstrapElectra> {
        self.bootstrap.clone().ok_or(anyhow!("none"))
    }
    async fn get_updates(&self, _: u64, _: u8) -> Result<Vec<LightClientUpdateElectra>> {
        Ok(self.updates.clone())
    }
    async fn get_finality_update(&self) -> Result<LightClientFinalityUpdateElectra> {
        self.finality.clone().ok_or(anyhow!("none"))
    }
    async fn get_optimistic_update(&self) -> Result<LightClientOptimisticUpdateElectra> {
        self.optimistic.clone().ok_or(anyhow!("none"))
    }
    async fn chain_id(&self) -> Result<u64> {
        Ok(1)
    }
    fn name(&self) -> String {
        String::from("nimbus")
    }
}

// ---- specification ---------------------------------------------------------------------------

fn period(slot: u64) -> u64 {
    slot / 8192
}
/// Version of the fork the slot before the signature slot lies in.
fn version(c: &Config, signature_slot: u64) -> [u8; 4] {
    let s = if signature_slot == 0 { 0 } else { signature_slot - 1 };
    let f = &c.forks;
    let mut v = f.genesis.fork_version.0;
    for x in [&f.altair, &f.bellatrix, &f.capella, &f.deneb, &f.electra] {
        if s / 32 >= x.epoch {
            v = x.fork_version.0;
        }
    }
    v
}
fn signing_root(c: &Config, u: &Update) -> B256 {
    let mut v = [0u8; 32];
    v[..4].copy_from_slice(&version(c, u.slot));
    let fork = h(B256::from(v), c.chain.genesis_root);
    let mut domain = [0u8; 32];
    domain[0] = 7;
    domain[4..].copy_from_slice(&fork.0[..28]);
    h(header_root(&u.att), B256::from(domain))
}
fn accepts(c: &Config, s: &LightClientStore, u: &Update, now: u64) -> bool {
    let sp = period(s.finalized_header.slot);
    let up = period(u.slot);
    let fin = match &u.fin {
        Some((f, _)) => f.slot,
        None => 0,
    };
    let timing = now >= u.slot && u.slot > u.att.slot && u.att.slot >= fin;
    let in_period = up == sp || (s.next_sync_committee.is_some() && up == sp + 1);
    let supplies = s.next_sync_committee.is_none() && u.next.is_some() && period(u.att.slot) == sp;
    let relevant = u.att.slot > s.finalized_header.slot || supplies;
    let fin_ok = match &u.fin {
        Some((f, b)) => fold(header_root(f), b, 41) == u.att.state_root,
        None => true,
    };
    let next_ok = match &u.next {
        Some((x, b)) => fold(x.tree_hash_root(), b, 23) == u.att.state_root,
        None => true,
    };
    if !(count(&u.bits) > 0 && timing && in_period && relevant && fin_ok && next_ok && u.sig[0] != 0) {
        return false;
    }
    let committee = if up == sp { &s.current_sync_committee } else { s.next_sync_committee.as_ref().unwrap() };
    let mut keys = no_signers();
    let mut i = 0;
    while i < KEYS {
        if u.bits[i / 128] >> (i % 128) & 1 == 1 {
            keys = add_signer(keys, u64::from_le_bytes(committee.pubkeys[i].0));
        }
        i += 1;
    }
    signed(&signing_root(c, u).0, keys, &u.sig)
}
/// Store after a verified update.
fn applied(s: &LightClientStore, u: &Update) -> LightClientStore {
    let mut t = s.clone();
    let n = count(&u.bits);
    t.current_max_active_participants = s.current_max_active_participants.max(n);
    let threshold = t.current_max_active_participants.max(s.previous_max_active_participants) / 2;
    if n > threshold && u.att.slot > s.optimistic_header.slot {
        t.optimistic_header = u.att.clone();
    }
    let newer = match &u.fin {
        Some((f, _)) => f.slot > s.finalized_header.slot,
        None => false,
    };
    let supplies = match (&u.fin, &u.next) {
        (Some((f, _)), Some(_)) => s.next_sync_committee.is_none() && period(f.slot) == period(u.att.slot),
        _ => false,
    };
    if n * 3 >= 1024 && (newer || supplies) {
        let (f, _) = u.fin.as_ref().unwrap();
        if s.next_sync_committee.is_none() {
            t.next_sync_committee = u.next.as_ref().map(|x| x.0.clone());
        } else if period(f.slot) == period(s.finalized_header.slot) + 1 {
            t.current_sync_committee = s.next_sync_committee.clone().unwrap();
            t.next_sync_committee = u.next.as_ref().map(|x| x.0.clone());
            t.previous_max_active_participants = t.current_max_active_participants;
            t.current_max_active_participants = 0;
        }
        if newer {
            t.finalized_header = f.clone();
            if f.slot > t.optimistic_header.slot {
                t.optimistic_header = f.clone();
            }
        }
    }
    t
}

// ---- verification ----------------------------------------------------------------------------

fn set_clock(now: u64) {
    unsafe { std::clock::WALL = core::time::Duration::from_secs(GENESIS + now * 12 + 5) }
}
fn no_rpc() -> Rpc {
    Rpc { bootstrap: None, updates: Vec::new(), finality: None, optimistic: None }
}
fn verify<R: ConsensusRpc>(c: &ConsensusLightClient<R>, u: &Update) -> bool {
    let r = if u.next.is_some() {
        let x = full(u);
        let r = contract::verify_update(c, &x);
        forget(x);
        r
    } else if u.fin.is_some() {
        let x = finality(u);
        let r = contract::verify_finality_update(c, &x);
        forget(x);
        r
    } else {
        let x = optimistic(u);
        let r = contract::verify_optimistic_update(c, &x);
        forget(x);
        r
    };
    let ok = r.is_ok();
    forget(r);
    ok
}
fn apply<R: ConsensusRpc>(c: &mut ConsensusLightClient<R>, u: &Update) {
    if u.next.is_some() {
        let x = full(u);
        contract::apply_update(c, &x);
        forget(x);
    } else if u.fin.is_some() {
        let x = finality(u);
        contract::apply_finality_update(c, &x);
        forget(x);
    } else {
        let x = optimistic(u);
        contract::apply_optimistic_update(c, &x);
        forget(x);
    }
}
fn verified(kind: usize, bits: [u128; 4], next: bool) {
    uf::reset();
    set_clock(NOW);
    let s = store(slot(), slot(), next);
    let mut u = update(kind, bits, slot(), slot(), slot());
    // any state root; 0 keeps the proven one
    let t = nd::any::<u64>().to_le_bytes();
    let mut i = 0;
    while i < 8 {
        u.att.state_root.0[i] ^= t[i];
        i += 1;
    }
    let conf = config();
    let want = accepts(&conf, &s, &u, NOW);
    let c = contract::client(no_rpc(), s, B256::ZERO, Arc::new(copy(&conf)));
    let got = verify(&c, &u);
    nd::cover!(got, "P12.accept: no update is accepted");
    assert!(!got || want, "P12.sound: update accepted although a condition fails");
    assert!(got || !want, "P12.complete: update refused although every condition holds");
    forget((c, u, conf));
}
fn started() {
    uf::reset();
    set_clock(NOW);
    let conf = config();
    let head = {
        let s = slot();
        nd::assume(s <= NOW);
        header(s)
    };
    let c = committee();
    let branch: [B256; 6] = words();
    let checkpoint = if nd::any() { header_root(&head) } else { word() };
    let mut head = head;
    if nd::any() {
        head.state_root = fold(c.tree_hash_root(), &branch, 22);
    }
    let checkpoint = if nd::any() { header_root(&head) } else { checkpoint };
    let want = header_root(&head) == checkpoint && fold(c.tree_hash_root(), &branch, 22) == head.state_root;
    let b = LightClientBootstrapElectra { header: lh(&head), current_sync_committee: c.clone(), current_sync_committee_branch: FixedVector::from(branch.to_vec()) };
    let mut rpc = no_rpc();
    rpc.bootstrap = Some(b);
    let mut client = contract::client(rpc, LightClientStore::default(), checkpoint, Arc::new(copy(&conf)));
    let r = tokio::run(contract::bootstrap(&mut client));
    let st = contract::store(&client);
    assert!(r.is_ok() == want, "P12.start: store started from an unproven header, or a proven one refused");
    if want {
        assert!(st.finalized_header == head && st.optimistic_header == head && st.current_sync_committee == c && st.next_sync_committee.is_none(), "P12.start: store does not hold the proven header and committee");
    } else {
        assert!(*st == LightClientStore::default(), "P12.start: store changed by a refused start");
    }
    forget((r, client, conf, c, head));
}

// ---- application -----------------------------------------------------------------------------

/// The conditions a verified update is known to satisfy (decided in P12), with the store invariant.
fn assume_verified(s: &LightClientStore, u: &Update) {
    let sp = period(s.finalized_header.slot);
    let up = period(u.slot);
    let fin = match &u.fin {
        Some((f, _)) => f.slot,
        None => 0,
    };
    nd::assume(u.slot > u.att.slot && u.att.slot >= fin && u.slot <= NOW);
    nd::assume(up == sp || (s.next_sync_committee.is_some() && up == sp + 1));
    let supplies = s.next_sync_committee.is_none() && u.next.is_some() && period(u.att.slot) == sp;
    nd::assume(u.att.slot > s.finalized_header.slot || supplies);
    nd::assume(s.optimistic_header.slot >= s.finalized_header.slot);
}
fn check_applied(s: &LightClientStore, u: &Update, t: &LightClientStore) {
    let n = count(&u.bits);
    assert!(t.finalized_header.slot >= s.finalized_header.slot && t.optimistic_header.slot >= s.optimistic_header.slot, "P13.monotone: a slot was lowered");
    assert!(t.optimistic_header.slot >= t.finalized_header.slot, "P13.order: optimistic header older than the finalized one");
    if n * 3 < 1024 {
        assert!(
            t.finalized_header == s.finalized_header && t.current_sync_committee == s.current_sync_committee && t.next_sync_committee == s.next_sync_committee,
            "P13.majority: finality or committees changed without two thirds"
        );
    }
    let w = applied(s, u);
    assert!(t.finalized_header == w.finalized_header, "P13.finalized: finalized header is not the newest verified one");
    assert!(t.optimistic_header == w.optimistic_header, "P13.optimistic: optimistic header moved against the safety threshold");
    assert!(t.current_sync_committee == w.current_sync_committee && t.next_sync_committee == w.next_sync_committee, "P13.rotate: committees changed other than by rotation");
    assert!(
        t.current_max_active_participants == w.current_max_active_participants && t.previous_max_active_participants == w.previous_max_active_participants,
        "P13.participants: record of participation wrong"
    );
    forget(w);
}
fn apply_one(kind: usize, n: usize, next: bool) {
    uf::reset();
    set_clock(NOW);
    let s = store(slot(), slot(), next);
    let mut u = Update { att: header(slot()), fin: None, next: None, bits: first(n), sig: [1; 8], slot: slot() };
    if kind <= 1 {
        u.fin = Some((header(slot()), [B256::ZERO; 7]));
    }
    if kind == 0 {
        u.next = Some((committee(), [B256::ZERO; 6]));
    }
    assume_verified(&s, &u);
    let mut c = contract::client(no_rpc(), s.clone(), B256::ZERO, Arc::new(Config::default()));
    apply(&mut c, &u);
    check_applied(&s, &u, contract::store(&c));
    forget((c, u, s));
}

// ---- histories, natively ---------------------------------------------------------------------

#[cfg(not(kani))]
fn random_update() -> Update {
    let n = [0, 1, 2, 170, 256, 341, 342, 343, 511, 512][nd::below(10)];
    let mut bits = first(n);
    if nd::any() {
        bits.swap(nd::below(4), nd::below(4));
    }
    if nd::below(8) == 0 {
        bits[nd::below(4)] ^= nd::any::<u128>();
    }
    let base = slot();
    let fin = if nd::below(4) == 0 { slot() } else { base };
    let att = if nd::below(4) == 0 { slot() } else { base + nd::below(40) as u64 };
    let sig = if nd::below(6) == 0 { slot() } else { att + nd::below(3) as u64 };
    let mut u = update(nd::below(3), bits, att, fin, sig);
    tamper(&mut u);
    u
}
#[cfg(not(kani))]
fn verify_native() {
    uf::reset();
    let now = NOW - nd::below(3) as u64;
    set_clock(now);
    let f = slot();
    let s = store(f, f + nd::below(70) as u64, nd::any());
    let u = random_update();
    let conf = config();
    let want = accepts(&conf, &s, &u, now);
    let c = contract::client(no_rpc(), s, B256::ZERO, Arc::new(copy(&conf)));
    let got = verify(&c, &u);
    nd::cover!(got, "P12.accept: no update is accepted");
    assert!(!got || want, "P12.sound: update accepted although a condition fails");
    assert!(got || !want, "P12.complete: update refused although every condition holds");
}
#[cfg(not(kani))]
fn of_kind(k: usize) -> Update {
    let mut u = random_update();
    if k == 1 {
        while u.fin.is_none() || u.next.is_some() {
            u = random_update();
        }
    } else if k == 2 {
        while u.fin.is_some() {
            u = random_update();
        }
    } else {
        while u.next.is_none() {
            u = random_update();
        }
    }
    u
}
/// A round of updates from a server: only those that verify take effect, in order.
#[cfg(not(kani))]
fn rounds_native(pid: &str) {
    uf::reset();
    set_clock(NOW);
    let f = slot();
    let mut model = store(f, f + nd::below(70) as u64, nd::any());
    let conf = config();
    let mut rpc = no_rpc();
    let boot = nd::below(3) == 0;
    let mut checkpoint = B256::ZERO;
    if boot {
        let c = committee();
        let branch: [B256; 6] = words();
        let mut head = header(NOW - nd::below(9000) as u64);
        head.state_root = fold(c.tree_hash_root(), &branch, 22);
        checkpoint = header_root(&head);
        rpc.bootstrap = Some(LightClientBootstrapElectra { header: lh(&head), current_sync_committee: c.clone(), current_sync_committee_branch: FixedVector::from(branch.to_vec()) });
        model = LightClientStore {
            finalized_header: head.clone(), optimistic_header: head, current_sync_committee: c, next_sync_committee: None,
            previous_max_active_participants: 0, current_max_active_participants: 0,
        };
    }
    let n = nd::below(3);
    let ups: Vec<Update> = (0..n).map(|_| of_kind(0)).collect();
    let fin = if nd::below(4) > 0 { Some(of_kind(1)) } else { None };
    let opt = if nd::below(6) > 0 { Some(of_kind(2)) } else { None };
    rpc.updates = ups.iter().map(full).collect();
    rpc.finality = fin.as_ref().map(finality);
    rpc.optimistic = opt.as_ref().map(optimistic);
    let mut client = contract::client(rpc, if boot { LightClientStore::default() } else { model.clone() }, checkpoint, Arc::new(copy(&conf)));
    let before = model.clone();
    let mut ok = true;
    if boot {
        for u in &ups {
            ok = ok && accepts(&conf, &model, u, NOW);
            if ok {
                model = applied(&model, u);
            }
        }
    }
    for u in [&fin, &opt].into_iter().flatten() {
        ok = ok && accepts(&conf, &model, u, NOW);
        if ok {
            model = applied(&model, u);
        }
    }
    ok = ok && opt.is_some();
    if !boot && ok && model.next_sync_committee.is_none() && ups.len() == 1 && accepts(&conf, &model, &ups[0], NOW) {
        model = applied(&model, &ups[0]);
    }
    let r = if boot { tokio::run(client.sync()) } else { tokio::run(client.advance()) };
    let st = contract::store(&client);
    if pid == "P12" {
        assert!(r.is_ok() == ok, "P12.round: a failing update was not reported, or a good round failed");
        assert!(*st == model, "P12.round: the store holds something other than the verified updates");
    } else {
        assert!(st.finalized_header.slot >= before.finalized_header.slot && st.optimistic_header.slot >= before.optimistic_header.slot, "P13.monotone: a slot was lowered");
        assert!(*st == model, "P13.history: store is not the result of the verified updates");
    }
}
#[cfg(not(kani))]
fn apply_native() {
    uf::reset();
    set_clock(NOW);
    let f = slot();
    let mut s = store(f, f + nd::below(70) as u64, nd::any());
    s.optimistic_header.slot = s.optimistic_header.slot.min(NOW);
    s.finalized_header.slot = s.finalized_header.slot.min(s.optimistic_header.slot);
    let mut c = contract::client(no_rpc(), s.clone(), B256::ZERO, Arc::new(Config::default()));
    let mut applied_any = false;
    for _ in 0..6 {
        let u = random_update();
        let sp = period(s.finalized_header.slot);
        let up = period(u.slot);
        let fin = u.fin.as_ref().map_or(0, |f| f.0.slot);
        let ok = u.slot > u.att.slot && u.att.slot >= fin && u.slot <= NOW
            && (up == sp || (s.next_sync_committee.is_some() && up == sp + 1))
            && (u.att.slot > s.finalized_header.slot || (s.next_sync_committee.is_none() && u.next.is_some() && period(u.att.slot) == sp));
        if ok {
            apply(&mut c, &u);
            check_applied(&s, &u, contract::store(&c));
            s = contract::store(&c).clone();
            applied_any = true;
        }
    }
    nd::cover!(applied_any, "P13.apply: no update is ever applied");
}

nd::harnesses! {
    fn p12_full_known(unwind = 514) { verified(0, first(2), true) }
    fn p12_full_unknown(unwind = 514) { verified(0, [0b0101, 0, 0, 0], false) }
    fn p12_finality_known(unwind = 514) { verified(1, [0b1000, 0, 0, 0], true) }
    fn p12_finality_unknown(unwind = 514) { verified(1, first(1), false) }
    fn p12_optimistic_known(unwind = 514) { verified(2, first(3), true) }
    fn p12_optimistic_unknown(unwind = 514) { verified(2, [0b0010, 0, 0, 0], false) }
    fn p12_start(unwind = 16) { started() }
    fn p12_native(unwind = 1) { #[cfg(not(kani))] verify_native() }
    fn p12_rounds(unwind = 1) { #[cfg(not(kani))] rounds_native("P12") }
    fn p13_full_known(unwind = 514) { apply_one(0, 342, true) }
    fn p13_full_unknown(unwind = 514) { apply_one(0, 342, false) }
    fn p13_full_minority(unwind = 514) { apply_one(0, 341, true) }
    fn p13_full_minority_unknown(unwind = 514) { apply_one(0, 341, false) }
    fn p13_finality_known(unwind = 514) { apply_one(1, 512, true) }
    fn p13_finality_unknown(unwind = 514) { apply_one(1, 342, false) }
    fn p13_finality_minority(unwind = 514) { apply_one(1, 200, true) }
    fn p13_optimistic(unwind = 514) { apply_one(2, 100, true) }
    fn p13_optimistic_all(unwind = 514) { apply_one(2, 512, false) }
    fn p13_native(unwind = 1) { #[cfg(not(kani))] apply_native() }
    fn p13_rounds(unwind = 1) { #[cfg(not(kani))] rounds_native("P13") }
}
