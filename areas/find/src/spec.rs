/// What an observer of a lookup knows of a peer.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Seen {
    Unknown,
    Candidate,
    Asked,
    Answered,
    Failed,
}
/// What an observer of a lookup knows; peers are numbered by distance.
struct Watch<const U: usize> {
    seen: [Seen; U],
    /// When the request to a peer counts as unanswered.
    due: [u64; U],
    now: u64,
    par: usize,
    res: usize,
    /// Answers in a row that may not have been progress, and that were none.
    maybe_idle: usize,
    idle: usize,
    finished: bool,
}
fn secs(t: u64) -> Instant {
    #[cfg(kani)]
    return Instant(t);
    #[cfg(not(kani))]
    vstd::clock::Instant(Duration::from_secs(t))
}
const WAIT: u64 = 3;
fn config(par: usize, res: usize) -> QueryConfig {
    QueryConfig { parallelism: par, num_results: res, peer_timeout: Duration::from_secs(WAIT), overall_timeout: Duration::from_secs(9) }
}
impl<const U: usize> Watch<U> {
    fn new(par: usize, res: usize) -> Self {
        Watch { seen: [Seen::Unknown; U], due: [0; U], now: 0, par, res, maybe_idle: 0, idle: 0, finished: false }
    }
    fn count(&self, f: impl Fn(usize) -> bool) -> usize {
        let (mut i, mut c) = (0, 0);
        while i < U {
            if f(i) {
                c += 1;
            }
            i += 1;
        }
        c
    }
    /// Requests without answer, whether or not overdue.
    fn open(&self) -> usize {
        self.count(|i| self.seen[i] == Seen::Asked)
    }
    /// Requests without answer that are not overdue.
    fn live(&self) -> usize {
        self.count(|i| self.seen[i] == Seen::Asked && self.due[i] > self.now)
    }
    fn known(&self) -> usize {
        self.count(|i| self.seen[i] != Seen::Unknown)
    }
    fn uncontacted(&self) -> usize {
        self.count(|i| self.seen[i] == Seen::Candidate)
    }
    /// Whether the closest candidates that have not failed or run late, as many as results are wanted, have all answered.
    fn satisfied(&self) -> bool {
        let (mut i, mut c) = (0, 0);
        let (mut gap, mut done) = (false, false);
        while i < U {
            match self.seen[i] {
                Seen::Answered => {
                    c += 1;
                    done = done || !gap && c >= self.res;
                }
                Seen::Candidate => gap = true,
                Seen::Asked => gap = gap || self.due[i] > self.now,
                _ => {}
            }
            i += 1;
        }
        done
    }
    /// Largest and smallest allowance of simultaneous requests: another one once nothing new is learned.
    fn most(&self) -> usize {
        if self.idle >= self.par || self.maybe_idle >= self.par && self.res > self.par {
            self.res
        } else {
            self.par
        }
    }
    fn least(&self) -> usize {
        if self.idle >= self.par || self.maybe_idle >= self.par && self.res < self.par {
            self.res
        } else {
            self.par
        }
    }
    /// Whether the peer is the closest candidate not contacted.
    fn next(&self, p: usize) -> bool {
        let mut i = 0;
        let mut ok = true;
        while i < U {
            ok = ok && !(i < p && self.seen[i] == Seen::Candidate);
            i += 1;
        }
        ok
    }
    fn contact(&mut self, p: usize) {
        self.seen[p] = Seen::Asked;
        self.due[p] = self.now + WAIT;
    }
    /// Whether an answer or failure of the peer is taken into account.
    fn expects(&self, p: usize) -> bool {
        !self.finished && self.seen[p] == Seen::Asked
    }
    /// The peers named in an answer become candidates.
    fn learn(&mut self, r: &[Id]) {
        let before = self.known();
        let mut first = 0;
        while first < U && self.seen[first] == Seen::Unknown {
            first += 1;
        }
        let (mut new, mut closer, mut last_closer) = (false, false, false);
        let mut i = 0;
        while i < r.len() {
            let p = r[i].0 as usize;
            if self.seen[p] == Seen::Unknown {
                self.seen[p] = Seen::Candidate;
                new = true;
            }
            closer = closer || p <= first;
            last_closer = p < first;
            if p < first {
                first = p;
            }
            i += 1;
        }
        // Progress for certain: a new peer while too few are known, or the closest peer so far.
        let sure = new && before < self.res || last_closer;
        // Certainly none: no peer at all, or enough known and none as close as the closest so far.
        let none = r.len() == 0 || before >= self.res && !closer;
        self.maybe_idle = if sure { 0 } else { self.maybe_idle + 1 };
        self.idle = if none { self.idle + 1 } else { 0 };
    }
}

/// The answer of a peer: up to two peers, chosen freely.
fn answer<const U: usize>() -> ([Id; 2], usize) {
    ([Id(nd::below(U) as u8), Id(nd::below(U) as u8)], nd::below(3))
}
/// `k` first elements in an allocation of constant size.
fn first<T: Copy>(a: [T; 2], k: usize) -> Vec<T> {
    let b: Box<[T]> = Box::new(a);
    let mut v = b.into_vec();
    unsafe { v.set_len(k) };
    v
}
fn node_poll<const U: usize>(q: &mut FindNodeQuery<Id>, w: &mut Watch<U>) {
    let done = w.satisfied();
    let over = w.uncontacted() == 0 && w.live() == 0;
    match q.poll(secs(w.now)) {
        QueryState::Waiting(Some(Id(p))) => {
            let p = p as usize;
            assert!(!w.finished, "P21.finished: contacts a peer after the end");
            assert!(!done, "P21.enough: contacts a peer although the closest ones have answered");
            assert!(p < U && w.seen[p] != Seen::Unknown, "P21.candidate: contacts a peer nobody named");
            assert!(w.seen[p] == Seen::Candidate, "P21.once: contacts a peer again");
            assert!(w.next(p), "P21.closest-first: contacts another peer than the closest candidate");
            assert!(w.live() < w.most(), "P21.parallelism: more requests at a time than allowed");
            w.contact(p);
        }
        QueryState::Waiting(None) => {
            assert!(!w.finished && !done && !over, "P21.ends: waits although the lookup is complete");
            assert!(w.uncontacted() == 0 && w.live() > 0, "P21.idle: waits although there is a candidate to contact");
        }
        QueryState::WaitingAtCapacity => {
            assert!(!w.finished && !done && !over, "P21.ends: waits although the lookup is complete");
            assert!(w.open() >= w.least(), "P21.capacity: waits although another request is allowed");
        }
        QueryState::Validating(_) => assert!(false, "P21.validating: validates content"),
        QueryState::Finished => {
            assert!(w.finished || done || over, "P21.complete: ends before the closest candidates have answered");
            w.finished = true;
        }
    }
}
fn node_result<const U: usize>(q: FindNodeQuery<Id>, w: &Watch<U>) {
    let r = q.into_result();
    let (mut i, mut k) = (0, 0);
    while i < U {
        if w.seen[i] == Seen::Answered && k < w.res {
            assert!(k < r.len() && r[k] == Id(i as u8), "P21.result: not the closest peers that answered, closest first");
            k += 1;
        }
        i += 1;
    }
    assert!(r.len() == k, "P21.result-len: more peers than those that answered");
    forget(r);
}
/// `K` events in any order, then the result; candidates at first are those of `init`.
#[cfg(not(kani))]
fn nodes<const U: usize, const K: usize, const I: usize>(par: usize, res: usize, init: [u8; I]) {
    let mut w: Watch<U> = Watch::new(par, res);
    for i in init {
        w.seen[i as usize] = Seen::Candidate;
    }
    let mut q = FindNodeQuery::with_config(config(par, res), target(), init.into_iter().map(|i| Id(i).into()));
    let mut k = 0;
    while k < K {
        let mut p = nd::below(U);
        if nd::below(8) > 0 {
            // Mostly a peer that has been asked.
            p = (0..U).map(|i| (p + i) % U).find(|i| w.seen[*i] == Seen::Asked).unwrap_or(p);
        }
        match nd::below(8) {
            0..=3 => {
                w.now += [0, 0, 0, 1, 3][nd::below(5)];
                node_poll(&mut q, &mut w);
            }
            4..=6 => {
                let (a, n) = answer::<U>();
                q.on_success(&Id(p as u8), first(a, n));
                if w.expects(p) {
                    w.seen[p] = Seen::Answered;
                    w.learn(&a[..n]);
                }
            }
            _ => {
                q.on_failure(&Id(p as u8));
                if w.expects(p) {
                    w.seen[p] = Seen::Failed;
                }
            }
        }
        k += 1;
    }
    node_result(q, &w);
}
/// The peer answers, naming up to two peers if `names`.
fn node_answer<const U: usize>(q: &mut FindNodeQuery<Id>, w: &mut Watch<U>, p: usize, names: bool) {
    let (a, n) = if names { answer::<U>() } else { ([Id(0); 2], 0) };
    q.on_success(&Id(p as u8), first(a, n));
    if w.expects(p) {
        w.seen[p] = Seen::Answered;
        w.learn(&a[..n]);
    }
}
/// The peer answers, naming up to two peers if `names`, fails, or nothing happens.
fn node_event<const U: usize>(q: &mut FindNodeQuery<Id>, w: &mut Watch<U>, p: usize, names: bool) {
    match nd::below(3) {
        0 => {}
        1 => node_answer(q, w, p, names),
        _ => {
            q.on_failure(&Id(p as u8));
            if w.expects(p) {
                w.seen[p] = Seen::Failed;
            }
        }
    }
}
/// A lookup from the candidates `init`, through the steps of `script`:
/// * `P`: some time passes and the lookup goes on;
/// * `F`: every peer answers (naming nobody), fails or does neither;
/// * `E`: any peer answers, naming up to two peers, or fails;
/// * `R`: the result is taken.
/// The answer is whether it has ended.
fn nodes_script<const U: usize, const I: usize>(par: usize, res: usize, init: [u8; I], script: &[u8]) -> bool {
    let mut w: Watch<U> = Watch::new(par, res);
    for i in init {
        w.seen[i as usize] = Seen::Candidate;
    }
    let mut q = FindNodeQuery::with_config(config(par, res), target(), init.into_iter().map(|i| Id(i).into()));
    let mut k = 0;
    while k < script.len() {
        match script[k] {
            b'P' => {
                if k > 1 {
                    w.now += nd::below(5) as u64;
                }
                node_poll(&mut q, &mut w)
            }
            b'F' => {
                let mut i = 0;
                while i < U {
                    node_event(&mut q, &mut w, i, false);
                    i += 1;
                }
            }
            b'E' => node_event(&mut q, &mut w, nd::below(U), true),
            _ => {
                node_result(q, &w);
                return w.finished;
            }
        }
        k += 1;
    }
    forget(q);
    w.finished
}

/// What a peer supplied: nothing, content, or an offer to transfer it.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Gave {
    Nothing,
    Content(u16),
    Offer(u16),
}
/// What an observer of a content lookup knows besides.
struct Contents<const U: usize> {
    gave: [Gave; U],
    /// Supplied and not yet validated.
    queued: [bool; U],
    /// Being validated, and the verdict sent but not yet seen by the lookup.
    validating: Option<usize>,
    verdict: Option<bool>,
    tx: Option<Sender<Option<ValidatedContent<Id>>>>,
    /// Who supplied the content found valid.
    found: Option<usize>,
}
fn content_poll<const U: usize>(q: &mut FindContentQuery<Id>, w: &mut Watch<U>, c: &mut Contents<U>) {
    let r = q.poll(secs(w.now));
    if w.finished {
        assert!(r == QueryState::Finished, "P22.finished: goes on after the end");
        return;
    }
    match c.verdict.take() {
        Some(true) => {
            assert!(r == QueryState::Finished, "P22.found: goes on although content was found valid");
            w.finished = true;
            c.found = c.validating.take();
            return;
        }
        Some(false) => c.validating = None,
        None => {}
    }
    let mut queue = false;
    let mut i = 0;
    while i < U {
        queue = queue || c.queued[i];
        i += 1;
    }
    let over = w.uncontacted() == 0 && w.live() == 0;
    match r {
        QueryState::Validating(Id(p)) => {
            let p = p as usize;
            assert!(p < U && c.gave[p] != Gave::Nothing, "P22.supplied: validates content of a peer that supplied none");
            assert!(c.queued[p], "P22.validated-once: validates the same content again");
            assert!(c.validating.is_none(), "P22.one-at-a-time: validates content while other content is being validated");
            c.queued[p] = false;
            c.validating = Some(p);
            content_pending(q, w, c, p);
        }
        QueryState::Waiting(Some(Id(p))) => {
            let p = p as usize;
            assert!(c.validating.is_none() && !queue, "P22.validate-first: contacts a peer although content is to be validated");
            assert!(p < U && w.seen[p] != Seen::Unknown, "P22.candidate: contacts a peer nobody named");
            assert!(w.seen[p] == Seen::Candidate, "P22.once: contacts a peer again");
            assert!(w.next(p), "P22.closest-first: contacts another peer than the closest candidate");
            assert!(w.live() < w.most(), "P22.parallelism: more requests at a time than allowed");
            w.contact(p);
        }
        QueryState::Waiting(None) => {
            assert!(!queue || c.validating.is_some(), "P22.validates: waits although content is to be validated");
            assert!(c.validating.is_some() || w.uncontacted() == 0 && w.live() > 0, "P22.idle: waits although there is a candidate to contact, or none to wait for");
        }
        QueryState::WaitingAtCapacity => {
            assert!(!queue || c.validating.is_some(), "P22.validates: waits although content is to be validated");
            assert!(c.validating.is_some() || !over && w.open() >= w.least(), "P22.capacity: waits although another request is allowed, or the lookup is complete");
        }
        QueryState::Finished => {
            assert!(c.validating.is_none() && !queue, "P22.dropped: ends without validating content it was given");
            assert!(over, "P22.exhausted: ends without content before every candidate was tried");
            w.finished = true;
        }
    }
}
/// What the lookup hands out for validation.
fn content_pending<const U: usize>(q: &FindContentQuery<Id>, w: &Watch<U>, c: &mut Contents<U>, p: usize) {
    let (poke, tx) = match q.pending_validation_result(Id(p as u8)) {
        FindContentQueryPending::PendingContent { content, nodes_to_poke, peer, valid_content_tx } => {
            assert!(peer == Id(p as u8) && c.gave[p] == Gave::Content(content.0), "P22.pending: not the content the peer supplied");
            (nodes_to_poke, valid_content_tx)
        }
        FindContentQueryPending::Utp { connection_id, nodes_to_poke, peer, valid_content_tx } => {
            assert!(peer == Id(p as u8) && c.gave[p] == Gave::Offer(connection_id), "P22.pending-offer: not the offer the peer made");
            (nodes_to_poke, valid_content_tx)
        }
        FindContentQueryPending::NonePending => {
            assert!(false, "P22.pending-none: content supplied by the peer is lost");
            return;
        }
    };
    #[cfg(not(kani))]
    {
        let want: Vec<Id> = (0..U).filter(|i| *i != p && w.seen[*i] == Seen::Answered).map(|i| Id(i as u8)).take(w.res).collect();
        assert!(poke == want, "P22.poke: not the closest other peers that answered");
    }
    let _ = w;
    forget(poke);
    forget(core::mem::replace(&mut c.tx, Some(tx)));
}
/// The validation ends, one way or the other, or goes on.
fn content_verdict<const U: usize>(w: &Watch<U>, c: &mut Contents<U>) {
    let v = nd::below(3);
    if v == 0 || w.finished || c.verdict.is_some() {
        return;
    }
    if let (Some(p), Some(tx)) = (c.validating, &c.tx) {
        c.verdict = Some(v == 1);
        let found = ValidatedContent { content: RawContentValue(7 + p as u16), was_utp_transfer: matches!(c.gave[p], Gave::Offer(_)), sending_peer: Id(p as u8) };
        let _ = tx.send(if v == 1 { Some(found) } else { None });
    }
}
fn content_event<const U: usize>(q: &mut FindContentQuery<Id>, w: &mut Watch<U>, c: &mut Contents<U>, p: usize, names: bool) {
    let id = Id(p as u8);
    let x: u16 = nd::any();
    match nd::below(5) {
        0 => {}
        1 => {
            let (a, n) = if names { answer::<U>() } else { ([Id(0); 2], 0) };
            q.on_success(&id, FindContentQueryResponse::ClosestNodes(first(a, n)));
            if w.expects(p) {
                w.seen[p] = Seen::Answered;
                w.learn(&a[..n]);
            }
        }
        2 => {
            q.on_success(&id, FindContentQueryResponse::Content(RawContentValue(x)));
            if w.expects(p) {
                w.seen[p] = Seen::Answered;
                c.gave[p] = Gave::Content(x);
                c.queued[p] = true;
            }
        }
        3 => {
            q.on_success(&id, FindContentQueryResponse::ConnectionId(x));
            if w.expects(p) {
                w.seen[p] = Seen::Answered;
                c.gave[p] = Gave::Offer(x);
                c.queued[p] = true;
            }
        }
        _ => {
            q.on_failure(&id);
            if w.expects(p) {
                w.seen[p] = Seen::Failed;
            }
        }
    }
}
fn content_result<const U: usize>(q: FindContentQuery<Id>, w: &Watch<U>, c: &Contents<U>) {
    match (q.into_result(), c.found) {
        (FindContentQueryResult::NoneFound, None) => {}
        (FindContentQueryResult::ValidContent(v, cancelled), Some(p)) => {
            assert!(v.content == RawContentValue(7 + p as u16) && v.sending_peer == Id(p as u8), "P22.result: not the content found valid, or attributed to another peer");
            assert!(v.was_utp_transfer == matches!(c.gave[p], Gave::Offer(_)), "P22.result-transfer: wrong way of transfer");
            let (mut i, mut k) = (0, 0);
            while i < U {
                if k < cancelled.len() && cancelled[k] == Id(i as u8) {
                    assert!(w.seen[i] == Seen::Asked, "P22.cancelled: a peer nothing was awaited from counts as cancelled");
                    k += 1;
                } else {
                    assert!(!(w.seen[i] == Seen::Asked && w.due[i] > w.now), "P22.cancelled-all: an open request is not listed as cancelled");
                }
                i += 1;
            }
            assert!(k == cancelled.len(), "P22.cancelled-order: cancelled peers out of order");
            forget(cancelled);
        }
        (FindContentQueryResult::NoneFound, Some(_)) => assert!(false, "P22.result-lost: content found valid is not returned"),
        (FindContentQueryResult::ValidContent(..), None) => assert!(false, "P22.result-none: content returned that was not found valid"),
    }
}
/// As for node lookups; `V`: the verdict on the content being validated may arrive. The answer is whether content was found.
fn contents_script<const U: usize, const I: usize>(par: usize, res: usize, init: [u8; I], script: &[u8]) -> bool {
    let mut w: Watch<U> = Watch::new(par, res);
    for i in init {
        w.seen[i as usize] = Seen::Candidate;
    }
    let mut c: Contents<U> = Contents { gave: [Gave::Nothing; U], queued: [false; U], validating: None, verdict: None, tx: None, found: None };
    let mut q = FindContentQuery::with_config(config(par, res), target(), init.into_iter().map(|i| Id(i).into()));
    let mut k = 0;
    while k < script.len() {
        match script[k] {
            b'P' => {
                if k > 1 {
                    w.now += nd::below(5) as u64;
                }
                content_poll(&mut q, &mut w, &mut c)
            }
            b'F' => {
                let mut i = 0;
                while i < U {
                    content_event(&mut q, &mut w, &mut c, i, false);
                    i += 1;
                }
            }
            b'E' => content_event(&mut q, &mut w, &mut c, nd::below(U), true),
            b'V' => content_verdict(&w, &mut c),
            _ => {
                content_result(q, &w, &c);
                let found = c.found.is_some();
                forget(c);
                return found;
            }
        }
        k += 1;
    }
    let found = c.found.is_some();
    forget((q, c));
    found
}
/// A lookup that says what it is told to.
struct Told {
    state: u8,
    started: Option<Instant>,
    polled: bool,
    config: QueryConfig,
}
impl Query<Id> for Told {
    type Response = ();
    type Result = ();
    type PendingValidationResult = ();
    fn target(&self) -> kbucket::Key<Id> {
        target()
    }
    fn started(&self) -> Option<Instant> {
        self.started
    }
    fn start(&mut self, start: Instant) {
        self.started = Some(start);
    }
    fn on_failure(&mut self, _: &Id) {}
    fn on_success(&mut self, _: &Id, _: ()) {}
    fn poll(&mut self, _: Instant) -> QueryState<Id> {
        self.polled = true;
        match self.state {
            0 => QueryState::Finished,
            1 => QueryState::Validating(Id(1)),
            2 => QueryState::Waiting(Some(Id(2))),
            3 => QueryState::Waiting(None),
            _ => QueryState::WaitingAtCapacity,
        }
    }
    fn into_result(self) {}
    fn pending_validation_result(&self, _: Id) {}
    fn config(&self) -> &QueryConfig {
        &self.config
    }
}
fn clock(t: u64) {
    #[cfg(kani)]
    unsafe {
        time::NOW = t
    }
    #[cfg(not(kani))]
    unsafe {
        vstd::clock::FREE = false;
        vstd::clock::NOW = Duration::from_secs(t)
    }
}
/// `N` lookups in a pool, each begun or not, saying anything.
fn pool<const N: usize>() {
    let now = 20 + nd::below(3) as u64;
    clock(now);
    let mut p: QueryPool<Id, Told, u8> = QueryPool::new();
    let mut state = [0u8; N];
    let mut late = [false; N];
    let mut ids = [QueryId(0); N];
    let mut i = 0;
    while i < N {
        state[i] = nd::below(5) as u8;
        let (begun, at) = (nd::any::<bool>(), 8 + nd::below(6) as u64);
        late[i] = begun && now - at >= 9;
        let t = Told { state: state[i], started: if begun { Some(secs(at)) } else { None }, polled: false, config: config(2, 2) };
        ids[i] = p.add_query(QueryInfo(i as u8), t);
        let mut j = 0;
        while j < i {
            assert!(ids[i] != ids[j], "P21.pool-ids: two lookups under one number");
            j += 1;
        }
        i += 1;
    }
    // Which lookup the answer is about, and whether that one is gone.
    let mut about = None;
    let mut gone = false;
    match p.poll() {
        QueryPoolState::Idle => assert!(N == 0, "P21.pool-idle: idle with a lookup going on"),
        QueryPoolState::Waiting(Some((id, info, _, peer))) => {
            let k = info.0 as usize;
            assert!(k < N && id == ids[k] && state[k] == 2 && peer == Id(2), "P21.pool-contact: contacts a peer for another lookup");
            about = Some(k);
        }
        QueryPoolState::Validating(id, info, _, peer) => {
            let k = info.0 as usize;
            assert!(k < N && id == ids[k] && state[k] == 1 && peer == Id(1), "P21.pool-validate: validates for another lookup");
            about = Some(k);
        }
        QueryPoolState::Finished(id, info, q) => {
            let k = info.0 as usize;
            assert!(k < N && id == ids[k] && state[k] == 0, "P21.pool-finished: ends a lookup that has not finished");
            about = Some(k);
            gone = true;
            forget(q);
        }
        QueryPoolState::Timeout(id, info, q) => {
            let k = info.0 as usize;
            assert!(k < N && id == ids[k] && state[k] >= 3 && late[k], "P21.pool-timeout: gives up a lookup that is not late or can go on");
            about = Some(k);
            gone = true;
            forget(q);
        }
        QueryPoolState::Waiting(None) => assert!(N > 0, "P21.pool-empty: waits without a lookup"),
    }
    let mut i = 0;
    while i < N {
        if about.is_none() {
            assert!(state[i] >= 3 && !late[i], "P21.pool-stuck: a lookup that can go on, or is late, is left alone");
        }
        match p.get_mut(ids[i]) {
            Some((_, q)) => {
                assert!(!(gone && about == Some(i)), "P21.pool-removed: an ended lookup stays");
                if about.is_none() || about == Some(i) {
                    assert!(q.started.is_some() && q.polled, "P21.pool-started: a lookup is not begun");
                }
            }
            None => assert!(gone && about == Some(i), "P21.pool-kept: a lookup is lost"),
        }
        i += 1;
    }
    forget(p);
}
nd::harnesses! {
    fn p21_fates(unwind = 8) { nodes_script::<3, 2>(2, 2, [1, 0], b"PPFPR"); }
    fn p21_learn(unwind = 8) { let e = nodes_script::<3, 2>(2, 2, [2, 0], b"PPEPP"); nd::cover!(e, "P21.reach-finished: no lookup ends"); }
    fn p21_learn_4(unwind = 8) { nodes_script::<4, 3>(2, 3, [3, 0, 2], b"PPFPEP"); }
    fn p21_serial(unwind = 8) { nodes_script::<4, 3>(1, 3, [3, 0, 2], b"PEPEP"); }
    fn p21_stall(unwind = 8) { nodes_script::<4, 4>(1, 4, [3, 0, 2, 1], b"PFPPP"); }
    fn p21_one(unwind = 8) { let e = nodes_script::<3, 1>(2, 1, [1], b"PEPEP"); nd::cover!(e, "P21.reach-finished: no lookup ends"); }
    fn p21_one_result(unwind = 8) { nodes_script::<3, 1>(2, 1, [1], b"PEPR"); }
    fn p21_pool(unwind = 8) { pool::<0>(); pool::<1>() }
    fn p21_pool_2(unwind = 8) { pool::<2>() }
    fn p22_fates(unwind = 8) { contents_script::<2, 2>(2, 2, [1, 0], b"PPFPR"); }
    fn p22_verdict(unwind = 9) { let e = contents_script::<2, 2>(2, 2, [1, 0], b"PPFPVP"); nd::cover!(e, "P22.reach-found: no lookup ends with content"); }
    fn p22_verdict_result(unwind = 9) { contents_script::<2, 2>(2, 2, [1, 0], b"PPFPVPR"); }
    fn p22_learn(unwind = 8) { contents_script::<3, 2>(2, 2, [2, 0], b"PPEPP"); }
    fn p22_stall(unwind = 8) { contents_script::<3, 3>(1, 3, [2, 0, 1], b"PFPPP"); }
    fn p21_native(unwind = 2) { #[cfg(not(kani))] native_nodes() }
    fn p22_native(unwind = 2) { #[cfg(not(kani))] native_contents(); }
}
/// Long histories with up to 40 peers.
#[cfg(not(kani))]
fn native_nodes() {
    match nd::below(4) {
        0 => nodes::<6, 40, 2>(1 + nd::below(3), 2 + nd::below(4), [3, 1]),
        1 => nodes::<12, 80, 5>(1 + nd::below(3), 5 + nd::below(4), [9, 4, 7, 11, 2]),
        2 => nodes::<40, 200, 3>(3, 20, [20, 30, 39]),
        _ => nodes::<3, 12, 3>(1 + nd::below(2), 3, [0, 2, 1]),
    }
}

#[cfg(not(kani))]
fn native_contents() -> bool {
    let mut s = [b'P'; 80];
    for c in s.iter_mut() {
        *c = b"PPPEEEEVF"[nd::below(9)];
    }
    s[79] = b'R';
    let k = nd::below(79);
    match nd::below(3) {
        0 => contents_script::<6, 2>(1 + nd::below(3), 2 + nd::below(4), [3, 1], &s[k..]),
        1 => contents_script::<12, 5>(1 + nd::below(3), 5 + nd::below(4), [9, 4, 7, 11, 2], &s[k..]),
        _ => contents_script::<3, 3>(1 + nd::below(2), 3, [0, 2, 1], &s[k..]),
    }
}
