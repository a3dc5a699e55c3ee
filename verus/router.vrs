// Delivery (C17) and counting on arrival (C19): receive_router in src/protocol/network.rs
use vstd::prelude::*;
verus! {
//@include net_types.vrs
//@note Callers never have two requests for one identifier waiting at once (every protocol awaits each receive before the next), and a requester does not drop its request.
//@note tokio::select! picks any ready branch; `else` runs when both channels are closed and empty. One event of the environment per turn, in any order: that is all schedules.

// Everything that happened at one party's router so far.
tracked struct World {
    pub ghost arrivals: Seq<ReceivedMessage>,
    pub ghost requests: Seq<Seq<u8>>,              // identifier of the k-th request
    pub ghost delivered: Map<int, ReceivedMessage>,  // request -> message handed to it
    pub ghost counted: Seq<(PartyID, u64, u64)>,
    pub ghost closed: bool,
}

// The messages of one identifier in order of arrival, and the requests for it in order.
spec fn msgs_of(a: Seq<ReceivedMessage>, id: Seq<u8>) -> Seq<ReceivedMessage> decreases a.len() {
    if a.len() == 0 { seq![] } else if a.last().proto_id@ == id { msgs_of(a.drop_last(), id).push(a.last()) } else { msgs_of(a.drop_last(), id) }
}

spec fn reqs_of(r: Seq<Seq<u8>>, id: Seq<u8>) -> Seq<int> decreases r.len() {
    if r.len() == 0 { seq![] } else if r.last() == id { reqs_of(r.drop_last(), id).push(r.len() - 1) } else { reqs_of(r.drop_last(), id) }
}

spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }

// The k-th request for an identifier is answered with its k-th message, and nothing else is delivered.
spec fn exact(w: World) -> bool {
    &&& forall|id: Seq<u8>, k: int| #![trigger reqs_of(w.requests, id)[k]]
        0 <= k < min(msgs_of(w.arrivals, id).len() as int, reqs_of(w.requests, id).len() as int)
        ==> w.delivered.dom().contains(reqs_of(w.requests, id)[k]) && w.delivered[reqs_of(w.requests, id)[k]] == msgs_of(w.arrivals, id)[k]
    &&& forall|h: int| #[trigger] w.delivered.dom().contains(h) ==> 0 <= h < w.requests.len()
        && exists|k: int| 0 <= k < msgs_of(w.arrivals, w.requests[h]).len() && k < reqs_of(w.requests, w.requests[h]).len() && #[trigger] reqs_of(w.requests, w.requests[h])[k] == h
}

// The bytes of the i-th arrival as they must be counted.
spec fn bytes_of(m: ReceivedMessage) -> (PartyID, u64, u64) {
    (m.from, m.data@.len() as u64, (m.data@.len() + m.proto_id@.len()) as u64)
}

spec fn all_counted(w: World) -> bool {
    w.counted.len() == w.arrivals.len() && forall|i: int| 0 <= i < w.counted.len() ==> #[trigger] w.counted[i] == bytes_of(w.arrivals[i])
}

proof fn reqs_range(r: Seq<Seq<u8>>, id: Seq<u8>, k: int)
    requires 0 <= k < reqs_of(r, id).len()
    ensures 0 <= reqs_of(r, id)[k] < r.len(), r[reqs_of(r, id)[k]] == id
    decreases r.len()
{
    if r.len() > 0 {
        if r.last() == id && k == reqs_of(r, id).len() - 1 { } else { reqs_range(r.drop_last(), id, k); }
    }
}

proof fn msgs_id(a: Seq<ReceivedMessage>, id: Seq<u8>, k: int)
    requires 0 <= k < msgs_of(a, id).len()
    ensures msgs_of(a, id)[k].proto_id@ == id
    decreases a.len()
{
    if a.len() > 0 {
        if a.last().proto_id@ == id && k == msgs_of(a, id).len() - 1 { } else { msgs_id(a.drop_last(), id, k); }
    }
}

proof fn msgs_push(a: Seq<ReceivedMessage>, m: ReceivedMessage, id: Seq<u8>)
    ensures msgs_of(a.push(m), id) == if m.proto_id@ == id { msgs_of(a, id).push(m) } else { msgs_of(a, id) }
{
    assert(a.push(m).drop_last() =~= a);
}

proof fn reqs_push(r: Seq<Seq<u8>>, x: Seq<u8>, id: Seq<u8>)
    ensures reqs_of(r.push(x), id) == if x == id { reqs_of(r, id).push(r.len() as int) } else { reqs_of(r, id) }
{
    assert(r.push(x).drop_last() =~= r);
}

// Channels. -----------------------------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct UnboundedReceiver<T> { t: std::marker::PhantomData<T> }

mod oneshot {
    use super::*;
    verus! {
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub(crate) struct Sender<T> { t: std::marker::PhantomData<T> }
    impl<T> Sender<T> { pub(crate) uninterp spec fn req(&self) -> int; }
    impl Sender<ReceivedMessage> {
        // Handing a message over: to a request that has no answer yet, and only once the message is counted.
        #[verifier::external_body]
        pub(crate) fn send(self, m: ReceivedMessage, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ()>)
            requires
                !old(w).delivered.dom().contains(self.req()),
                all_counted(*old(w)),
            ensures
                r.is_ok(),
                final(w).arrivals == old(w).arrivals, final(w).requests == old(w).requests, final(w).counted == old(w).counted, final(w).closed == old(w).closed,
                final(w).delivered == old(w).delivered.insert(self.req(), m),
        { unimplemented!() }
    }
    }
}

enum Event { First(ReceivedMessage), Second((ProtocolID, oneshot::Sender<ReceivedMessage>)), Closed }

spec fn same_but_arrival(o: World, n: World, m: ReceivedMessage) -> bool {
    n.arrivals == o.arrivals.push(m) && n.requests == o.requests && n.delivered == o.delivered && n.counted == o.counted && n.closed == o.closed
}

spec fn same_but_request(o: World, n: World, id: Seq<u8>, h: int) -> bool {
    n.requests == o.requests.push(id) && h == o.requests.len() && n.arrivals == o.arrivals && n.delivered == o.delivered && n.counted == o.counted && n.closed == o.closed
    // no second request while one for this identifier is waiting
    && reqs_of(o.requests, id).len() <= msgs_of(o.arrivals, id).len()
}

// tokio::select! over the two channels.
#[verifier::external_body]
async fn select2(a: &mut UnboundedReceiver<ReceivedMessage>, b: &mut UnboundedReceiver<(ProtocolID, oneshot::Sender<ReceivedMessage>)>, Tracked(w): Tracked<&mut World>) -> (r: Event)
    requires !old(w).closed
    ensures match r {
        Event::First(m) => same_but_arrival(*old(w), *final(w), m) && m.data@.len() + m.proto_id@.len() <= usize::MAX,
        Event::Second(x) => same_but_request(*old(w), *final(w), x.0@, x.1.req()),
        Event::Closed => final(w).closed && final(w).arrivals == old(w).arrivals && final(w).requests == old(w).requests && final(w).delivered == old(w).delivered && final(w).counted == old(w).counted,
    }
{ unimplemented!() }

impl UnboundedReceiver<(ProtocolID, oneshot::Sender<ReceivedMessage>)> {
    #[verifier::external_body]
    async fn recv(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<(ProtocolID, oneshot::Sender<ReceivedMessage>)>)
        ensures match r {
            Some(x) => !old(w).closed && same_but_request(*old(w), *final(w), x.0@, x.1.req()),
            None => *final(w) == *old(w),
        }
    { unimplemented!() }
}

#[verifier::external_body]
struct Stats { s: u8 }
impl Stats {
    // Contract of Stats::increment (unit stats).
    #[verifier::external_body]
    async fn increment(&self, from: PartyID, proto_bytes: u64, net_bytes: u64, Tracked(w): Tracked<&mut World>) -> (r: ())
        ensures
            final(w).counted == old(w).counted.push((from, proto_bytes, net_bytes)),
            final(w).arrivals == old(w).arrivals, final(w).requests == old(w).requests, final(w).delivered == old(w).delivered, final(w).closed == old(w).closed,
    { unimplemented!() }
}

// Standard collections. -----------------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct HashMap<K, V> { k: std::marker::PhantomData<(K, V)> }

impl<V> HashMap<ProtocolID, V> {
    pub(crate) uninterp spec fn view(&self) -> Map<Seq<u8>, V>;

    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<Seq<u8>, V>::empty() { unimplemented!() }

    #[verifier::external_body]
    fn get_mut<'a>(&'a mut self, k: &ProtocolID) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(x) => old(self)@.dom().contains(k@) && *x == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(x)),
            None => !old(self)@.dom().contains(k@) && final(self)@ == old(self)@,
        }
    { unimplemented!() }

    #[verifier::external_body]
    fn insert(&mut self, k: ProtocolID, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v)
    { unimplemented!() }

    #[verifier::external_body]
    fn remove(&mut self, k: &ProtocolID) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(k@),
            match r { Some(v) => old(self)@.dom().contains(k@) && v == old(self)@[k@], None => !old(self)@.dom().contains(k@) }
    { unimplemented!() }

    #[verifier::external_body]
    fn entry_or_insert<'a>(&'a mut self, k: ProtocolID, v: V) -> (r: &'a mut V)
        ensures
            *r == (if old(self)@.dom().contains(k@) { old(self)@[k@] } else { v }),
            final(self)@ == old(self)@.insert(k@, *final(r)),
    { unimplemented!() }

    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::empty()) { unimplemented!() }

    #[verifier::external_body]
    fn contains_key(&self, k: &ProtocolID) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VecDeque<T> { t: std::marker::PhantomData<T> }
impl<T> VecDeque<T> {
    pub(crate) uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body]
    fn push_front(&mut self, t: T) ensures final(self)@ == seq![t] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(t) => old(self)@.len() > 0 && t == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn pop_back(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(t) => old(self)@.len() > 0 && t == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}

// What the two pools hold, in terms of the history alone.
spec fn pools(w: World, mp: Map<Seq<u8>, VecDeque<ReceivedMessage>>, hp: Map<Seq<u8>, oneshot::Sender<ReceivedMessage>>) -> bool {
    &&& forall|id: Seq<u8>| (#[trigger] mp.dom().contains(id)) == (msgs_of(w.arrivals, id).len() > reqs_of(w.requests, id).len())
    &&& forall|id: Seq<u8>| #[trigger] mp.dom().contains(id) ==> mp[id]@ == msgs_of(w.arrivals, id).skip(reqs_of(w.requests, id).len() as int)
    &&& forall|id: Seq<u8>| (#[trigger] hp.dom().contains(id)) == (reqs_of(w.requests, id).len() > msgs_of(w.arrivals, id).len())
    &&& forall|id: Seq<u8>| #[trigger] hp.dom().contains(id) ==> reqs_of(w.requests, id).len() == msgs_of(w.arrivals, id).len() + 1 && hp[id].req() == reqs_of(w.requests, id).last()
}

// A waiting request has no answer yet.
proof fn waiting(w: World, mp: Map<Seq<u8>, VecDeque<ReceivedMessage>>, hp: Map<Seq<u8>, oneshot::Sender<ReceivedMessage>>)
    requires exact(w), pools(w, mp, hp)
    ensures
        forall|id: Seq<u8>| #[trigger] hp.dom().contains(id) ==> !w.delivered.dom().contains(hp[id].req()),
        forall|id: Seq<u8>| #[trigger] mp.dom().contains(id) ==> mp[id]@.len() > 0,
{
    assert forall|id: Seq<u8>| #[trigger] hp.dom().contains(id) implies !w.delivered.dom().contains(hp[id].req()) by {
        let h = hp[id].req();
        let r = reqs_of(w.requests, id);
        reqs_range(w.requests, id, r.len() - 1);
        if w.delivered.dom().contains(h) {
            let k = choose|k: int| 0 <= k < msgs_of(w.arrivals, w.requests[h]).len() && k < reqs_of(w.requests, w.requests[h]).len() && #[trigger] reqs_of(w.requests, w.requests[h])[k] == h;
            reqs_distinct(w.requests, id, r.len() - 1, id, k);
        }
    }
}

// The two kinds of step.
proof fn step_arrival(o: World, n: World, m: ReceivedMessage, f: World,
    mp: Map<Seq<u8>, VecDeque<ReceivedMessage>>, hp: Map<Seq<u8>, oneshot::Sender<ReceivedMessage>>,
    mp2: Map<Seq<u8>, VecDeque<ReceivedMessage>>, hp2: Map<Seq<u8>, oneshot::Sender<ReceivedMessage>>)
    requires
        exact(o), pools(o, mp, hp), all_counted(o), same_but_arrival(o, n, m),
        f.arrivals == n.arrivals, f.requests == n.requests,
        hp.dom().contains(m.proto_id@) ==> f.delivered == n.delivered.insert(hp[m.proto_id@].req(), m) && hp2 =~= hp.remove(m.proto_id@) && mp2 =~= mp,
        !hp.dom().contains(m.proto_id@) ==> f.delivered == n.delivered && hp2 =~= hp && mp2.dom() =~= mp.dom().insert(m.proto_id@)
            && (forall|id: Seq<u8>| id != m.proto_id@ && mp.dom().contains(id) ==> mp2[id] == mp[id])
            && mp2[m.proto_id@]@ == (if mp.dom().contains(m.proto_id@) { mp[m.proto_id@]@.push(m) } else { Seq::empty().push(m) }),
    ensures exact(f), pools(f, mp2, hp2),
{
    let id0 = m.proto_id@;
    assert forall|id: Seq<u8>| #![trigger msgs_of(f.arrivals, id)] msgs_of(f.arrivals, id) == if id0 == id { msgs_of(o.arrivals, id).push(m) } else { msgs_of(o.arrivals, id) } by {
        msgs_push(o.arrivals, m, id);
    }
    if hp.dom().contains(id0) {
        let h = hp[id0].req();
        let k0 = msgs_of(o.arrivals, id0).len() as int;
        reqs_range(o.requests, id0, k0);
        assert(reqs_of(o.requests, id0)[k0] == h);
        assert forall|id: Seq<u8>, k: int| #![trigger reqs_of(f.requests, id)[k]]
            0 <= k < min(msgs_of(f.arrivals, id).len() as int, reqs_of(f.requests, id).len() as int)
            implies f.delivered.dom().contains(reqs_of(f.requests, id)[k]) && f.delivered[reqs_of(f.requests, id)[k]] == msgs_of(f.arrivals, id)[k] by {
            reqs_range(o.requests, id, k);
            if id == id0 && k == k0 { } else {
                reqs_distinct(o.requests, id, k, id0, k0);
            }
        }
        assert forall|g: int| #[trigger] f.delivered.dom().contains(g) implies 0 <= g < f.requests.len()
            && exists|k: int| 0 <= k < msgs_of(f.arrivals, f.requests[g]).len() && k < reqs_of(f.requests, f.requests[g]).len() && #[trigger] reqs_of(f.requests, f.requests[g])[k] == g by {
            if g == h { assert(reqs_of(f.requests, f.requests[g])[k0] == g); }
            else {
                assert(o.delivered.dom().contains(g));
                let k = choose|k: int| 0 <= k < msgs_of(o.arrivals, o.requests[g]).len() && k < reqs_of(o.requests, o.requests[g]).len() && #[trigger] reqs_of(o.requests, o.requests[g])[k] == g;
                assert(reqs_of(f.requests, f.requests[g])[k] == g);
            }
        }
    } else {
        assert forall|g: int| #[trigger] f.delivered.dom().contains(g) implies 0 <= g < f.requests.len()
            && exists|k: int| 0 <= k < msgs_of(f.arrivals, f.requests[g]).len() && k < reqs_of(f.requests, f.requests[g]).len() && #[trigger] reqs_of(f.requests, f.requests[g])[k] == g by {
            assert(o.delivered.dom().contains(g));
            let k = choose|k: int| 0 <= k < msgs_of(o.arrivals, o.requests[g]).len() && k < reqs_of(o.requests, o.requests[g]).len() && #[trigger] reqs_of(o.requests, o.requests[g])[k] == g;
            assert(reqs_of(f.requests, f.requests[g])[k] == g);
        }
        assert forall|id: Seq<u8>| #[trigger] mp2.dom().contains(id) implies mp2[id]@ == msgs_of(f.arrivals, id).skip(reqs_of(f.requests, id).len() as int) by {
            assert(hp.dom().contains(id) ==> id != id0);
            if id == id0 {
                let r = reqs_of(o.requests, id0).len() as int;
                let a = msgs_of(o.arrivals, id0);
                assert(!hp.dom().contains(id0));
                assert(r <= a.len());
                assert(a.push(m).skip(r) =~= a.skip(r).push(m));
                if !mp.dom().contains(id0) { assert(a.skip(r) =~= seq![]); assert(a.push(m).skip(r) =~= seq![m]); }
            }
        }
    }
}

proof fn reqs_distinct(r: Seq<Seq<u8>>, id: Seq<u8>, k: int, id2: Seq<u8>, k2: int)
    requires 0 <= k < reqs_of(r, id).len(), 0 <= k2 < reqs_of(r, id2).len(), id != id2 || k != k2
    ensures reqs_of(r, id)[k] != reqs_of(r, id2)[k2]
    decreases r.len()
{
    reqs_range(r, id, k);
    reqs_range(r, id2, k2);
    if id == id2 && r.len() > 0 {
        let q = r.drop_last();
        if r.last() == id {
            let n = reqs_of(q, id).len() as int;
            if k < n { reqs_range(q, id, k); }
            if k2 < n { reqs_range(q, id, k2); }
            if k < n && k2 < n { reqs_distinct(q, id, k, id2, k2); }
        } else {
            reqs_distinct(q, id, k, id2, k2);
        }
    }
}

proof fn step_request(o: World, n: World, id0: Seq<u8>, h: oneshot::Sender<ReceivedMessage>, f: World,
    mp: Map<Seq<u8>, VecDeque<ReceivedMessage>>, hp: Map<Seq<u8>, oneshot::Sender<ReceivedMessage>>,
    mp2: Map<Seq<u8>, VecDeque<ReceivedMessage>>, hp2: Map<Seq<u8>, oneshot::Sender<ReceivedMessage>>)
    requires
        exact(o), pools(o, mp, hp), same_but_request(o, n, id0, h.req()),
        f.arrivals == n.arrivals, f.requests == n.requests,
        mp.dom().contains(id0) ==> mp[id0]@.len() > 0 && f.delivered == n.delivered.insert(h.req(), mp[id0]@[0]) && hp2 == hp
            && (forall|id: Seq<u8>| #![auto] id != id0 ==> mp2.dom().contains(id) == mp.dom().contains(id))
            && (forall|id: Seq<u8>| #![auto] id != id0 && mp.dom().contains(id) ==> mp2[id] == mp[id])
            && (mp2.dom().contains(id0) == (mp[id0]@.len() > 1)) && (mp[id0]@.len() > 1 ==> mp2[id0]@ == mp[id0]@.drop_first()),
        !mp.dom().contains(id0) ==> f.delivered == n.delivered && mp2 == mp && hp2 == hp.insert(id0, h),
    ensures exact(f), pools(f, mp2, hp2),
{
    assert forall|id: Seq<u8>| #![trigger reqs_of(f.requests, id)] reqs_of(f.requests, id) == if id0 == id { reqs_of(o.requests, id).push(o.requests.len() as int) } else { reqs_of(o.requests, id) } by {
        reqs_push(o.requests, id0, id);
    }
    let a = msgs_of(o.arrivals, id0);
    let r = reqs_of(o.requests, id0);
    assert(hp.dom().contains(id0) == (r.len() > a.len()));
    assert(mp.dom().contains(id0) == (a.len() > r.len()));
    assert forall|g: int| #[trigger] o.delivered.dom().contains(g) implies g != h.req() by { }
    assert forall|id: Seq<u8>, k: int| #![trigger reqs_of(f.requests, id)[k]]
        0 <= k < min(msgs_of(f.arrivals, id).len() as int, reqs_of(f.requests, id).len() as int)
        implies f.delivered.dom().contains(reqs_of(f.requests, id)[k]) && f.delivered[reqs_of(f.requests, id)[k]] == msgs_of(f.arrivals, id)[k] by {
        if id == id0 && k == r.len() {
            assert(mp[id0]@[0] == a[k]);
        } else {
            reqs_range(o.requests, id, k);
            assert(reqs_of(f.requests, id)[k] == reqs_of(o.requests, id)[k]);
        }
    }
    assert forall|g: int| #[trigger] f.delivered.dom().contains(g) implies 0 <= g < f.requests.len()
        && exists|k: int| 0 <= k < msgs_of(f.arrivals, f.requests[g]).len() && k < reqs_of(f.requests, f.requests[g]).len() && #[trigger] reqs_of(f.requests, f.requests[g])[k] == g by {
        if g == h.req() { assert(reqs_of(f.requests, id0)[r.len() as int] == g); }
        else {
            assert(o.delivered.dom().contains(g));
            assert(f.requests[g] == o.requests[g]);
            let k = choose|k: int| 0 <= k < msgs_of(o.arrivals, o.requests[g]).len() && k < reqs_of(o.requests, o.requests[g]).len() && #[trigger] reqs_of(o.requests, o.requests[g])[k] == g;
            assert(reqs_of(f.requests, f.requests[g])[k] == g);
        }
    }
    if mp.dom().contains(id0) {
        assert(mp[id0]@.drop_first() =~= a.skip(r.len() as int + 1));
    }
}

//@fn src/protocol/network.rs | - | receive_router
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ghost Tracked(w): Tracked<&mut World>
//@rewrite tokio::select!\s*\{ ==> let ev = select2(&mut party_out_r, &mut net_out_r, Tracked(&mut *w)).await; proof { gev = ev; gw = *w; } match ev { # tokio::select! as a match on the next event
//@rewrite Some\((\w+)\)\s*=\s*party_out_r\.recv\(\)\s*=> ==> Event::First(\1) => # branch of select!
//@rewrite Some\((\(\w+,\s*\w+\))\)\s*=\s*net_out_r\.recv\(\)\s*=> ==> Event::Second(\1) => # branch of select!
//@rewrite \belse\s*=>\s*break ==> Event::Closed => break # branch of select!
//@rewrite \.send\(mssg\) ==> .send(mssg, Tracked(&mut *w)) # ghost argument
//@rewrite net_out_r\.recv\(\) ==> net_out_r.recv(Tracked(&mut *w)) # ghost argument
//@rewrite net_bytes as u64\) ==> net_bytes as u64, Tracked(&mut *w)) # ghost argument
//@rewrite \.entry\((.*?)\)\.or_insert\( ==> .entry_or_insert(\1, # the two calls as one
//@contract
    requires
        old(w).arrivals.len() == 0, old(w).requests.len() == 0, old(w).delivered.dom() =~= Set::empty(), old(w).counted.len() == 0,
        !old(w).closed,
    ensures
        exact(*final(w)),
        all_counted(*final(w)),
//@before loop\b
    proof { assert(exact(*w)); }
//@loop 0
    invariant_except_break
        !w.closed,
    invariant
        exact(*w),
        all_counted(*w),
        pools(*w, mssg_pool@, handle_pool@),
    ensures
        w.closed, exact(*w), all_counted(*w), pools(*w, mssg_pool@, handle_pool@),
//@loopstart 0
    let ghost o = *w;
    let ghost mp = mssg_pool@;
    let ghost hp = handle_pool@;
    let ghost mut gev = Event::Closed;
    let ghost mut gw = *w;
    proof { waiting(*w, mp, hp); }
//@loopend 0
    proof {
        match gev {
            Event::First(m) => { step_arrival(o, gw, m, *w, mp, hp, mssg_pool@, handle_pool@); }
            Event::Second(x) => { step_request(o, gw, x.0@, x.1, *w, mp, hp, mssg_pool@, handle_pool@); }
            Event::Closed => { }
        }
    }
//@loop 1
    invariant
        w.closed,
        exact(*w),
        all_counted(*w),
        pools(*w, mssg_pool@, handle_pool@),
//@end

} // verus!
