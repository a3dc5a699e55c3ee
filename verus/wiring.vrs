// How the pieces of the network are put together (C18): src/protocol/network.rs, and the handle of src/protocol/mod.rs
use vstd::prelude::*;
verus! {
pub trait Debug { }
impl<T> Debug for T { }
//@include net_types.vrs
//@note connect_to_peers gives the connection to peer i at place i and none at the own place (proved in unit connect).
//@note tokio::spawn starts its task once; a one-shot channel hands its receiver what was put in.

// What was started, and how many channels were made.
enum Task {
    Sender { inp: int, stream: int },
    Receiver { from: int, stream: int, out: int },
    SendRouter { me: int, n: int, inp: int, peers: Seq<int>, own: int },
    ReceiveRouter { inp: int, requests: int, stats: int },
    Forward { from: int, inp: int, out: int },
    LocalRouter { inp: int, out: Seq<int>, n: int },
}

tracked struct World { ghost tasks: Set<Task>, ghost count: nat, ghost chans: int }

spec fn started(o: World, n: World, t: Task) -> bool {
    n.tasks == o.tasks.insert(t) && n.count == o.count + 1 && n.chans == o.chans
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct UnboundedSender<T> { t: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct UnboundedReceiver<T> { t: std::marker::PhantomData<T> }
impl<T> UnboundedSender<T> { pub uninterp spec fn chan(&self) -> int; }
impl<T> UnboundedReceiver<T> { pub uninterp spec fn chan(&self) -> int; }
impl<T> Clone for UnboundedSender<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.chan() == self.chan() { unimplemented!() }
}

// What was put into and taken out of channels: channel and message, in order.
tracked struct Puts<T> { ghost log: Seq<(int, T)> }
tracked struct Takes<T> { ghost log: Seq<T> }
impl<T> UnboundedSender<T> {
    #[verifier::external_body]
    fn send(&self, m: T, Tracked(p): Tracked<&mut Puts<T>>) -> (r: Result<(), ()>)
        ensures r.is_ok(), final(p).log == old(p).log.push((self.chan(), m))
    { unimplemented!() }
}
impl<T> UnboundedReceiver<T> {
    #[verifier::external_body]
    async fn recv(&mut self, Tracked(p): Tracked<&mut Takes<T>>) -> (r: Option<T>)
        ensures final(self).chan() == old(self).chan(),
            match r { Some(m) => final(p).log == old(p).log.push(m), None => final(p).log == old(p).log },
    { unimplemented!() }
}

#[verifier::external_body]
fn unbounded_channel<T>(Tracked(w): Tracked<&mut World>) -> (r: (UnboundedSender<T>, UnboundedReceiver<T>))
    ensures r.0.chan() == old(w).chans, r.1.chan() == old(w).chans, final(w).chans == old(w).chans + 1,
        final(w).tasks == old(w).tasks, final(w).count == old(w).count,
{ unimplemented!() }

tracked struct Lines { ghost next: int }

mod oneshot {
    use super::*;
    verus! {
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub(crate) struct Sender<T> { t: std::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub(crate) struct Receiver<T> { t: std::marker::PhantomData<T> }
    impl<T> Sender<T> {
        pub(crate) uninterp spec fn line(&self) -> int;
        // What the other side puts in (exactly one message, or nothing and the wait does not end).
        pub(crate) uninterp spec fn answer(&self) -> T;
    }
    impl<T> Receiver<T> {
        pub(crate) uninterp spec fn line(&self) -> int;
        pub(crate) uninterp spec fn answer(&self) -> T;
        #[verifier::external_body]
        pub(crate) async fn wait(self) -> (r: Result<T, ()>) ensures r == Ok::<T, ()>(self.answer()) { unimplemented!() }
    }
    #[verifier::external_body]
    pub(crate) fn channel<T>(Tracked(n): Tracked<&mut Lines>) -> (r: (Sender<T>, Receiver<T>))
        ensures r.0.line() == old(n).next, r.1.line() == old(n).next, r.0.answer() == r.1.answer(), final(n).next == old(n).next + 1
    { unimplemented!() }
    }
}

#[verifier::external_body]
pub struct Stats { s: u8 }
impl Stats {
    pub uninterp spec fn table(&self) -> int;
    pub uninterp spec fn parties(&self) -> nat;
    // Contract of Stats::new (unit stats).
    #[verifier::external_body]
    fn new(n: usize) -> (r: Self) ensures r.parties() == n { unimplemented!() }
}
impl Clone for Stats {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.table() == self.table(), r.parties() == self.parties() { unimplemented!() }
}

#[verifier::external_body]
struct TcpStream { s: u8 }
#[verifier::external_body]
struct OwnedReadHalf { s: u8 }
#[verifier::external_body]
struct OwnedWriteHalf { s: u8 }
impl TcpStream {
    uninterp spec fn peer(&self) -> int;
    #[verifier::external_body]
    fn into_split(self) -> (r: (OwnedReadHalf, OwnedWriteHalf)) ensures r.0.peer() == self.peer(), r.1.peer() == self.peer() { unimplemented!() }
}
impl OwnedReadHalf { uninterp spec fn peer(&self) -> int; }
impl OwnedWriteHalf { uninterp spec fn peer(&self) -> int; }

#[verifier::external_body]
async fn connect_to_peers(me: PartyID, addresses: &[String]) -> (r: Vec<Option<TcpStream>>)
    requires me < addresses@.len()
    ensures r@.len() == addresses@.len(), r@[me as int] is None,
        forall|i: int| 0 <= i < r@.len() && i != me ==> (#[trigger] r@[i]) is Some && r@[i]->Some_0.peer() == i,
{ unimplemented!() }

// The elements of a vector given away one by one.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct Parts<T> { v: Vec<Option<T>> }
impl<T> Parts<T> {
    uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    fn of(v: Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn part(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
}

// The tasks; what each does is proved in units frame, route and router.
fn spawn(t: ()) { }

#[verifier::external_body]
fn party_sender(inp: UnboundedReceiver<SendMessage>, stream: OwnedWriteHalf, Tracked(w): Tracked<&mut World>)
    ensures started(*old(w), *final(w), Task::Sender { inp: inp.chan(), stream: stream.peer() })
{ unimplemented!() }

#[verifier::external_body]
fn party_receiver(from: PartyID, stream: OwnedReadHalf, out: UnboundedSender<ReceivedMessage>, Tracked(w): Tracked<&mut World>)
    ensures started(*old(w), *final(w), Task::Receiver { from: from as int, stream: stream.peer(), out: out.chan() })
{ unimplemented!() }

spec fn chans(s: Seq<UnboundedSender<SendMessage>>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].chan()) }
spec fn outs(s: Seq<UnboundedSender<ReceivedMessage>>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].chan()) }

#[verifier::external_body]
fn send_router(me: PartyID, n: u16, inp: UnboundedReceiver<SendMessage>, peers: Vec<UnboundedSender<SendMessage>>, own: UnboundedSender<ReceivedMessage>, Tracked(w): Tracked<&mut World>)
    requires me < n, peers@.len() == n
    ensures started(*old(w), *final(w), Task::SendRouter { me: me as int, n: n as int, inp: inp.chan(), peers: chans(peers@), own: own.chan() })
{ unimplemented!() }

#[verifier::external_body]
fn receive_router(inp: UnboundedReceiver<ReceivedMessage>, requests: UnboundedReceiver<(ProtocolID, oneshot::Sender<ReceivedMessage>)>, stats: Stats, Tracked(w): Tracked<&mut World>)
    ensures started(*old(w), *final(w), Task::ReceiveRouter { inp: inp.chan(), requests: requests.chan(), stats: stats.table() })
{ unimplemented!() }

#[verifier::external_body]
fn forward(from: PartyID, inp: UnboundedReceiver<SendMessage>, out: UnboundedSender<(PartyID, SendMessage)>, Tracked(w): Tracked<&mut World>)
    ensures started(*old(w), *final(w), Task::Forward { from: from as int, inp: inp.chan(), out: out.chan() })
{ unimplemented!() }

#[verifier::external_body]
fn local_router(inp: UnboundedReceiver<(PartyID, SendMessage)>, out: Vec<UnboundedSender<ReceivedMessage>>, n: u16, Tracked(w): Tracked<&mut World>)
    requires out@.len() == n
    ensures started(*old(w), *final(w), Task::LocalRouter { inp: inp.chan(), out: outs(out@), n: n as int })
{ unimplemented!() }

//@item src/protocol/mod.rs | (?:pub )?struct ProtoHandle
//@item src/protocol/network.rs | (?:pub )?type Network\b

impl<S: Debug, R: Debug> ProtoHandle<S, R> {
//@fn src/protocol/mod.rs | impl.*ProtoHandle< | new
//@contract
    ensures res.tx_send == tx_send, res.tx_recv == tx_recv
//@end

// A message handed over is put in the outgoing channel once.
//@fn src/protocol/mod.rs | impl.*ProtoHandle< | send
//@ghost Tracked(p): Tracked<&mut Puts<S>>
//@addarg \.send ==> Tracked(&mut *p)
//@contract
    ensures final(p).log == old(p).log.push((self.tx_send.chan(), mssg))
//@end

// One request under the identifier asked for, with a one-shot channel of its own; the result is what comes back on it.
//@fn src/protocol/mod.rs | impl.*ProtoHandle< | recv
//@ghost Tracked(p): Tracked<&mut Puts<(ProtocolID, oneshot::Sender<R>)>>, Tracked(n): Tracked<&mut Lines>
//@addarg \.send ==> Tracked(&mut *p)
//@addarg \boneshot::channel ==> Tracked(&mut *n)
//@rewrite \b(\w+)\.await ==> \1.wait().await # waiting on a one-shot channel as a call
//@contract
    ensures
        final(p).log.len() == old(p).log.len() + 1, final(p).log.drop_last() == old(p).log,
        final(p).log.last().0 == self.tx_recv.chan(),
        final(p).log.last().1.0@ == id@,
        final(p).log.last().1.1.line() >= old(n).next, final(n).next > final(p).log.last().1.1.line(),
        res == final(p).log.last().1.1.answer(),
//@before \w+\.wait\(\)
        proof { assert(p.log.drop_last() =~= old(p).log); }
//@end
}

// Channels made here are new and different from each other.
spec fn made(o: World, w: World, peers: Seq<int>, own: int, h: Network) -> bool {
    &&& o.chans <= own < w.chans && o.chans <= h.tx_send.chan() < w.chans && o.chans <= h.tx_recv.chan() < w.chans
    &&& own != h.tx_send.chan() && own != h.tx_recv.chan() && h.tx_send.chan() != h.tx_recv.chan()
    &&& forall|i: int, j: int| 0 <= i < j < peers.len() ==> #[trigger] peers[i] != #[trigger] peers[j]
    &&& forall|i: int| 0 <= i < peers.len() ==> o.chans <= #[trigger] peers[i] < w.chans && peers[i] != own && peers[i] != h.tx_send.chan() && peers[i] != h.tx_recv.chan()
}

// Sending and receiving tasks of the peers.
spec fn peered(w: World, peers: Seq<int>, me: int, own: int) -> bool {
    forall|i: int| 0 <= i < peers.len() && i != me ==> w.tasks.contains(Task::Sender { inp: #[trigger] peers[i], stream: i })
        && w.tasks.contains(Task::Receiver { from: i, stream: i, out: own })
}

// Every peer's messages go to that peer's connection, what a connection brings in is tagged with its peer, own messages
// go straight to the receiving side, and both ends of the handle lead to these tasks; nothing else is started.
spec fn tcp_wired(o: World, w: World, me: int, n: int, s: Stats, h: Network) -> bool {
    exists|peers: Seq<int>, own: int| {
        &&& peers.len() == n
        &&& made(o, w, peers, own, h)
        &&& #[trigger] w.tasks.contains(Task::SendRouter { me, n, inp: h.tx_send.chan(), peers, own })
        &&& w.tasks.contains(Task::ReceiveRouter { inp: own, requests: h.tx_recv.chan(), stats: s.table() })
        &&& peered(w, peers, me, own)
        &&& w.count == o.count + 2 * n
    }
}

//@fn src/protocol/network.rs | - | setup_tcp_network
//@ghost Tracked(w): Tracked<&mut World>
//@rewrite for \((\w+), (\w+)\) in (\w+)\.into_iter\(\)\.enumerate\(\) \{ ==> let __parts = Parts::of(\3); for \1 in 0..__parts.len() { let \2 = __parts.part(\1); # the elements in turn, with their places
//@rewrite \bassert_eq!\(([^,()]*),([^()]*)\) ==> assert(\1 == \2) # a panic as an obligation
//@addarg \b(?:unbounded_channel|party_sender|party_receiver|send_router|receive_router) ==> Tracked(&mut *w)
//@contract
    requires party_id < addresses@.len() <= 65535,
    ensures
        tcp_wired(*old(w), *final(w), party_id as int, addresses@.len() as int, res.0, res.1),
        res.0.parties() == addresses@.len(),
//@loop 0
    invariant
        party_id < num_parties, num_parties == addresses@.len(), __parts@.len() == num_parties,
        __parts@[party_id as int] is None,
        forall|i: int| 0 <= i < num_parties && i != party_id ==> (#[trigger] __parts@[i]) is Some && __parts@[i]->Some_0.peer() == i,
        party_inp_s@.len() == pid,
        stats.parties() == num_parties,
        party_out_r.chan() == party_out_s.chan(), net_inp_r.chan() == channel_builder.tx_send.chan(), net_out_r.chan() == channel_builder.tx_recv.chan(),
        made(*old(w), *w, chans(party_inp_s@), party_out_s.chan(), channel_builder),
        peered(*w, chans(party_inp_s@), party_id as int, party_out_s.chan()),
        w.count == old(w).count + 2 * (if pid > party_id { pid - 1 } else { pid as int }),
//@loopend 0
        proof {
            assert(chans(party_inp_s@) =~= c0.push(party_inp_s@.last().chan()));
        }
//@loopstart 0
        let ghost c0 = chans(party_inp_s@);
//@before \bspawn\(send_router
    let ghost peers = chans(party_inp_s@);
    let ghost own = party_out_s.chan();
//@tail
    proof {
        assert(w.tasks.contains(Task::SendRouter { me: party_id as int, n: num_parties as int, inp: __out.1.tx_send.chan(), peers, own }));
    }
//@end

// The in-memory network: every party's messages are tagged with it on the way to the common router.
spec fn tagged(s: Seq<SendMessage>, from: PartyID, c: int) -> Seq<(int, (PartyID, SendMessage))> { s.map_values(|m: SendMessage| (c, (from, m))) }

//@fn src/protocol/network.rs | - | setup_local_network
//@slice while let Some\(mssg\)
//@sig async fn forward_loop(pid: PartyID, mut net_inp_r: UnboundedReceiver<SendMessage>, router_s: UnboundedSender<(PartyID, SendMessage)>)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ghost Tracked(t): Tracked<&mut Takes<SendMessage>>, Tracked(p): Tracked<&mut Puts<(PartyID, SendMessage)>>
//@addarg \.send ==> Tracked(&mut *p)
//@addarg \.recv ==> Tracked(&mut *t)
//@contract
    requires old(t).log.len() == 0, old(p).log.len() == 0,
    ensures final(p).log == tagged(final(t).log, pid, router_s.chan()),
//@loop 0
    invariant p.log =~= tagged(t.log, pid, router_s.chan()),
//@end

// All parties' tasks: p's messages reach the router tagged with p, the router's place p leads to p's receiving side, and
// the p-th handle leads to these.
spec fn local_party(w: World, p: int, s: Stats, h: Network, out: int, router: int) -> bool {
    &&& w.tasks.contains(Task::Forward { from: p, inp: h.tx_send.chan(), out: router })
    &&& w.tasks.contains(Task::ReceiveRouter { inp: out, requests: h.tx_recv.chan(), stats: s.table() })
    &&& router < h.tx_send.chan() < w.chans && router < h.tx_recv.chan() < w.chans && router < out < w.chans
    &&& h.tx_send.chan() != h.tx_recv.chan() && h.tx_send.chan() != out && h.tx_recv.chan() != out
}

spec fn apart(a: Network, ao: int, b: Network, bo: int) -> bool {
    a.tx_send.chan() != b.tx_send.chan() && a.tx_recv.chan() != b.tx_recv.chan() && ao != bo
}

spec fn local_parties(w: World, r: Seq<(Stats, Network)>, out: Seq<int>, router: int) -> bool {
    &&& r.len() == out.len()
    &&& forall|p: int| 0 <= p < r.len() ==> local_party(w, p, (#[trigger] r[p]).0, r[p].1, out[p], router)
    &&& forall|p: int, q: int| 0 <= p < q < r.len() ==> apart((#[trigger] r[p]).1, out[p], (#[trigger] r[q]).1, out[q])
}

spec fn local_wired(o: World, w: World, n: int, r: Seq<(Stats, Network)>) -> bool {
    exists|out: Seq<int>, router: int| {
        &&& o.chans <= router
        &&& #[trigger] w.tasks.contains(Task::LocalRouter { inp: router, out, n })
        &&& local_parties(w, r, out, router)
        &&& w.count == o.count + 2 * n + 1
    }
}

//@fn src/protocol/network.rs | - | setup_local_network
//@ghost Tracked(w): Tracked<&mut World>
//@dropblock while let Some\(\(sender_id, mssg\)\) # proved as local_router in unit route
//@rewrite async move \{\s*while let Some\((\w+)\) = (\w+)\.recv\(\)\.await \{\s*(\w+)\.send\(\((\w+), \1\)\)\.unwrap\(\);\s*\}\s*\} ==> forward(\4, \2, \3) # proved as forward_loop
//@rewrite async move \{\s*\} ==> local_router(router_r, party_out, num_parties) # the dropped block
//@addarg \b(?:unbounded_channel|forward|local_router|receive_router) ==> Tracked(&mut *w)
//@contract
    ensures
        res@.len() == num_parties,
        local_wired(*old(w), *final(w), num_parties as int, res@),
        forall|i: int| 0 <= i < num_parties ==> (#[trigger] res@[i]).0.parties() == num_parties,
//@loop 0
    invariant
        res@.len() == pid, party_out@.len() == pid,
        old(w).chans <= router_s.chan() < w.chans, router_r.chan() == router_s.chan(),
        local_parties(*w, res@, outs(party_out@), router_s.chan()),
        w.count == old(w).count + 2 * pid,
        forall|i: int| 0 <= i < pid ==> (#[trigger] res@[i]).0.parties() == num_parties,
//@loopstart 0
        let ghost c0 = outs(party_out@);
        let ghost r0 = res@;
        let ghost rs = router_s.chan();
//@loopend 0
        proof {
            assert(outs(party_out@) =~= c0.push(party_out@.last().chan()));
            assert(res@ =~= r0.push(res@.last()));
        }
//@before \bspawn\(local_router
    let ghost out = outs(party_out@);
    let ghost router = router_s.chan();
//@tail
    proof {
        assert(w.tasks.contains(Task::LocalRouter { inp: router, out, n: num_parties as int }));
    }
//@end

} // verus!
