// Routing (C18): send_router and the in-memory router in src/protocol/network.rs
use vstd::prelude::*;
verus! {
//@include net_types.vrs
//@include std_vec.vrs
//@note A tokio channel hands over what was put in, in order; sending does not fail while the tasks run.

impl Clone for SendMessage {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r.proto_id@ == self.proto_id@, r.to == self.to, r.data@ == self.data@ { unimplemented!() }
}

// A message as the receiving party must see it: identifier, sender, data.
type Wire = (Seq<u8>, PartyID, Seq<u8>);
// A message handed in: sender, identifier, recipient, data.
struct In { from: PartyID, id: Seq<u8>, to: Recipient, data: Seq<u8> }

// What went in, and what was put on each outgoing channel.
tracked struct World {
    ghost taken: Seq<In>,
    ghost peer: Seq<Seq<(Seq<u8>, Seq<u8>)>>,   // channel to the sender task of peer j
    ghost out: Seq<Seq<Wire>>,                  // channel into the receive router of party j
}

spec fn is_for(m: In, j: int) -> bool {
    match m.to { Recipient::All => true, Recipient::One(p) => p as int == j }
}

// The messages for party j in the order they were handed in.
spec fn wires(t: Seq<In>, j: int) -> Seq<Wire> decreases t.len() {
    if t.len() == 0 { seq![] } else if is_for(t.last(), j) { wires(t.drop_last(), j).push((t.last().id, t.last().from, t.last().data)) } else { wires(t.drop_last(), j) }
}

spec fn frames(t: Seq<In>, j: int) -> Seq<(Seq<u8>, Seq<u8>)> decreases t.len() {
    if t.len() == 0 { seq![] } else if is_for(t.last(), j) { frames(t.drop_last(), j).push((t.last().id, t.last().data)) } else { frames(t.drop_last(), j) }
}

proof fn wires_push(t: Seq<In>, m: In)
    ensures forall|j: int| #[trigger] wires(t.push(m), j) == if is_for(m, j) { wires(t, j).push((m.id, m.from, m.data)) } else { wires(t, j) },
        forall|j: int| #[trigger] frames(t.push(m), j) == if is_for(m, j) { frames(t, j).push((m.id, m.data)) } else { frames(t, j) },
{
    assert(t.push(m).drop_last() =~= t);
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct UnboundedSender<T> { t: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct UnboundedReceiver<T> { t: std::marker::PhantomData<T> }

impl<T> UnboundedSender<T> { uninterp spec fn chan(&self) -> int; }

impl UnboundedSender<SendMessage> {
    #[verifier::external_body]
    fn send(&self, m: SendMessage, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ()>)
        ensures
            r.is_ok(), final(w).taken == old(w).taken, final(w).out == old(w).out,
            final(w).peer == old(w).peer.update(self.chan(), old(w).peer[self.chan()].push((m.proto_id@, m.data@))),
    { unimplemented!() }
}

impl UnboundedSender<ReceivedMessage> {
    #[verifier::external_body]
    fn send(&self, m: ReceivedMessage, Tracked(w): Tracked<&mut World>) -> (r: Result<(), ()>)
        ensures
            r.is_ok(), final(w).taken == old(w).taken, final(w).peer == old(w).peer,
            final(w).out == old(w).out.update(self.chan(), old(w).out[self.chan()].push((m.proto_id@, m.from, m.data@))),
    { unimplemented!() }
}

impl UnboundedReceiver<SendMessage> {
    uninterp spec fn owner(&self) -> PartyID;

    // Recipients are parties of the network.
    #[verifier::external_body]
    async fn recv(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<SendMessage>)
        ensures
            final(self).owner() == old(self).owner(),
            final(w).peer == old(w).peer, final(w).out == old(w).out,
            match r {
                Some(m) => final(w).taken.len() > 0 && final(w).taken.drop_last() == old(w).taken && final(w).taken.last() == (In { from: old(self).owner(), id: m.proto_id@, to: m.to, data: m.data@ })
                    && (match m.to { Recipient::One(p) => (p as int) < old(w).peer.len(), Recipient::All => true }),
                None => final(w).taken == old(w).taken,
            }
    { unimplemented!() }
}

impl UnboundedReceiver<(PartyID, SendMessage)> {
    #[verifier::external_body]
    async fn recv(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<(PartyID, SendMessage)>)
        ensures
            final(w).peer == old(w).peer, final(w).out == old(w).out,
            match r {
                Some(x) => final(w).taken.len() > 0 && final(w).taken.drop_last() == old(w).taken && final(w).taken.last() == (In { from: x.0, id: x.1.proto_id@, to: x.1.to, data: x.1.data@ })
                    && (match x.1.to { Recipient::One(p) => (p as int) < old(w).out.len(), Recipient::All => true }),
                None => final(w).taken == old(w).taken,
            }
    { unimplemented!() }
}

// Every message for j is on j's channel, in order and once; nothing else is.
spec fn routed(w: World, me: int, n: int) -> bool {
    &&& w.peer.len() == n
    &&& w.out.len() == 1
    &&& w.out[0] == wires(w.taken, me)
    &&& forall|j: int| 0 <= j < n && j != me ==> #[trigger] w.peer[j] == frames(w.taken, j)
    &&& w.peer[me].len() == 0
}

//@fn src/protocol/network.rs | - | send_router
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ghost Tracked(w): Tracked<&mut World>
//@rewrite net_inp_r\.recv\(\) ==> net_inp_r.recv(Tracked(&mut *w)) # ghost argument
//@rewrite party_out_s\s*\.send\(ReceivedMessage \{(.*?)\}\) ==> party_out_s.send(ReceivedMessage {\1}, Tracked(&mut *w)) # ghost argument
//@rewrite \]\.send\((mssg(?:\.clone\(\))?)\) ==> ].send(\1, Tracked(&mut *w)) # ghost argument
//@contract
    requires
        party_id < num_parties, party_inp_s@.len() == num_parties,
        forall|i: int| 0 <= i < num_parties ==> (#[trigger] party_inp_s@[i]).chan() == i,
        party_out_s.chan() == 0,
        net_inp_r.owner() == party_id,
        old(w).taken.len() == 0,
        routed(*old(w), party_id as int, num_parties as int),
    ensures
        routed(*final(w), party_id as int, num_parties as int),
//@loop 0
    invariant
        party_id < num_parties, party_inp_s@.len() == num_parties,
        forall|i: int| 0 <= i < num_parties ==> (#[trigger] party_inp_s@[i]).chan() == i,
        party_out_s.chan() == 0,
        net_inp_r.owner() == party_id,
        routed(*w, party_id as int, num_parties as int),
//@loopstart 0
        let ghost t0 = w.taken.drop_last();
        let ghost m0 = w.taken.last();
        proof { assert(t0.push(m0) =~= w.taken); wires_push(t0, m0); }
//@loop 1
    invariant
        w.taken == t0.push(m0), m0.to == Recipient::All, m0.from == party_id, m0.id == mssg.proto_id@, m0.data == mssg.data@,
        party_id < num_parties, party_inp_s@.len() == num_parties,
        forall|i: int| 0 <= i < num_parties ==> (#[trigger] party_inp_s@[i]).chan() == i,
        party_out_s.chan() == 0,
        w.peer.len() == num_parties, w.out.len() == 1,
        w.peer[party_id as int].len() == 0,
        w.out[0] == (if party_id < i { wires(t0, party_id as int).push((m0.id, m0.from, m0.data)) } else { wires(t0, party_id as int) }),
        forall|j: int| 0 <= j < num_parties && j != party_id ==> #[trigger] w.peer[j] == (if j < i { frames(t0, j).push((m0.id, m0.data)) } else { frames(t0, j) }),
//@end

// The router of the in-memory network.
spec fn spread(w: World, n: int) -> bool {
    w.out.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] w.out[j] == wires(w.taken, j)
}

//@fn src/protocol/network.rs | - | setup_local_network
//@slice while let Some\(\(sender_id, mssg\)\)
//@sig async fn local_router(mut router_r: UnboundedReceiver<(PartyID, SendMessage)>, party_out: Vec<UnboundedSender<ReceivedMessage>>, num_parties: u16)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ghost Tracked(w): Tracked<&mut World>
//@rewrite router_r\.recv\(\) ==> router_r.recv(Tracked(&mut *w)) # ghost argument
//@rewrite \.send\(ReceivedMessage \{(.*?)\}\) ==> .send(ReceivedMessage {\1}, Tracked(&mut *w)) # ghost argument
//@rewrite for tx in party_out\.iter\(\) ==> for tx in it: party_out.iter() # names the iterator for the invariant
//@contract
    requires
        party_out@.len() == num_parties,
        forall|i: int| 0 <= i < num_parties ==> (#[trigger] party_out@[i]).chan() == i,
        old(w).taken.len() == 0,
        spread(*old(w), num_parties as int),
    ensures
        spread(*final(w), num_parties as int),
//@loop 0
    invariant
        party_out@.len() == num_parties,
        forall|i: int| 0 <= i < num_parties ==> (#[trigger] party_out@[i]).chan() == i,
        spread(*w, num_parties as int),
//@loopstart 0
        let ghost t0 = w.taken.drop_last();
        let ghost m0 = w.taken.last();
        proof { assert(t0.push(m0) =~= w.taken); wires_push(t0, m0); }
//@loop 1
    invariant
        w.taken == t0.push(m0), m0.to == Recipient::All, m0.from == sender_id, m0.id == mssg.proto_id@, m0.data == mssg.data@,
        party_out@.len() == num_parties,
        forall|i: int| 0 <= i < num_parties ==> (#[trigger] party_out@[i]).chan() == i,
        w.out.len() == num_parties,
        forall|j: int| 0 <= j < num_parties ==> #[trigger] w.out[j] == (if j < it.index@ { wires(t0, j).push((m0.id, m0.from, m0.data)) } else { wires(t0, j) }),
//@end

} // verus!
