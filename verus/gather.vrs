// Gathering and barrier (C16): src/protocol/network.rs
use vstd::prelude::*;
verus! {
//@include net_types.vrs
//@note The messages of one identifier are handed out by `recv` in one fixed order (`Line.msgs`, proved for receive_router in unit router); every sender is below num_parties (unit route and transport).

// Ghost view of one identifier at one party: the messages the router hands out, in order, and how many were taken.
pub tracked struct Line { pub ghost id: Seq<u8>, pub ghost msgs: Seq<ReceivedMessage>, pub ghost pos: nat }
// Ghost view of what the party has sent.
pub tracked struct Sent { pub ghost log: Seq<SendMessage> }

#[verifier::external_body]
pub struct Network { n: u8 }

impl Network {
    #[verifier::external_body]
    pub async fn recv(&self, id: ProtocolID, Tracked(line): Tracked<&mut Line>) -> (r: ReceivedMessage)
        requires old(line).id == id@
        ensures
            final(line).id == old(line).id,
            final(line).msgs == old(line).msgs,
            final(line).pos == old(line).pos + 1,
            old(line).pos < old(line).msgs.len(),
            r == old(line).msgs[old(line).pos as int],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn send(&self, mssg: SendMessage, Tracked(sent): Tracked<&mut Sent>)
        ensures final(sent).log == old(sent).log.push(mssg)
    { unimplemented!() }
}

// Position of the first message of a party at or after a, before b.
spec fn first_of(msgs: Seq<ReceivedMessage>, a: int, b: int, p: int, i: int) -> bool {
    a <= i < b && msgs[i].from as int == p && forall|j: int| a <= j < i ==> msgs[j].from as int != p
}

spec fn heard(msgs: Seq<ReceivedMessage>, a: int, b: int, p: int) -> bool {
    exists|i: int| a <= i < b && msgs[i].from as int == p
}

spec fn count(s: Seq<bool>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { count(s.drop_last()) + if s.last() { 1nat } else { 0nat } }
}

proof fn count_false(s: Seq<bool>)
    requires forall|i: int| 0 <= i < s.len() ==> !s[i]
    ensures count(s) == 0
    decreases s.len()
{ if s.len() > 0 { count_false(s.drop_last()); } }

proof fn count_set(s: Seq<bool>, k: int)
    requires 0 <= k < s.len(), !s[k]
    ensures count(s.update(k, true)) == count(s) + 1
    decreases s.len()
{
    let t = s.update(k, true);
    if k == s.len() - 1 {
        assert(t.drop_last() =~= s.drop_last());
    } else {
        assert(t.drop_last() =~= s.drop_last().update(k, true));
        count_set(s.drop_last(), k);
    }
}

proof fn count_full(s: Seq<bool>)
    ensures count(s) <= s.len(), count(s) == s.len() ==> forall|i: int| 0 <= i < s.len() ==> s[i],
        (exists|i: int| 0 <= i < s.len() && !s[i]) ==> count(s) < s.len()
    decreases s.len()
{ if s.len() > 0 { count_full(s.drop_last()); assert forall|i: int| 0 <= i < s.len() - 1 implies s[i] == s.drop_last()[i] by {} } }

// Result of gathering from position a of the line: the data of each party's first message, with b the first position
// from which everybody has been heard.
spec fn gathered(msgs: Seq<ReceivedMessage>, a: int, b: int, n: int, res: Seq<Vec<u8>>) -> bool {
    &&& res.len() == n
    &&& forall|p: int| 0 <= p < n ==> #[trigger] heard(msgs, a, b, p)
    &&& forall|p: int, i: int| 0 <= p < n && #[trigger] first_of(msgs, a, b, p, i) ==> res[p]@ == msgs[i].data@
    &&& b > a ==> exists|p: int| 0 <= p < n && !#[trigger] heard(msgs, a, b - 1, p)
}

//@fn src/protocol/network.rs | - | message_from_each_party
//@ghost Tracked(line): Tracked<&mut Line>
//@rewrite net\s*\.\s*recv\(\s*proto_id\.clone\(\)\s*\) ==> net.recv(proto_id.clone(), Tracked(&mut *line)) # ghost argument added to the call
//@contract
    requires
        old(line).id == proto_id@,
        forall|i: int| 0 <= i < old(line).msgs.len() ==> (#[trigger] old(line).msgs[i]).from < num_parties,
    ensures
        final(line).id == old(line).id,
        final(line).msgs == old(line).msgs,
        final(line).pos >= old(line).pos,
        gathered(old(line).msgs, old(line).pos as int, final(line).pos as int, num_parties as int, res@),
//@entry
    let ghost start = line.pos as int;
    let ghost m = line.msgs;
    proof { assert forall|s: Seq<bool>| (forall|i: int| 0 <= i < s.len() ==> !s[i]) implies count(s) == 0 by { count_false(s); } }
//@loop 0
    invariant
        line.id == proto_id@,
        line.msgs == m,
        line.pos >= start,
        forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).from < num_parties,
        mssgs@.len() == num_parties,
        has_sent@.len() == num_parties,
        counter == count(has_sent@),
        counter <= num_parties,
        counter == num_parties ==> forall|p: int| 0 <= p < num_parties ==> has_sent@[p],
        forall|p: int| 0 <= p < num_parties ==> has_sent@[p] == #[trigger] heard(m, start, line.pos as int, p),
        forall|p: int, i: int| 0 <= p < num_parties && #[trigger] first_of(m, start, line.pos as int, p, i) ==> mssgs@[p]@ == m[i].data@,
        line.pos > start ==> exists|p: int| 0 <= p < num_parties && !#[trigger] heard(m, start, line.pos - 1, p),
    ensures
        counter == num_parties,
    decreases m.len() - line.pos
//@before while\b
    proof { count_full(has_sent@); }
//@before let mssg = net
        let ghost q0 = line.pos as int;
//@after let mssg = net
        proof {
            let q = line.pos as int;
            count_full(has_sent@);
            if !has_sent@[mssg.from as int] { count_set(has_sent@, mssg.from as int); count_full(has_sent@.update(mssg.from as int, true)); }
            assert forall|p: int| 0 <= p < num_parties implies #[trigger] heard(m, start, q, p) == (heard(m, start, q0, p) || p == mssg.from) by {
                if p == mssg.from { assert(m[q0].from as int == p); }
            }
            assert forall|p: int, i: int| 0 <= p < num_parties && #[trigger] first_of(m, start, q, p, i) implies
                (first_of(m, start, q0, p, i) && heard(m, start, q0, p)) || (i == q0 && p == mssg.from && !heard(m, start, q0, p)) by {}
            assert(exists|p: int| 0 <= p < num_parties && !has_sent@[p]) by { if forall|p: int| 0 <= p < num_parties ==> has_sent@[p] { all_set(has_sent@); } }
            let w = choose|p: int| 0 <= p < num_parties && !has_sent@[p];
            assert(!heard(m, start, q0, w));
            assert(line.pos - 1 == q0);
            assert(!heard(m, start, line.pos - 1, w));
        }
//@end

proof fn all_set(s: Seq<bool>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i]
    ensures count(s) == s.len()
    decreases s.len()
{ if s.len() > 0 { all_set(s.drop_last()); } }

//@fn src/protocol/network.rs | - | sync
//@ghost Tracked(line): Tracked<&mut Line>, Tracked(sent): Tracked<&mut Sent>
//@rewrite net\s*\.\s*send\(\s*SendMessage\s*(\{[^{}]*\})\s*\) ==> net.send(SendMessage \1, Tracked(&mut *sent)) # ghost argument added to the call
//@rewrite message_from_each_party\(([^()]*)\) ==> message_from_each_party(\1, Tracked(&mut *line)) # ghost argument added to the call
//@rewrite b"([^"]*)"\.to_vec\(\) ==> bytes() # byte string literal, content irrelevant to the contract
//@contract
    requires
        old(line).id == proto_id@,
        forall|i: int| 0 <= i < old(line).msgs.len() ==> (#[trigger] old(line).msgs[i]).from < num_parties,
    ensures
        // Everybody is told exactly once, and nothing else is sent.
        final(sent).log.len() == old(sent).log.len() + 1,
        final(sent).log.last().proto_id@ == proto_id@,
        final(sent).log.last().to == Recipient::All,
        // Every party has been heard when the barrier ends.
        forall|p: int| 0 <= p < num_parties ==> #[trigger] heard(old(line).msgs, old(line).pos as int, final(line).pos as int, p),
//@end

#[verifier::external_body]
fn bytes() -> Vec<u8> { unimplemented!() }

// What the units of single protocols assume of gathering (mpc.vrs), copied from there: `gather_of` is the data of a party's first message.
spec fn first(msgs: Seq<ReceivedMessage>, p: int, i: int) -> bool { 0 <= i && msgs[i].from as int == p && forall|j: int| 0 <= j < i ==> msgs[j].from as int != p }
proof fn least(msgs: Seq<ReceivedMessage>, b: int, p: int) -> (i: int)
    requires heard(msgs, 0, b, p)
    ensures first_of(msgs, 0, b, p, i), first(msgs, p, i)
    decreases b
{
    if heard(msgs, 0, b - 1, p) { least(msgs, b - 1, p) } else {
        let i = choose|i: int| 0 <= i < b && msgs[i].from as int == p;
        assert(i == b - 1);
        i
    }
}
uninterp spec fn line_of(net: Network, id: Seq<u8>) -> Seq<ReceivedMessage>;
spec fn gather_of(net: Network, id: Seq<u8>, p: int) -> Seq<u8> { line_of(net, id)[choose|i: int| first(line_of(net, id), p, i)].data@ }
// Nothing has been taken from the line of this identifier yet, and its messages come from the parties.
#[verifier::external_body]
fn fresh_line(net: &Network, id: &ProtocolID, n: usize) -> (r: Tracked<Line>)
    ensures r@.id == id@, r@.msgs == line_of(*net, id@), r@.pos == 0, forall|i: int| 0 <= i < r@.msgs.len() ==> (#[trigger] r@.msgs[i]).from < n
{ unimplemented!() }
mod told {
use super::*;
verus! {
//@stub mpc.vrs | - | message_from_each_party
    let Tracked(mut line) = fresh_line(net, &id, n);
    let ghost (m, nm) = (line.msgs, id@);
    let r = super::message_from_each_party(id, net, n, Tracked(&mut line)).await;
    proof {
        assert forall|p: int| 0 <= p < n implies (#[trigger] r@[p])@ == gather_of(*net, nm, p) by {
            assert(heard(m, 0, line.pos as int, p));
            let i = least(m, line.pos as int, p);
            let k = choose|k: int| first(line_of(*net, nm), p, k);
            assert(i == k) by { if i < k { assert(m[i].from as int != p); } if k < i { assert(m[k].from as int != p); } }
        }
    }
    r
//@end
}
}

} // verus!
