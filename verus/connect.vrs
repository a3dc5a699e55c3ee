// Connecting the parties of a TCP network (C30): connect_to_peers in src/protocol/network.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@std for
//@include std_vec.vrs
//@include iter.vrs
//@item src/lib.rs | (?:pub )?type PartyID\b
//@note Sockets: a connection to the address of a party that listens there is one to that party; one that is refused may be tried again, and only finitely many tries fail (the peer starts some time); a listener hands out every connection made to its port, in any order.
//@note Every party runs this function with the same list of addresses: exactly the parties with higher numbers connect, once each, and say their number first (the second is proved below for the connecting side).
//@note Tasks are read as run where they are started: the accepting task and each connecting task wait for other parties only, never for each other, so the order does not matter.
pub struct Ready<T> { pub v: T }
pub fn ready<T>(v: T) -> (r: Ready<T>) ensures r.v == v { Ready { v } }
impl<T> Ready<T> { pub fn joined(self) -> (r: T) ensures r == self.v { self.v } }

// What the others do: who connects here, in order of arrival, and how many tries to connect still fail.
impl Num for u16 { open spec fn val(&self) -> int { *self as int } }
pub tracked struct Peers { pub ghost coming: Seq<int>, pub ghost taken: nat, pub ghost fails: nat }
pub uninterp spec fn owner(address: Seq<char>) -> int;
pub uninterp spec fn port_s(address: Seq<char>) -> Option<Seq<char>>;
pub open spec fn any_host(port: Seq<char>) -> Seq<char> { "0.0.0.0:"@ + port }

#[verifier::external_body]
fn port_of(a: &String) -> (r: String) requires port_s(a@) is Some ensures r@ == port_s(a@)->Some_0 { unimplemented!() }
#[verifier::external_body]
fn text(a: &str) -> (r: String) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
fn append(a: &mut String, b: String) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
axiom fn string_clone() ensures forall|a: String, b: String| #[trigger] cloned::<String>(a, b) ==> a@ == b@;

#[verifier::external_body]
pub struct TcpListener { x: u8 }
#[verifier::external_body]
pub struct TcpStream { x: u8 }
pub struct SocketAddr { }
impl TcpListener {
    pub uninterp spec fn at(&self) -> Seq<char>;
    #[verifier::external_body]
    pub async fn bind(a: String) -> (r: Result<TcpListener, ()>) ensures r.is_ok(), r->Ok_0.at() == a@ { unimplemented!() }
    // One more connection: waiting for one that never comes would not end, so it has to be one that comes.
    #[verifier::external_body]
    pub async fn accept(&self, Tracked(p): Tracked<&mut Peers>, Ghost(address): Ghost<Seq<char>>) -> (r: Result<(TcpStream, SocketAddr), ()>)
        requires old(p).taken < old(p).coming.len(), port_s(address) is Some, self.at() == any_host(port_s(address)->Some_0)
        ensures r.is_ok(), r->Ok_0.0.peer() == old(p).coming[old(p).taken as int], r->Ok_0.0.said() == Seq::<u16>::empty(), r->Ok_0.0.heard() == 0,
            final(p).coming == old(p).coming, final(p).taken == old(p).taken + 1, final(p).fails == old(p).fails
    { unimplemented!() }
}
impl TcpStream {
    pub uninterp spec fn peer(&self) -> int;
    pub uninterp spec fn said(&self) -> Seq<u16>;
    pub uninterp spec fn heard(&self) -> int;
    #[verifier::external_body]
    pub async fn connect(a: &String, Tracked(p): Tracked<&mut Peers>) -> (r: Result<TcpStream, ()>)
        ensures
            final(p).coming == old(p).coming, final(p).taken == old(p).taken,
            r.is_ok() ==> r->Ok_0.peer() == owner(a@) && r->Ok_0.said() == Seq::<u16>::empty() && r->Ok_0.heard() == 0,
            r.is_err() ==> final(p).fails < old(p).fails,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_nodelay(&self, b: bool) -> (r: Result<(), ()>) ensures r.is_ok() { unimplemented!() }
    // The first number a peer sends is its own.
    #[verifier::external_body]
    pub async fn read_u16(&mut self) -> (r: Result<u16, ()>)
        ensures r.is_ok(), old(self).heard() == 0 ==> r->Ok_0 as int == old(self).peer(), final(self).peer() == old(self).peer(), final(self).said() == old(self).said(), final(self).heard() == old(self).heard() + 2
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn write_u16(&mut self, v: u16) -> (r: Result<(), ()>)
        ensures r.is_ok(), final(self).peer() == old(self).peer(), final(self).said() == old(self).said().push(v), final(self).heard() == old(self).heard()
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn flush(&mut self) -> (r: Result<(), ()>)
        ensures r.is_ok(), final(self).peer() == old(self).peer(), final(self).said() == old(self).said(), final(self).heard() == old(self).heard()
    { unimplemented!() }
}
#[verifier::external_body]
async fn pause() { unimplemented!() }

// The others' part: every party with a higher number connects once, in any order.
pub open spec fn arranged(p: Peers, me: int, n: int) -> bool {
    &&& p.taken == 0 && p.coming.len() == n - me - 1 && p.coming.no_duplicates()
    &&& forall|k: int| 0 <= k < p.coming.len() ==> me < #[trigger] p.coming[k] < n
}
pub open spec fn accepted(v: Seq<Option<TcpStream>>, c: Seq<int>, k: int) -> bool {
    forall|j: int| 0 <= j < v.len() ==> if came(c, k, j) { #[trigger] v[j] is Some && v[j]->Some_0.peer() == j && v[j]->Some_0.said() == Seq::<u16>::empty() && v[j]->Some_0.heard() == 2 } else { v[j] is None }
}
pub open spec fn came(c: Seq<int>, k: int, j: int) -> bool { exists|t: int| 0 <= t < k && #[trigger] c[t] == j }
// As many different numbers as there are higher parties are all of them.
proof fn all_came(p: Peers, me: int, n: int, j: int)
    requires p.coming.len() == n - me - 1, p.coming.no_duplicates(), forall|k: int| 0 <= k < p.coming.len() ==> me < #[trigger] p.coming[k] < n, me < j < n
    ensures came(p.coming, p.coming.len() as int, j)
{
    p.coming.unique_seq_to_set();
    let all = vstd::set_lib::set_int_range(me + 1, n);
    vstd::set_lib::lemma_int_range(me + 1, n);
    assert(p.coming.to_set().subset_of(all)) by {
        assert forall|x: int| p.coming.to_set().contains(x) implies all.contains(x) by { let k = choose|k: int| 0 <= k < p.coming.len() && p.coming[k] == x; assert(me < p.coming[k] < n); }
    }
    vstd::set_lib::lemma_subset_equality(p.coming.to_set(), all);
    assert(all.contains(j));
    assert(p.coming.contains(j));
}
// One connection to every other party, at its place; those below have been told who we are, those above have told us.
pub open spec fn connected(v: Seq<Option<TcpStream>>, me: int, n: int) -> bool {
    &&& v.len() == n && v[me] is None
    &&& forall|i: int| 0 <= i < n && i != me ==> (#[trigger] v[i]) is Some && v[i]->Some_0.peer() == i
    &&& forall|i: int| 0 <= i < me ==> (#[trigger] v[i])->Some_0.said() == seq![me as u16] && v[i]->Some_0.heard() == 0
    &&& forall|i: int| me < i < n ==> (#[trigger] v[i])->Some_0.said() == Seq::<u16>::empty() && v[i]->Some_0.heard() == 2
}

//@fn src/protocol/network.rs | - | connect_to_peers
//@ghost Tracked(p): Tracked<&mut Peers>
//@rewrite spawn\(async move \{ ==> ready({ # a task, run where it is started
//@rewrite \b(\w+)\.await\.unwrap\(\) ==> \1.joined() # the result of a task
//@rewrite let \(_, (\w+)\) = (\w+)\.split_once\(':'\)\.unwrap\(\); ==> let \1 = port_of(&\2); # the part behind the colon
//@rewrite String::from\( ==> text( # the string
//@rewrite (\w+)\.push_str\((\w+)\); ==> append(&mut \1, \2); # concatenation
//@rewrite (?:tokio::time::)?sleep\(Duration::from_\w+\(\w+\)\)\.await ==> pause().await # waiting some time
//@rewrite let mut (\w+) = \{\s*loop \{ ==> let mut __got: Option<TcpStream> = None; let mut \1 = { loop { # the value a loop ends with as a variable
//@rewrite \bbreak (\w+); ==> __got = Some(\1); break; # as above
//@rewrite (pause\(\)\.await;\s*\})(\s*\};) ==> \1 __got.unwrap()\2 # as above
//@rewrite TcpStream::connect\(&(\w+)\) ==> TcpStream::connect(&\1, Tracked(&mut *p)) # ghost argument
//@rewrite (\w+)\.accept\(\) ==> \1.accept(Tracked(&mut *p), Ghost(addresses@[party_id as int]@)) # ghost arguments
//@contract
    requires party_id < addresses@.len() <= 65535, port_s(addresses@[party_id as int]@) is Some,
        forall|i: int| 0 <= i < addresses@.len() ==> owner((#[trigger] addresses@[i])@) == i,
        arranged(*old(p), party_id as int, addresses@.len() as int),
    ensures connected(res@, party_id as int, addresses@.len() as int), final(p).taken == final(p).coming.len(), final(p).coming == old(p).coming
//@entry
    let ghost (me, n, q0) = (party_id as int, addresses@.len() as int, *p);
    proof { string_clone(); }
//@closure 0
    |_i: u16| -> (r: Option<TcpStream>) ensures r is None
//@loop 0
    invariant
        me == party_id, n == num_parties, n == addresses@.len(), me < n, port_s(addresses@[me]@) is Some,
        arranged(q0, me, n), p.coming == q0.coming, p.taken == __k0, __s0@.len() == n - me - 1,
        listener.at() == any_host(port_s(addresses@[me]@)->Some_0),
        streams@.len() == n, accepted(streams@, q0.coming, __k0 as int),
//@loopend 0
    proof {
        assert forall|j: int| 0 <= j < n implies came(q0.coming, __k0 as int, j) == (came(q0.coming, __k0 - 1, j) || j == pid) by {
            assert(q0.coming[__k0 - 1] == pid);
        }
    }
//@loop 1
    invariant
        me == party_id, me < n, n == addresses@.len(), n <= 65535, p.coming == q0.coming, p.taken == q0.coming.len(),
        forall|i: int| 0 <= i < n ==> owner((#[trigger] addresses@[i])@) == i,
        __s1@.len() == me, forall|j: int| 0 <= j < me ==> (#[trigger] __s1@[j])@ == addresses@[j]@,
        made_to(connect_to_peers_futures@, __k1 as int, me),
//@loop 2
    invariant p.coming == q0.coming, p.taken == q0.coming.len(),
    ensures __got matches Some(s) && s.peer() == owner(peer_address@) && s.said() == Seq::<u16>::empty() && s.heard() == 0,
    decreases p.fails
//@loop 3
    invariant
        me == party_id, me < n, n <= 65535, __s3@.len() == me, streams@.len() == n,
        forall|j: int| 0 <= j < me ==> (#[trigger] __s3@[j]).0 == j && told(__s3@[j].1.v, j, me),
        streams@[me] is None,
        forall|j: int| 0 <= j < __k3 ==> (#[trigger] streams@[j]) is Some && told(streams@[j]->Some_0, j, me),
        forall|j: int| me < j < n ==> (#[trigger] streams@[j]) is Some && streams@[j]->Some_0.peer() == j && streams@[j]->Some_0.said() == Seq::<u16>::empty() && streams@[j]->Some_0.heard() == 2,
//@preloop 3
    proof {
        assert forall|j: int| me < j < n implies (#[trigger] streams@[j]) is Some && streams@[j]->Some_0.peer() == j by { all_came(q0, me, n, j); }
        if came(q0.coming, q0.coming.len() as int, me) { let t = choose|t: int| 0 <= t < q0.coming.len() && #[trigger] q0.coming[t] == me; assert(me < q0.coming[t]); }
    }
//@end
pub open spec fn made_to(f: Seq<Ready<TcpStream>>, k: int, me: int) -> bool { f.len() == k && forall|j: int| 0 <= j < k ==> told((#[trigger] f[j]).v, j, me) }
// A connection made to party j that has been told our number.
pub open spec fn told(s: TcpStream, j: int, me: int) -> bool { s.peer() == j && s.said() == seq![me as u16] && s.heard() == 0 }
// What unit wiring assumes of this function, copied from there.
#[verifier::external_body]
fn others(me: PartyID, n: usize) -> (r: Tracked<Peers>) ensures arranged(r@, me as int, n as int) { unimplemented!() }
//@stub wiring.vrs | - | connect_to_peers | addresses@.len() <= 65535, port_s(addresses@[me as int]@) is Some, forall|i: int| 0 <= i < addresses@.len() ==> owner((#[trigger] addresses@[i])@) == i
    let Tracked(mut p) = others(me, addresses.len());
    connect_to_peers(me, addresses, Tracked(&mut p)).await
//@end
}
