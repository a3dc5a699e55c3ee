// TCP framing (C18): party_sender and party_receiver in src/protocol/network.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include net_types.vrs
//@include std_vec.vrs
//@note A tokio channel hands over what was put in, in order; sending does not fail while the tasks run.
//@note A TCP stream hands over the bytes written, in order, in pieces of any size; read_exact fills the whole buffer or fails at the end of the stream.
//@note vint64 writes 1..=9 bytes, the first byte tells how many, and decoding gives back the number (proved for every u64 by the Kani harness kani/vint, on the version in Cargo.lock).

// The wire format: length of the rest, length of the identifier, identifier, data.
spec fn frame(id: Seq<u8>, data: Seq<u8>) -> Seq<u8> {
    vint64::vint((id.len() + data.len() + 1) as u64) + seq![id.len() as u8] + id + data
}

type Mssg = (Seq<u8>, Seq<u8>);

spec fn fits(m: Mssg) -> bool { m.0.len() <= 255 && m.0.len() + m.1.len() + 10 <= usize::MAX }

spec fn stream(t: Seq<Mssg>) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { seq![] } else { frame(t[0].0, t[0].1) + stream(t.drop_first()) }
}

proof fn stream_push(t: Seq<Mssg>, m: Mssg)
    ensures stream(t.push(m)) =~= stream(t) + frame(m.0, m.1)
    decreases t.len()
{
    if t.len() == 0 {
        assert(t.push(m).drop_first() =~= seq![]);
    } else {
        assert(t.push(m).drop_first() =~= t.drop_first().push(m));
        stream_push(t.drop_first(), m);
        assert(t.push(m)[0] == t[0]);
        assert(stream(t.push(m)) =~= frame(t[0].0, t[0].1) + stream(t.push(m).drop_first()));
    }
}

// The stream from message k on: its frame, then the rest; it ends only after the last message.
proof fn stream_at(t: Seq<Mssg>, k: int)
    requires 0 <= k <= t.len()
    ensures
        k < t.len() ==> stream(t.skip(k)) == frame(t[k].0, t[k].1) + stream(t.skip(k + 1)),
        k == t.len() ==> stream(t.skip(k)).len() == 0,
        stream(t.skip(k)).len() == 0 ==> k == t.len(),
{
    if k < t.len() {
        assert(t.skip(k)[0] == t[k]);
        assert(t.skip(k).drop_first() =~= t.skip(k + 1));
        vint64::vint_len((t[k].0.len() + t[k].1.len() + 1) as u64);
    }
}

mod vint64 {
    use vstd::prelude::*;
    verus! {
    pub uninterp spec fn vint(n: u64) -> Seq<u8>;
    pub uninterp spec fn vlen(b: u8) -> int;
    pub axiom fn vint_len(n: u64)
        ensures 1 <= vint(n).len() <= 9, vlen(vint(n)[0]) == vint(n).len();

    #[verifier::external_body]
    pub struct Enc { e: u8 }
    impl Enc {
        pub uninterp spec fn num(&self) -> u64;
        #[verifier::external_body]
        pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == vint(self.num()) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn encode(n: u64) -> (r: Enc) ensures r.num() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn encoded_len(n: u64) -> (r: usize) ensures r == vint(n).len(), 1 <= r <= 9 { unimplemented!() }
    #[verifier::external_body]
    pub fn decoded_len(b: u8) -> (r: usize) ensures r == vlen(b), 1 <= r <= 9 { unimplemented!() }
    #[verifier::external_body]
    pub fn decode(b: &[u8]) -> (r: Result<u64, ()>) ensures forall|n: u64| b@ == #[trigger] vint(n) ==> r == Ok::<u64, ()>(n) { unimplemented!() }
    }
}

// What the task took from its channel, and what it wrote.
tracked struct Out { ghost taken: Seq<Mssg>, ghost bytes: Seq<u8> }
// What is left to read, and what the task put on its channel.
tracked struct Inp { ghost rest: Seq<u8>, ghost out: Seq<(Seq<u8>, PartyID, Seq<u8>)> }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct UnboundedSender<T> { t: std::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct UnboundedReceiver<T> { t: std::marker::PhantomData<T> }

impl UnboundedSender<ReceivedMessage> {
    #[verifier::external_body]
    fn send(&self, m: ReceivedMessage, Tracked(w): Tracked<&mut Inp>) -> (r: Result<(), ()>)
        ensures r.is_ok(), final(w).rest == old(w).rest, final(w).out == old(w).out.push((m.proto_id@, m.from, m.data@))
    { unimplemented!() }
}

impl UnboundedReceiver<SendMessage> {
    // Identifiers are at most 255 bytes long (unit ids) and a message fits in memory.
    #[verifier::external_body]
    async fn recv(&mut self, Tracked(w): Tracked<&mut Out>) -> (r: Option<SendMessage>)
        ensures
            final(w).bytes == old(w).bytes,
            match r {
                Some(m) => final(w).taken.len() > 0 && final(w).taken.drop_last() == old(w).taken && final(w).taken.last() == (m.proto_id@, m.data@) && fits(final(w).taken.last()),
                None => final(w).taken == old(w).taken,
            }
    { unimplemented!() }
}

#[verifier::external_body]
struct OwnedWriteHalf { s: u8 }
impl OwnedWriteHalf {
    #[verifier::external_body]
    async fn write_all(&mut self, b: &[u8], Tracked(w): Tracked<&mut Out>) -> (r: Result<(), ()>)
        ensures r.is_ok(), final(w).taken == old(w).taken, final(w).bytes == old(w).bytes + b@
    { unimplemented!() }
    #[verifier::external_body]
    async fn flush(&mut self) -> (r: Result<(), ()>) ensures r.is_ok() { unimplemented!() }
}

#[verifier::external_body]
struct OwnedReadHalf { s: u8 }
impl OwnedReadHalf {
    #[verifier::external_body]
    async fn read_exact(&mut self, b: &mut [u8], Tracked(w): Tracked<&mut Inp>) -> (r: Result<usize, ()>)
        ensures
            final(w).out == old(w).out,
            final(b)@.len() == old(b)@.len(),
            r.is_ok() == (old(w).rest.len() >= old(b)@.len()),
            r.is_ok() ==> final(b)@ == old(w).rest.take(old(b)@.len() as int) && final(w).rest == old(w).rest.skip(old(b)@.len() as int),
            r.is_err() ==> final(w).rest.len() == 0,
    { unimplemented!() }

    // One call may deliver fewer bytes than asked for.
    #[verifier::external_body]
    async fn read(&mut self, b: &mut [u8], Tracked(w): Tracked<&mut Inp>) -> (r: Result<usize, ()>)
        ensures
            final(w).out == old(w).out,
            final(b)@.len() == old(b)@.len(),
            r matches Ok(k) && k <= old(b)@.len() && k <= old(w).rest.len() && (old(w).rest.len() > 0 && old(b)@.len() > 0 ==> k > 0)
                && final(b)@ == old(w).rest.take(k as int) + old(b)@.skip(k as int) && final(w).rest == old(w).rest.skip(k as int),
    { unimplemented!() }
}

//@fn src/protocol/network.rs | - | party_sender
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ghost Tracked(w): Tracked<&mut Out>
//@rewrite incoming\.recv\(\) ==> incoming.recv(Tracked(&mut *w)) # ghost argument
//@rewrite \.write_all\(&buffer\) ==> .write_all(&buffer, Tracked(&mut *w)) # ghost argument
//@contract
    requires
        old(w).taken.len() == 0, old(w).bytes.len() == 0,
    ensures
        final(w).bytes == stream(final(w).taken),
//@loop 0
    invariant
        w.bytes == stream(w.taken),
//@loopstart 0
        let ghost t0 = w.taken.drop_last();
        let ghost m0 = w.taken.last();
        proof { assert(t0.push(m0) =~= w.taken); stream_push(t0, m0); }
//@loopend 0
        proof { assert(w.bytes =~= stream(t0) + frame(m0.0, m0.1)); }
//@end

//@fn src/protocol/network.rs | - | party_receiver
//@attr #[verifier::exec_allows_no_decreases_clause]
//@ghost Tracked(w): Tracked<&mut Inp>, Ghost(t): Ghost<Seq<Mssg>>
//@rewrite incoming\s*\.(read\w*)\((&mut [^()]*)\) ==> incoming.\1(\2, Tracked(&mut *w)) # ghost argument
//@rewrite vint64::decode\(&mut (.*?)\) ==> vint64::decode(\1) # the cursor is not used afterwards
//@rewrite \.send\((\w+)\) ==> .send(\1, Tracked(&mut *w)) # ghost argument
//@contract
    requires
        old(w).out.len() == 0,
        old(w).rest == stream(t),
        forall|i: int| 0 <= i < t.len() ==> fits(#[trigger] t[i]),
    ensures
        // exactly the messages that were written, in order, each with the peer as its sender
        final(w).out =~= t.map_values(|m: Mssg| (m.0, pid, m.1)),
//@entry
        let ghost mut k: int = 0;
        proof { assert(t.skip(0) =~= t); stream_at(t, 0); }
//@loop 0
    invariant
        0 <= k <= t.len(),
        w.rest == stream(t.skip(k)),
        w.rest.len() == 0 ==> k == t.len(),
        k == t.len() ==> w.rest.len() == 0,
        w.out =~= t.take(k).map_values(|m: Mssg| (m.0, pid, m.1)),
        forall|i: int| 0 <= i < t.len() ==> fits(#[trigger] t[i]),
    ensures
        k == t.len(),
//@loopstart 0
        let ghost s = stream(t.skip(k));
        let ghost m = t[k];
        let ghost n = (m.0.len() + m.1.len() + 1) as u64;
        let ghost v = vint64::vint(n);
        let ghost tail = stream(t.skip(k + 1));
        proof {
            stream_at(t, k);
            vint64::vint_len(n);
            assert(fits(t[k]));
            assert(s == v + seq![m.0.len() as u8] + m.0 + m.1 + tail);
            assert(bytes@.take(1)[0] == s[0]);
            assert(s[0] == v[0]);
            assert(bytes@[0] == v[0]);
        }
//@before vint64::decode\(
        proof {
            assert(bytes@.take(enc_len as int) =~= v);
            assert(w.rest =~= seq![m.0.len() as u8] + m.0 + m.1 + tail);
        }
//@loopend 0
        proof {
            assert(mssg@ =~= seq![m.0.len() as u8] + m.0 + m.1);
            assert(w.rest =~= tail);
            let o = w.out.last();
            assert(o.0 =~= m.0);
            assert(o.2 =~= m.1);
            stream_at(t, k + 1);
            k = k + 1;
        }
//@end
} // verus!
