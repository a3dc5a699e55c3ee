// Byte statistics (C19): Stats in src/protocol/network.rs
use vstd::prelude::*;
verus! {
//@include net_types.vrs
//@note The table is only touched while its RwLock is held, so each access is one atomic step on the ghost cell.
//@note Byte counts stay below 2^64.

tracked struct Cell { ghost v: Seq<(u64, u64)> }

// Arc<RwLock<..>>: the shared table. Its content is the ghost cell.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct Table<T> { t: std::marker::PhantomData<T> }

impl Table<Vec<(u64, u64)>> {
    #[verifier::external_body]
    fn write<'a>(&self, Tracked(c): Tracked<&'a mut Cell>) -> (r: &'a mut Vec<(u64, u64)>)
        ensures (*r)@ == old(c).v, final(c).v == (*final(r))@
    { unimplemented!() }

    #[verifier::external_body]
    fn read<'a>(&self, Tracked(c): Tracked<&'a mut Cell>) -> (r: &'a Vec<(u64, u64)>)
        ensures (*r)@ == old(c).v, final(c).v == old(c).v
    { unimplemented!() }
}

#[verifier::external_body]
fn table(v: Vec<(u64, u64)>) -> (r: (Table<Vec<(u64, u64)>>, Tracked<Cell>))
    ensures r.1@.v == v@
{ unimplemented!() }

// Cloning a pair of integers copies it.
axiom fn pair_clone()
    ensures forall|a: (u64, u64), b: (u64, u64)| #[trigger] cloned(a, b) ==> a == b;

//@item src/protocol/network.rs | struct Stats\(
//@rewrite Arc<RwLock<(.*)>> ==> Table<\1> # the lock and its content

spec fn sum(s: Seq<(u64, u64)>, first: bool) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { sum(s.drop_last(), first) + if first { s.last().0 as int } else { s.last().1 as int } }
}

proof fn sum_push(s: Seq<(u64, u64)>, i: int, first: bool)
    requires 0 <= i < s.len()
    ensures sum(s.take(i + 1), first) == sum(s.take(i), first) + if first { s[i].0 as int } else { s[i].1 as int }
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
}

proof fn sum_mono(s: Seq<(u64, u64)>, i: int, first: bool)
    requires 0 <= i <= s.len()
    ensures 0 <= sum(s.take(i), first) <= sum(s, first)
    decreases s.len() - i
{
    if i == s.len() {
        assert(s.take(i) =~= s);
        sum_nonneg(s, first);
    } else {
        sum_push(s, i, first);
        sum_mono(s, i + 1, first);
        sum_nonneg(s.take(i), first);
    }
}

proof fn sum_nonneg(s: Seq<(u64, u64)>, first: bool)
    ensures sum(s, first) >= 0
    decreases s.len()
{ if s.len() > 0 { sum_nonneg(s.drop_last(), first); } }

//@fn src/protocol/network.rs | ^impl Stats | new
//@head -> Self ==> -> (Stats, Tracked<Cell>) # hands out the ghost cell of the new table
//@rewrite Stats\(Arc::new\(RwLock::new\((.*)\)\)\) ==> { let t = table(\1); (Stats(t.0), t.1) } # the new lock with its ghost cell
//@rename stats_new
//@entry
    proof { pair_clone(); }
//@contract
    ensures
        res.1@.v =~= Seq::new(num_parties as nat, |i: int| (0u64, 0u64)),
//@end

impl Stats {
//@fn src/protocol/network.rs | ^impl Stats | increment
//@ghost Tracked(c): Tracked<&mut Cell>
//@rewrite let mut vals = self\.0\.write\(\)\.await ==> let vals = self.0.write(Tracked(&mut *c)) # lock taken; ghost argument
//@contract
    requires
        (from as int) < old(c).v.len(),
        old(c).v[from as int].0 + proto_bytes <= u64::MAX,
        old(c).v[from as int].1 + net_bytes <= u64::MAX,
    ensures
        final(c).v == old(c).v.update(from as int, ((old(c).v[from as int].0 + proto_bytes) as u64, (old(c).v[from as int].1 + net_bytes) as u64)),
//@end

//@fn src/protocol/network.rs | ^impl Stats | party
//@ghost Tracked(c): Tracked<&mut Cell>
//@rewrite self\.0\.read\(\)\.await ==> self.0.read(Tracked(&mut *c)) # lock taken; ghost argument
//@contract
    requires
        (from as int) < old(c).v.len(),
    ensures
        res == old(c).v[from as int],
        final(c).v == old(c).v,
//@end

//@fn src/protocol/network.rs | ^impl Stats | total
//@ghost Tracked(c): Tracked<&mut Cell>
//@rewrite self\.0\.read\(\)\.await ==> self.0.read(Tracked(&mut *c)) # lock taken; ghost argument
//@rewrite for val in vals\.iter\(\) ==> for val in it: vals.iter() # names the iterator for the invariant
//@contract
    requires
        sum(old(c).v, true) <= u64::MAX,
        sum(old(c).v, false) <= u64::MAX,
    ensures
        res.0 == sum(old(c).v, true),
        res.1 == sum(old(c).v, false),
        final(c).v == old(c).v,
//@loop 0
    invariant
        vals@ == old(c).v,
        vals@.take(vals@.len() as int) == vals@,
        proto_bytes == sum(vals@.take(it.index@), true),
        net_bytes == sum(vals@.take(it.index@), false),
        sum(vals@, true) <= u64::MAX,
        sum(vals@, false) <= u64::MAX,
//@before for\b
    proof { assert(vals@.take(vals@.len() as int) =~= vals@); }
//@loopstart 0
    proof {
        sum_push(vals@, it.index@, true); sum_push(vals@, it.index@, false);
        sum_mono(vals@, it.index@ + 1, true); sum_mono(vals@, it.index@ + 1, false);
    }
//@end
}

// The table after any sequence of counted messages (unit router: one for every arrival, in order): for every party the
// sum of what was counted for it.
spec fn tally(log: Seq<(PartyID, u64, u64)>, p: int, first: bool) -> int decreases log.len() {
    if log.len() == 0 { 0 } else {
        tally(log.drop_last(), p, first) + if log.last().0 as int != p { 0 } else if first { log.last().1 as int } else { log.last().2 as int }
    }
}
proof fn tally_step(log: Seq<(PartyID, u64, u64)>, i: int, p: int, first: bool)
    requires 0 <= i < log.len()
    ensures tally(log.take(i + 1), p, first) == tally(log.take(i), p, first) + (if log[i].0 as int != p { 0 } else if first { log[i].1 as int } else { log[i].2 as int }),
        tally(log.take(i + 1), p, first) <= tally(log, p, first)
    decreases log.len() - i
{
    assert(log.take(i + 1).drop_last() =~= log.take(i));
    if i + 1 < log.len() { tally_step(log, i + 1, p, first); } else { assert(log.take(i + 1) =~= log); }
}
async fn theorem_tally(s: &Stats, log: &Vec<(PartyID, u64, u64)>, Tracked(c): Tracked<&mut Cell>)
    requires
        forall|i: int| 0 <= i < log@.len() ==> ((#[trigger] log@[i]).0 as int) < old(c).v.len(),
        forall|p: int| 0 <= p < old(c).v.len() ==> (#[trigger] old(c).v[p]).0 + tally(log@, p, true) <= u64::MAX && old(c).v[p].1 + tally(log@, p, false) <= u64::MAX,
    ensures
        final(c).v.len() == old(c).v.len(),
        forall|p: int| 0 <= p < old(c).v.len() ==> (#[trigger] final(c).v[p]).0 == old(c).v[p].0 + tally(log@, p, true) && final(c).v[p].1 == old(c).v[p].1 + tally(log@, p, false),
{
    let ghost v0 = c.v;
    let mut i = 0usize;
    while i < log.len()
        invariant
            i <= log@.len(), c.v.len() == v0.len(),
            forall|i: int| 0 <= i < log@.len() ==> ((#[trigger] log@[i]).0 as int) < v0.len(),
            forall|p: int| 0 <= p < v0.len() ==> (#[trigger] v0[p]).0 + tally(log@, p, true) <= u64::MAX && v0[p].1 + tally(log@, p, false) <= u64::MAX,
            forall|p: int| 0 <= p < v0.len() ==> (#[trigger] c.v[p]).0 == v0[p].0 + tally(log@.take(i as int), p, true) && c.v[p].1 == v0[p].1 + tally(log@.take(i as int), p, false),
        decreases log@.len() - i
    {
        let (p, a, b) = (log[i].0, log[i].1, log[i].2);
        proof {
            assert(v0[p as int] == v0[p as int]);
            assert(c.v[p as int] == c.v[p as int]);
            assert forall|q: int| 0 <= q < v0.len() implies
                tally(log@.take(i + 1), q, true) == tally(log@.take(i as int), q, true) + (if q == p { a as int } else { 0 })
                && tally(log@.take(i + 1), q, false) == #[trigger] tally(log@.take(i as int), q, false) + (if q == p { b as int } else { 0 })
            by { tally_step(log@, i as int, q, true); tally_step(log@, i as int, q, false); }
            tally_step(log@, i as int, p as int, true);
            tally_step(log@, i as int, p as int, false);
        }
        s.increment(p, a, b, Tracked(&mut *c)).await;
        i += 1;
    }
    proof { assert(log@.take(log@.len() as int) =~= log@); }
}

// Snapshots: Stats in src/lib.rs. Counting goes on between any two reads.
mod protocol { pub mod network {
    use vstd::prelude::*;
    verus! {
    pub tracked struct Live { pub ghost v: Seq<(u64, u64)> }
    pub open spec fn grows(a: Seq<(u64, u64)>, b: Seq<(u64, u64)>) -> bool {
        a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 <= b[i].0 && a[i].1 <= b[i].1
    }
    #[verifier::external_body]
    pub struct Stats { s: u8 }
    impl Stats {
        // Contract of Stats::party above, after any number of increments by the router.
        #[verifier::external_body]
        pub async fn party(&self, from: u16, Tracked(c): Tracked<&mut Live>) -> (r: (u64, u64))
            requires (from as int) < old(c).v.len()
            ensures grows(old(c).v, final(c).v), r == final(c).v[from as int]
        { unimplemented!() }
    }
    }
} }
use protocol::network::{Live, grows};

#[verifier::external_body]
struct Instant { i: u8 }
#[verifier::external_body]
struct Duration { i: u8 }
impl Instant {
    #[verifier::external_body]
    fn now() -> Instant { unimplemented!() }
    #[verifier::external_body]
    fn elapsed(&self) -> Duration { unimplemented!() }
}
impl Duration {
    // below 2^64 ms
    #[verifier::external_body]
    fn as_millis(&self) -> (r: u128) ensures r <= u64::MAX { unimplemented!() }
}

mod snap {
use super::*;
use super::protocol;
verus! {
//@item src/lib.rs | struct Stats\b

// Between the reading at the start and at the end of the call.
spec fn within(a: Seq<(u64, u64)>, x: Seq<(u64, u64)>, b: Seq<(u64, u64)>) -> bool {
    &&& x.len() <= a.len() && a.len() == b.len()
    &&& forall|i: int| 0 <= i < x.len() ==> a[i].0 <= (#[trigger] x[i]).0 <= b[i].0 && a[i].1 <= x[i].1 <= b[i].1
}

spec fn diff(x: (u64, u64), base: (u64, u64)) -> (u64, u64) { ((x.0 - base.0) as u64, (x.1 - base.1) as u64) }

spec fn since(a: Seq<(u64, u64)>, x: Seq<(u64, u64)>, b: Seq<(u64, u64)>, base: Seq<(u64, u64)>) -> bool {
    forall|i: int| 0 <= i < x.len() ==>
        diff(a[i], base[i]).0 <= (#[trigger] x[i]).0 <= diff(b[i], base[i]).0
        && diff(a[i], base[i]).1 <= x[i].1 <= diff(b[i], base[i]).1
}

impl Stats {
//@fn src/lib.rs | ^impl Stats | now
//@ghost Tracked(c): Tracked<&mut Live>
//@rewrite stats\.party\(i\.try_into\(\)\.unwrap\(\)\) ==> stats.party(i.try_into().unwrap(), Tracked(&mut *c)) # ghost argument
//@contract
    requires
        n <= old(c).v.len(), n <= u16::MAX,
    ensures
        res.comm@.len() == n,
        grows(old(c).v, final(c).v),
        within(old(c).v, res.comm@, final(c).v),
//@loop 0
    invariant
        n <= c.v.len(), n <= u16::MAX,
        comm@.len() == i,
        grows(old(c).v, c.v),
        within(old(c).v, comm@, c.v),
//@end

//@fn src/lib.rs | ^impl Stats | elapsed
//@ghost Tracked(c): Tracked<&mut Live>
//@rewrite stats\.party\(i\.try_into\(\)\.unwrap\(\)\) ==> stats.party(i.try_into().unwrap(), Tracked(&mut *c)) # ghost argument
//@contract
    requires
        self.comm@.len() <= old(c).v.len(), self.comm@.len() <= u16::MAX,
        forall|i: int| 0 <= i < self.comm@.len() ==> (#[trigger] self.comm@[i]).0 <= old(c).v[i].0 && self.comm@[i].1 <= old(c).v[i].1,
    ensures
        res.1@.len() == self.comm@.len(),
        grows(old(c).v, final(c).v),
        // what arrived since the snapshot: exact when nothing arrives during the call
        since(old(c).v, res.1@, final(c).v, self.comm@),
//@loop 0
    invariant
        self.comm@.len() <= c.v.len(), self.comm@.len() <= u16::MAX,
        comm@.len() == i,
        grows(old(c).v, c.v),
        forall|i: int| 0 <= i < self.comm@.len() ==> (#[trigger] self.comm@[i]).0 <= old(c).v[i].0 && self.comm@[i].1 <= old(c).v[i].1,
        since(old(c).v, comm@, c.v, self.comm@),
//@end
}
}
}

} // verus!
