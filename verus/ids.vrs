// Sub-protocol identifiers (C15): src/protocol/mod.rs
use vstd::prelude::*;
use vstd::std_specs::bits::*;
verus! {
//@include std_vec.vrs

//@item src/protocol/mod.rs | type ProtocolID\b

// Little-endian value of a counter and the number of values of that length.
spec fn val(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] as nat + 256 * val(s.drop_first()) }
}

spec fn cap(len: nat) -> nat decreases len {
    if len == 0 { 1 } else { 256 * cap((len - 1) as nat) }
}

proof fn val_bound(s: Seq<u8>)
    ensures val(s) < cap(s.len())
    decreases s.len()
{
    if s.len() > 0 { val_bound(s.drop_first()); }
}

proof fn val_zero(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == 0
    ensures val(s) == 0
    decreases s.len()
{
    if s.len() > 0 { val_zero(s.drop_first()); }
}

// The counter is determined by its value: parties that drew equally often hold the same suffix.
proof fn val_injective(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(), val(a) == val(b)
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 {
        val_injective(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    } else {
        assert(a =~= b);
    }
}

proof fn cap_values()
    ensures cap(0) == 1, cap(1) == 0x100, cap(2) == 0x1_0000, cap(3) == 0x100_0000, cap(4) == 0x1_0000_0000,
        cap(5) == 0x100_0000_0000, cap(6) == 0x1_0000_0000_0000, cap(7) == 0x100_0000_0000_0000,
        cap(8) == 0x1_0000_0000_0000_0000
{
    reveal_with_fuel(cap, 10);
}

// The number of significant bytes is enough for every value up to num.
proof fn bytes_enough(num: u64, lz: int)
    requires lz == u64_leading_zeros(num)
    ensures lz <= 64, num < cap(((64 - lz + 7) / 8) as nat)
{
    axiom_u64_leading_zeros(num);
    cap_values();
    if num == 0 { } else if lz == 0 { } else {
        let s = (64 - lz) as u64;
        assert(num >> s == 0);
        assert(s >= 1 && s <= 64);
        let b = ((64 - lz + 7) / 8) as u64;
        if s < 8 { assert(num < 0x100) by (bit_vector) requires num >> s == 0, s <= 8; }
        if s <= 8 { assert(num < 0x100) by (bit_vector) requires num >> s == 0, s <= 8; }
        else if s <= 16 { assert(num < 0x1_0000) by (bit_vector) requires num >> s == 0, s <= 16; }
        else if s <= 24 { assert(num < 0x100_0000) by (bit_vector) requires num >> s == 0, s <= 24; }
        else if s <= 32 { assert(num < 0x1_0000_0000) by (bit_vector) requires num >> s == 0, s <= 32; }
        else if s <= 40 { assert(num < 0x100_0000_0000) by (bit_vector) requires num >> s == 0, s <= 40; }
        else if s <= 48 { assert(num < 0x1_0000_0000_0000) by (bit_vector) requires num >> s == 0, s <= 48; }
        else if s <= 56 { assert(num < 0x100_0000_0000_0000) by (bit_vector) requires num >> s == 0, s <= 56; }
    }
}

//@item src/protocol/mod.rs | struct ProtocolIDBuilder

impl<'a> ProtocolIDBuilder<'a> {
    //@fn src/protocol/mod.rs | ^impl<'a> ProtocolIDBuilder | new
    //@contract
        ensures
            res.id@ == parent_id@,
            val(res.suffix@) == 0,
            num < cap(res.suffix@.len()),
    //@entry
        proof { bytes_enough(num, u64_leading_zeros(num)); assert forall|s: Seq<u8>| (forall|i: int| 0 <= i < s.len() ==> s[i] == 0) implies val(s) == 0 by { val_zero(s); } }
    //@end

    //@fn src/protocol/mod.rs | ^impl<'a> ProtocolIDBuilder | increment_bytes
    //@contract
        requires idx <= old(self).suffix@.len()
        ensures
            final(self).id == old(self).id,
            final(self).suffix@.len() == old(self).suffix@.len(),
            forall|i: int| 0 <= i < idx ==> final(self).suffix@[i] == old(self).suffix@[i],
            res.is_ok() <==> val(old(self).suffix@.skip(idx as int)) + 1 < cap((old(self).suffix@.len() - idx) as nat),
            res.is_ok() ==> val(final(self).suffix@.skip(idx as int)) == val(old(self).suffix@.skip(idx as int)) + 1,
        decreases old(self).suffix@.len() - idx
    //@entry
        proof {
            let s = self.suffix@.skip(idx as int);
            val_bound(s);
            if s.len() > 0 {
                assert(s.drop_first() =~= self.suffix@.skip(idx + 1));
                val_bound(s.drop_first());
                assert(s.len() == s.drop_first().len() + 1);
                // whatever happens to the byte at idx, the rest of the counter is described by the recursion
                assert forall|t: Seq<u8>| t.len() == self.suffix@.len() implies #[trigger] t.skip(idx as int).drop_first() == t.skip(idx + 1) by {
                    assert(t.skip(idx as int).drop_first() =~= t.skip(idx + 1));
                }
                assert forall|b: u8| #[trigger] self.suffix@.update(idx as int, b).skip(idx + 1) == self.suffix@.skip(idx + 1) by {
                    assert(self.suffix@.update(idx as int, b).skip(idx + 1) =~= self.suffix@.skip(idx + 1));
                }
            }
        }
    //@end

    //@fn src/protocol/mod.rs | ^impl<'a> Iterator for ProtocolIDBuilder | next
    //@head Self::Item ==> ProtocolID # associated type of the Iterator impl; the method is checked as an inherent method
    //@contract
        ensures
            final(self).id == old(self).id,
            final(self).suffix@.len() == old(self).suffix@.len(),
            res.is_some() <==> val(old(self).suffix@) + 1 < cap(old(self).suffix@.len()),
            match res {
                Some(c) => c@ == old(self).id@ + old(self).suffix@ && val(final(self).suffix@) == val(old(self).suffix@) + 1,
                None => true,
            },
    //@entry
        proof { assert forall|s: Seq<u8>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); } }
    //@end
}

// What the contracts give together: k children exist, start with the parent, have one length, are pairwise
// distinct, and are a function of the parent, k and the place in the order of creation alone.
spec fn child(parent: Seq<u8>, len: nat, i: nat) -> Seq<u8>
    recommends i < cap(len)
{
    parent + choose|s: Seq<u8>| s.len() == len && val(s) == i
}

spec fn is_child(parent: Seq<u8>, len: nat, i: nat, c: Seq<u8>) -> bool {
    exists|s: Seq<u8>| #[trigger] s.len() == len && val(s) == i && c == parent + s
}

fn theorem_children(parent: &ProtocolID, k: u64) -> (r: Vec<ProtocolID>)
    ensures
        r@.len() == k,
        exists|len: nat| #![auto] k < cap(len) && forall|i: int| 0 <= i < k ==> #[trigger] r@[i]@ == child(parent@, len, i as nat) && r@[i]@.len() == parent@.len() + len,
        forall|i: int| 0 <= i < k ==> #[trigger] r@[i]@.len() >= parent@.len() && r@[i]@.take(parent@.len() as int) == parent@,
        forall|i: int, j: int| 0 <= i < k && 0 <= j < k ==> r@[i]@.len() == r@[j]@.len(),
        forall|i: int, j: int| 0 <= i < j < k ==> r@[i]@ != r@[j]@,
{
    let mut b = ProtocolIDBuilder::new(parent, k);
    let mut r: Vec<ProtocolID> = Vec::new();
    let ghost len = b.suffix@.len();
    let mut i = 0u64;
    while i < k
        invariant
            i <= k,
            k < cap(len),
            r@.len() == i,
            b.id@ == parent@,
            b.suffix@.len() == len,
            val(b.suffix@) == i,
            forall|j: int| 0 <= j < i ==> #[trigger] r@[j]@ == child(parent@, len, j as nat),
            forall|j: int| 0 <= j < i ==> is_child(parent@, len, j as nat, #[trigger] r@[j]@),
        decreases k - i
    {
        let ghost s = b.suffix@;
        let c = b.next().unwrap();
        proof {
            let t = choose|t: Seq<u8>| t.len() == len && val(t) == i as nat;
            val_injective(s, t);
            assert(s.len() == len && val(s) == i && c@ == parent@ + s);
            assert(is_child(parent@, len, i as nat, c@));
        }
        r.push(c);
        i += 1;
    }
    proof {
        assert forall|i: int| 0 <= i < k implies #[trigger] r@[i]@.len() >= parent@.len() && r@[i]@.take(parent@.len() as int) == parent@ && r@[i]@.len() == parent@.len() + len by {
            assert(is_child(parent@, len, i as nat, r@[i]@));
            let s = choose|s: Seq<u8>| #[trigger] s.len() == len && val(s) == i as nat && r@[i]@ == parent@ + s;
            assert(r@[i]@.take(parent@.len() as int) =~= parent@);
        }
        assert forall|i: int, j: int| 0 <= i < j < k implies r@[i]@ != r@[j]@ by {
            assert(is_child(parent@, len, i as nat, r@[i]@) && is_child(parent@, len, j as nat, r@[j]@));
            let s = choose|s: Seq<u8>| #[trigger] s.len() == len && val(s) == i as nat && r@[i]@ == parent@ + s;
            let t = choose|s: Seq<u8>| #[trigger] s.len() == len && val(s) == j as nat && r@[j]@ == parent@ + s;
            if r@[i]@ == r@[j]@ {
                assert(s =~= r@[i]@.skip(parent@.len() as int));
                assert(t =~= r@[j]@.skip(parent@.len() as int));
            }
        }
    }
    r
}

// Different parents of one length never give a common child.
proof fn parents_distinct(p: Seq<u8>, q: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    requires p.len() == q.len(), p != q
    ensures p + a != q + b
{
    if p + a == q + b {
        assert(p =~= (p + a).take(p.len() as int));
        assert(q =~= (q + b).take(p.len() as int));
    }
}

// A whole run: protocols form a tree, each node draws its children from one builder (`w` gives the length of the suffixes a node hands
// out, at least one byte if it has a child). A node is named by its path from the root; different nodes have different identifiers.
spec fn node(root: Seq<u8>, w: spec_fn(Seq<nat>) -> nat, path: Seq<nat>) -> Seq<u8> decreases path.len() {
    if path.len() == 0 { root } else { child(node(root, w, path.drop_last()), w(path.drop_last()), path.last()) }
}
spec fn drawn_at(w: spec_fn(Seq<nat>) -> nat, path: Seq<nat>, i: int) -> bool { w(path.take(i)) >= 1 && path[i] < cap(w(path.take(i))) }
spec fn drawn(w: spec_fn(Seq<nat>) -> nat, path: Seq<nat>) -> bool { forall|i: int| 0 <= i < path.len() ==> #[trigger] drawn_at(w, path, i) }
proof fn counter_exists(len: nat, i: nat) -> (s: Seq<u8>)
    requires i < cap(len)
    ensures s.len() == len, val(s) == i
    decreases len
{
    if len == 0 { seq![] } else {
        let t = counter_exists((len - 1) as nat, i / 256);
        let s = seq![(i % 256) as u8] + t;
        assert(s.drop_first() =~= t);
        s
    }
}
proof fn child_is(parent: Seq<u8>, len: nat, i: nat) -> (s: Seq<u8>)
    requires i < cap(len)
    ensures s.len() == len, val(s) == i, child(parent, len, i) == parent + s
{
    let x = counter_exists(len, i);
    choose|s: Seq<u8>| s.len() == len && val(s) == i
}
// An identifier starts with those of the nodes above it and is longer.
proof fn above(root: Seq<u8>, w: spec_fn(Seq<nat>) -> nat, path: Seq<nat>, i: int)
    requires drawn(w, path), 0 <= i <= path.len()
    ensures node(root, w, path).len() >= node(root, w, path.take(i)).len() + (path.len() - i),
        node(root, w, path).take(node(root, w, path.take(i)).len() as int) == node(root, w, path.take(i)),
    decreases path.len()
{
    if i == path.len() {
        assert(path.take(i) =~= path);
        assert(node(root, w, path).take(node(root, w, path).len() as int) =~= node(root, w, path));
    } else {
        let up = path.drop_last();
        assert(path.take(path.len() - 1) =~= up);
        assert(drawn_at(w, path, path.len() - 1));
        assert forall|k: int| 0 <= k < up.len() implies #[trigger] drawn_at(w, up, k) by {
            assert(up.take(k) =~= path.take(k));
            assert(drawn_at(w, path, k));
        }
        above(root, w, up, i);
        assert(up.take(i) =~= path.take(i));
        let s = child_is(node(root, w, up), w(up), path.last());
        assert(node(root, w, path) == node(root, w, up) + s);
        assert(node(root, w, path).take(node(root, w, path.take(i)).len() as int) =~= node(root, w, up).take(node(root, w, path.take(i)).len() as int));
    }
}
proof fn apart(p: Seq<nat>, q: Seq<nat>) -> (c: int)
    requires p.len() <= q.len(), p != q
    ensures 0 <= c <= p.len(), p.take(c) == q.take(c), c < p.len() ==> p[c] != q[c], c == p.len() ==> p.len() < q.len()
    decreases p.len()
{
    if p.len() == 0 {
        assert(p.take(0) =~= q.take(0));
        if q.len() == 0 { assert(p =~= q); }
        0
    } else if p[0] != q[0] {
        assert(p.take(0) =~= q.take(0));
        0
    } else {
        if p.drop_first() == q.drop_first() { assert(p =~= seq![p[0]] + p.drop_first()); assert(q =~= seq![q[0]] + q.drop_first()); }
        let c = apart(p.drop_first(), q.drop_first()) + 1;
        assert(p.take(c) =~= seq![p[0]] + p.drop_first().take(c - 1));
        assert(q.take(c) =~= seq![q[0]] + q.drop_first().take(c - 1));
        c
    }
}
proof fn theorem_run(root: Seq<u8>, w: spec_fn(Seq<nat>) -> nat, p: Seq<nat>, q: Seq<nat>)
    requires drawn(w, p), drawn(w, q), p != q
    ensures node(root, w, p) != node(root, w, q)
{
    if p.len() > q.len() {
        run_ordered(root, w, q, p);
    } else {
        run_ordered(root, w, p, q);
    }
}
proof fn run_ordered(root: Seq<u8>, w: spec_fn(Seq<nat>) -> nat, p: Seq<nat>, q: Seq<nat>)
    requires drawn(w, p), drawn(w, q), p != q, p.len() <= q.len()
    ensures node(root, w, p) != node(root, w, q)
{
    let c = apart(p, q);
    if c == p.len() {
        above(root, w, q, c);
        assert(p.take(c) =~= p);
    } else {
        let up = p.take(c);
        above(root, w, p, c + 1);
        above(root, w, q, c + 1);
        assert(p.take(c + 1).drop_last() =~= up && q.take(c + 1).drop_last() =~= up);
        assert(drawn_at(w, p, c) && drawn_at(w, q, c));
        let s = child_is(node(root, w, up), w(up), p[c]);
        let t = child_is(node(root, w, up), w(up), q[c]);
        if node(root, w, p) == node(root, w, q) {
            assert(node(root, w, up) + s == node(root, w, up) + t);
            assert(s =~= (node(root, w, up) + s).skip(node(root, w, up).len() as int));
            assert(t =~= (node(root, w, up) + t).skip(node(root, w, up).len() as int));
        }
    }
}

// What the units of single protocols assume of the builder (tasks.vrs), copied from there. `of` is (parent, announced, drawn so far);
// a builder that has lost count of its suffix announces -1.
struct Told<'a> { b: ProtocolIDBuilder<'a>, num: Ghost<int>, count: Ghost<nat> }
impl<'a> Told<'a> {
    spec fn right(&self) -> bool {
        &&& 0 <= self.num@ < cap(self.b.suffix@.len())
        &&& self.count@ <= self.num@ ==> val(self.b.suffix@) == self.count@
    }
    spec fn of(&self) -> (Seq<u8>, int, int) { (self.b.id@, if self.right() { self.num@ } else { -1 }, self.count@ as int) }
//@stub tasks.vrs | impl<'a> ProtocolIDBuilder | new
        Told { b: ProtocolIDBuilder::new(id, num), num: Ghost(num as int), count: Ghost(0) }
//@end
//@stub tasks.vrs | impl<'a> ProtocolIDBuilder | next | - | && c@ == child\(.*\)(?=\),)
        let ghost was = *self;
        let r = self.b.next();
        self.count = Ghost((self.count@ + 1) as nat);
        self.num = Ghost(if was.right() { was.num@ } else { -1 });
        r
//@end
}
//@note Identifiers in the units of single protocols: which bytes the k-th child of an identifier has (`child`) is a function of parent, announced number and k, since `new` and `next` read nothing else.

} // verus!
