// Selection maps (C08): Combination in src/math/mod.rs
use vstd::prelude::*;
verus! {
//@std for
//@include iter.vrs
//@include hashmap.vrs
//@include nd1.vrs
//@item src/math/mod.rs | pub struct Combination\(
spec fn hv<'a, T>(m: HashMap<&'a T, usize>) -> Map<&'a T, usize> { m@ }
impl Combination {
//@fn src/math/mod.rs | ^impl Combination$ | new
//@contract
    ensures res.0@ == map@
//@end
//@fn src/math/mod.rs | ^impl Combination$ | from_instance
//@head <T: Hash \+ Eq> ==> <T> # hashing and equality are those of the map's contract
//@contract
    requires forall|i: int| 0 <= i < out@.len() ==> inp@.contains(#[trigger] out@[i])
    ensures res.0@.len() == out@.len(), forall|i: int| 0 <= i < out@.len() ==> (#[trigger] res.0@[i]) < inp@.len() && inp@[res.0@[i] as int] == out@[i]
//@loop 0
    invariant
        forall|k: int| 0 <= k < __k0 ==> hv(lookup).dom().contains(&#[trigger] inp@[k]),
        forall|v: &T| #[trigger] hv(lookup).dom().contains(v) ==> hv(lookup)[v] < inp@.len() && inp@[hv(lookup)[v] as int] == *v,
        __s0@.len() == inp@.len(),
        forall|k: int| 0 <= k < __s0@.len() ==> #[trigger] __s0@[k] == (k as usize, &inp@[k]),
//@loopstart 0
    let ghost before = lookup;
//@loopend 0
    proof {
        let k = __k0 - 1;
        assert(__s0@[k] == (k as usize, &inp@[k]));
        assert forall|u: &T| #[trigger] hv(lookup).dom().contains(u) implies hv(lookup)[u] < inp@.len() && inp@[hv(lookup)[u] as int] == *u by {
            if *u != inp@[k] { assert(hv(before).dom().contains(u)); }
        }
    }
//@closure 0
    |v: &T| -> (r: usize) requires hv(lookup).dom().contains(v) ensures r == hv(lookup)[v]
//@end
//@fn src/math/mod.rs | ^impl Combination$ | len
//@contract
    ensures res == self.0@.len()
//@end
//@fn src/math/mod.rs | ^impl Combination$ | apply
//@contract
    requires forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]) < v@.len()
    ensures res@.len() == self.0@.len(), forall|i: int| 0 <= i < self.0@.len() ==> #[trigger] res@[i] == v@[self.0@[i] as int]
//@closure 0
    |i: &usize| -> (r: T) requires *i < v@.len() ensures r == v@[*i as int]
//@end
}
// What other units assume of selections.
impl Combination {
    pub closed spec fn map(&self) -> Seq<usize> { self.0@ }
//@stub trans.vrs | - | apply
    proof { assert(self.map() == self.0@); }
    self.apply(v)
//@end
//@stub randtrans.vrs | impl Combination | new
    Combination::new(map)
//@end
//@stub randtrans.vrs | impl Combination | len
    self.len()
//@end
//@stub randtrans.vrs | impl Combination | apply
    proof { assert(self.map() == self.0@); }
    self.apply(v)
//@end
//@stub wires.vrs | impl Combination | new
    Combination::new(map)
//@end
//@stub wires.vrs | impl Combination | from_instance

    Combination::from_instance(inp, out)
//@end
}
} // verus!
