// The order gates are packed in (C14): comparing two gates in Circuit::pack_gate_info (src/circuit.rs) never fails, for any circuit.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@std for bump
//@include std_vec.vrs
//@include iter.vrs
//@include hashmap.vrs
//@include chunks.vrs
//@item src/circuit.rs | pub type WireID\b
//@item src/circuit.rs | pub struct GateInfo<
//@item src/circuit.rs | pub enum Gate\b
//@item src/circuit.rs | pub struct Circuit\b
//@item src/circuit.rs | pub struct PackedGateInfo<
//@item src/circuit.rs | pub enum PackedGate\b
//@item src/circuit.rs | pub struct PackedCircuit\b
impl<const N: usize> Clone for GateInfo<N> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<const N: usize> Copy for GateInfo<N> {}
//@note At most 2^31 - 1 gate inputs per kind (fan-out counters are i32), a positive packing size, gates with at least one input. Sorting calls its comparator on pairs of elements of the list only.
impl<K> HashMap<K, i32> {
    #[verifier::external_body]
    fn bump(&mut self, k: K, z: i32, d: i32)
        requires (if old(self)@.dom().contains(k) { old(self)@[k] } else { z }) + d <= i32::MAX, d >= 0
        ensures final(self)@ == old(self)@.insert(k, ((if old(self)@.dom().contains(k) { old(self)@[k] } else { z }) + d) as i32)
    { unimplemented!() }
}
spec fn counts(m: HashMap<u32, i32>) -> Map<u32, i32> { m@ }

pub enum Ordering { Less, Equal, Greater }
#[verifier::external_body]
fn compare<A>(a: A, b: A) -> Ordering { unimplemented!() }
pub trait Sorted<T> {
    spec fn listed(&self) -> Seq<T>;
    fn sorted_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|a: T, b: T| old(self).listed().contains(a) && old(self).listed().contains(b) ==> #[trigger] f.requires((&a, &b))
        ensures final(self).listed().len() == old(self).listed().len();
}
impl<T> Sorted<T> for Vec<T> {
    open spec fn listed(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn sorted_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
}
impl<T> It<T> {
    #[verifier::external_body]
    fn max(self) -> (r: Option<T>) ensures r is Some <==> self@.len() > 0 { unimplemented!() }
}
#[verifier::external_body]
fn from_gates<const N: usize>(g: &[GateInfo<N>]) -> PackedGateInfo<N> { unimplemented!() }
spec fn known<const N: usize>(m: HashMap<u32, i32>, g: GateInfo<N>) -> bool { forall|i: int| 0 <= i < N ==> #[trigger] counts(m).dom().contains(g.inp@[i]) }

impl Circuit {
//@fn src/circuit.rs | ^impl Circuit$ | pack_gate_info
//@rename ordered
//@rewrite gates\.sort(?:_unstable)?_by\( ==> gates.sorted_by( # a list with the same elements; the comparator is called on pairs of them
//@rewrite (\w+)\.cmp\(&(\w+)\) ==> compare(\1, \2) # the order of integers and references, total
//@rewrite \((\w+\.get\(\w+\)\.unwrap\(\)), (\w+)\) ==> (*\1, *\2) # by value: references to integers compare as the integers
//@rewrite PackedGateInfo::from ==> from_gates # unit pack
//@contract
    requires gates_per_block > 0, N > 0, gates@.len() * N <= i32::MAX
//@entry
    let ghost g0 = gates@;
//@loop 0
    invariant
        N > 0, gates@ == g0, g0.len() * N <= i32::MAX, __s0@ == refs(g0),
        forall|w: u32| #[trigger] counts(fan_outs).dom().contains(w) ==> 0 <= counts(fan_outs)[w] <= __k0 * N,
        forall|j: int| 0 <= j < __k0 ==> known(fan_outs, #[trigger] g0[j]),
//@loop 1
    invariant
        0 < __k0 <= __s0@.len(), __s0@ == refs(g0), g0.len() * N <= i32::MAX, *g == g0[__k0 - 1],
        __s1@.len() == N, forall|k: int| 0 <= k < N ==> (#[trigger] __s1@[k]) == k,
        forall|w: u32| #[trigger] counts(fan_outs).dom().contains(w) ==> 0 <= counts(fan_outs)[w] <= (__k0 - 1) * N + __k1,
        forall|j: int| 0 <= j < __k0 - 1 ==> known(fan_outs, #[trigger] g0[j]),
        forall|i: int| 0 <= i < __k1 ==> #[trigger] counts(fan_outs).dom().contains(g.inp@[i]),
//@loopstart 1
    let ghost before = counts(fan_outs);
    proof { let (k, n, l) = (__k0 as int, N as int, g0.len() as int); assert((k - 1) * n + n <= l * n) by (nonlinear_arith) requires 1 <= k <= l, n >= 0; }
    let ghost fo = fan_outs;
//@loopend 1
    proof {
        assert forall|w: u32| #[trigger] counts(fan_outs).dom().contains(w) implies 0 <= counts(fan_outs)[w] <= (__k0 - 1) * N + __k1 by {
            if before.dom().contains(w) { assert(0 <= before[w] <= (__k0 - 1) * N + __k1 - 1); }
        }
        assert forall|j: int| 0 <= j < __k0 - 1 implies known(fan_outs, #[trigger] g0[j]) by {
            assert(known(fo, g0[j]));
            assert forall|i: int| 0 <= i < N implies #[trigger] counts(fan_outs).dom().contains(g0[j].inp@[i]) by { assert(counts(fo).dom().contains(g0[j].inp@[i])); }
        }
    }
//@loopend 0
    proof { let (k, n) = (__k0 as int, N as int); assert((k - 1) * n + n == k * n) by (nonlinear_arith); }
//@before gates\s*\.sort
    proof { assert forall|x: GateInfo<N>| gates@.contains(x) implies known(fan_outs, x) by { let j = choose|j: int| 0 <= j < gates@.len() && gates@[j] == x; assert(known(fan_outs, g0[j])); } }
//@closure 0
    |g1: &GateInfo<N>, g2: &GateInfo<N>| -> (r: Ordering) requires N > 0, known(fan_outs, *g1), known(fan_outs, *g2)
//@closure 1
    |i: &u32| -> (r: (i32, u32)) requires counts(fan_outs).dom().contains(*i)
//@closure 2
    |i: &u32| -> (r: (i32, u32)) requires counts(fan_outs).dom().contains(*i)
//@end
}
}
