// Packing (C14): PackedGateInfo::from, Circuit::pack, Circuit::pack_gate_info in src/circuit.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@std for bump
//@include std_vec.vrs
//@include iter.vrs
//@include hashmap.vrs
//@include chunks.vrs
//@item src/circuit.rs | pub type WireID\b
//@item src/circuit.rs | pub struct GateInfo<
//@item src/circuit.rs | pub enum Gate\b
//@item src/circuit.rs | pub struct Circuit\b
//@item src/circuit.rs | pub struct PackedGateInfo<
//@item src/circuit.rs | pub enum PackedGate\b
//@item src/circuit.rs | pub struct PackedCircuit\b
impl<const N: usize> Clone for GateInfo<N> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<const N: usize> Copy for GateInfo<N> {}
//@note The order in which pack_gate_info sorts gates is left open (any permutation satisfies the property); that its comparator does not panic is not part of this unit.
//@note At most 2^31 - 1 gate inputs per kind (fan-out counters are i32) and a positive packing size.

#[verifier::external_body]
fn array_from_fn<T, const N: usize, F: Fn(usize) -> T>(f: F) -> (r: [T; N])
    requires forall|i: usize| i < N ==> #[trigger] f.requires((i,))
    ensures forall|i: usize| i < N ==> f.ensures((i,), #[trigger] r@[i as int])
{ unimplemented!() }
impl<K> HashMap<K, i32> {
    #[verifier::external_body]
    fn bump(&mut self, k: K, z: i32, d: i32)
        requires (if old(self)@.dom().contains(k) { old(self)@[k] } else { z }) + d <= i32::MAX, d >= 0
        ensures final(self)@ == old(self)@.insert(k, ((if old(self)@.dom().contains(k) { old(self)@[k] } else { z }) + d) as i32)
    { unimplemented!() }
}
spec fn counts(m: HashMap<u32, i32>) -> Map<u32, i32> { m@ }
#[verifier::external_body]
fn permute<T>(v: &mut Vec<T>) ensures final(v)@ == order(old(v)@), perm(order(old(v)@), old(v)@) { unimplemented!() }
// the order gates are sorted into: some permutation
pub uninterp spec fn order<T>(s: Seq<T>) -> Seq<T>;
pub open spec fn cat<T>(s: Seq<Vec<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { seq![] } else { cat(s.drop_last()) + s.last()@ } }
impl<T> It<Vec<T>> {
    #[verifier::external_body]
    fn flatten(self) -> (r: It<T>) ensures r@ == cat(self@) { unimplemented!() }
}

// A block holds the gates c, slot by slot.
pub open spec fn holds<const N: usize>(g: PackedGateInfo<N>, c: Seq<GateInfo<N>>) -> bool {
    &&& g.out@.len() == c.len()
    &&& forall|j: int| 0 <= j < c.len() ==> #[trigger] g.out@[j] == c[j].out
    &&& forall|a: int| 0 <= a < N ==> (#[trigger] g.inp@[a])@.len() == c.len()
    &&& forall|a: int, j: int| 0 <= a < N && 0 <= j < c.len() ==> #[trigger] g.inp@[a]@[j] == c[j].inp@[a]
}
pub open spec fn perm<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && a.to_multiset() == b.to_multiset() }
pub open spec fn packs<const N: usize>(p: Seq<PackedGateInfo<N>>, s: Seq<GateInfo<N>>, k: int) -> bool {
    p.len() == nblk(s.len() as int, k) && forall|i: int| 0 <= i < p.len() ==> holds(#[trigger] p[i], blk(s, k, i))
}
pub open spec fn ands(g: Seq<Gate>) -> Seq<GateInfo<2>> decreases g.len() {
    if g.len() == 0 { seq![] } else { match g.last() { Gate::And(i) => ands(g.drop_last()).push(i), _ => ands(g.drop_last()) } }
}
pub open spec fn xors(g: Seq<Gate>) -> Seq<GateInfo<2>> decreases g.len() {
    if g.len() == 0 { seq![] } else { match g.last() { Gate::Xor(i) => xors(g.drop_last()).push(i), _ => xors(g.drop_last()) } }
}
pub open spec fn invs(g: Seq<Gate>) -> Seq<GateInfo<1>> decreases g.len() {
    if g.len() == 0 { seq![] } else { match g.last() { Gate::Inv(i) => invs(g.drop_last()).push(i), _ => invs(g.drop_last()) } }
}
// The packed gates: AND blocks, then XOR blocks, then INV blocks.
pub open spec fn packed(g: Seq<PackedGate>, a: Seq<GateInfo<2>>, x: Seq<GateInfo<2>>, v: Seq<GateInfo<1>>, k: int) -> bool {
    let na = nblk(a.len() as int, k); let nx = nblk(x.len() as int, k); let nv = nblk(v.len() as int, k);
    &&& g.len() == na + nx + nv
    &&& forall|i: int| 0 <= i < na ==> (#[trigger] g[i] matches PackedGate::And(p) && holds(p, blk(a, k, i)))
    &&& forall|i: int| na <= i < na + nx ==> (#[trigger] g[i] matches PackedGate::Xor(p) && holds(p, blk(x, k, i - na)))
    &&& forall|i: int| na + nx <= i < na + nx + nv ==> (#[trigger] g[i] matches PackedGate::Inv(p) && holds(p, blk(v, k, i - na - nx)))
}
pub open spec fn cut(b: Seq<Vec<u32>>, s: Seq<u32>, k: int) -> bool {
    b.len() == nblk(s.len() as int, k) && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i])@ == blk(s, k, i)
}
fn mk_And(i: PackedGateInfo<2>) -> (r: PackedGate) ensures r == PackedGate::And(i) { PackedGate::And(i) }
fn mk_Xor(i: PackedGateInfo<2>) -> (r: PackedGate) ensures r == PackedGate::Xor(i) { PackedGate::Xor(i) }
fn mk_Inv(i: PackedGateInfo<1>) -> (r: PackedGate) ensures r == PackedGate::Inv(i) { PackedGate::Inv(i) }

impl<const N: usize> PackedGateInfo<N> {
//@fn src/circuit.rs | ^impl<const N: usize> PackedGateInfo<N>$ | from
//@rewrite core::array::from_fn ==> array_from_fn # std::array::from_fn calls its closure for every index in order
//@contract
    ensures holds(res, gates@)
//@closure 0
    |i: usize| -> (r: Vec<u32>) requires i < N ensures r@.len() == gates@.len(), forall|j: int| 0 <= j < gates@.len() ==> #[trigger] r@[j] == gates@[j].inp@[i as int]
//@closure 1
    |g: &GateInfo<N>| -> (r: u32) requires i < N ensures r == g.inp@[i as int]
//@closure 2
    |g: &GateInfo<N>| -> (r: u32) ensures r == g.out
//@end
}

impl Circuit {
//@fn src/circuit.rs | ^impl Circuit$ | gates
//@contract
    ensures res@ == self.gates@
//@end
//@fn src/circuit.rs | ^impl Circuit$ | inputs
//@contract
    ensures res@ == self.inputs@
//@end
//@fn src/circuit.rs | ^impl Circuit$ | outputs
//@contract
    ensures res@ == self.outputs@
//@end
//@fn src/circuit.rs | ^impl Circuit$ | num_wires
//@contract
    ensures res == self.num_wires
//@end
//@fn src/circuit.rs | ^impl Circuit$ | pack_gate_info
//@args gates\.sort\w* ==> permute(&mut gates) # the order is left open
//@contract
    requires gates_per_block > 0, gates@.len() * N <= i32::MAX
    ensures packs(res@, order(gates@), gates_per_block as int), perm(order(gates@), gates@)
//@entry
    let ghost g0 = gates@;
//@loop 0
    invariant
        gates@ == g0, g0.len() * N <= i32::MAX, __s0@ == refs(g0),
        forall|w: u32| #[trigger] counts(fan_outs).dom().contains(w) ==> 0 <= counts(fan_outs)[w] <= __k0 * N,
//@loop 1
    invariant
        0 < __k0 <= __s0@.len(), __s0@ == refs(g0), g0.len() * N <= i32::MAX, *g == g0[__k0 - 1],
        __s1@.len() == N, forall|k: int| 0 <= k < N ==> (#[trigger] __s1@[k]) == k,
        forall|w: u32| #[trigger] counts(fan_outs).dom().contains(w) ==> 0 <= counts(fan_outs)[w] <= (__k0 - 1) * N + __k1,
//@loopstart 1
    let ghost before = counts(fan_outs);
    proof { let (k, n, l) = (__k0 as int, N as int, g0.len() as int); assert((k - 1) * n + n <= l * n) by (nonlinear_arith) requires 1 <= k <= l, n >= 0; }
//@loopend 1
    proof {
        assert forall|w: u32| #[trigger] counts(fan_outs).dom().contains(w) implies 0 <= counts(fan_outs)[w] <= (__k0 - 1) * N + __k1 by {
            if before.dom().contains(w) { assert(0 <= before[w] <= (__k0 - 1) * N + __k1 - 1); }
        }
    }
//@loopend 0
    proof { let (k, n) = (__k0 as int, N as int); assert((k - 1) * n + n == k * n) by (nonlinear_arith); }
//@tail
    proof { assert(packs(__out@, gates@, gates_per_block as int)); }
//@closures 0
//@end
//@fn src/circuit.rs | ^impl Circuit$ | pack
//@rewrite \.map\(PackedGate::(\w+)\) ==> .map(mk_\1) # constructor as a function
//@contract
    requires gates_per_block > 0, self.gates@.len() * 2 <= i32::MAX
    ensures
        res.num_wires == self.num_wires, res.gates_per_block == gates_per_block,
        cut(res.inputs@, cat(self.inputs@), gates_per_block as int),
        cut(res.outputs@, cat(self.outputs@), gates_per_block as int),
        perm(order(ands(self.gates@)), ands(self.gates@)), perm(order(xors(self.gates@)), xors(self.gates@)), perm(order(invs(self.gates@)), invs(self.gates@)),
        packed(res.gates@, order(ands(self.gates@)), order(xors(self.gates@)), order(invs(self.gates@)), gates_per_block as int),
//@loop 0
    invariant
        __s0@ == self.gates@,
        g_and@ == ands(self.gates@.take(__k0 as int)), g_xor@ == xors(self.gates@.take(__k0 as int)), g_inv@ == invs(self.gates@.take(__k0 as int)),
        g_and@.len() + g_xor@.len() + g_inv@.len() == __k0,
//@loopend 0
    proof { assert(self.gates@.take(__k0 as int).drop_last() =~= self.gates@.take(__k0 - 1)); }
//@before let gates
    proof { assert(self.gates@.take(__k0 as int) =~= self.gates@); }
//@closure 0
    |v: Vec<Vec<u32>>| -> (r: Vec<Vec<u32>>) ensures cut(r@, cat(v@), gates_per_block as int)
//@closure 1
    |x: &[u32]| -> (r: Vec<u32>) ensures r@ =~= x@
//@end
}
impl PackedCircuit {
//@fn src/circuit.rs | ^impl PackedCircuit$ | gates
//@contract
    ensures res@ == self.gates@
//@end
//@fn src/circuit.rs | ^impl PackedCircuit$ | inputs
//@contract
    ensures res@ == self.inputs@
//@end
//@fn src/circuit.rs | ^impl PackedCircuit$ | outputs
//@contract
    ensures res@ == self.outputs@
//@end
//@fn src/circuit.rs | ^impl PackedCircuit$ | num_wires
//@contract
    ensures res == self.num_wires
//@end
//@fn src/circuit.rs | ^impl PackedCircuit$ | gates_per_block
//@contract
    ensures res == self.gates_per_block
//@end
}
}
