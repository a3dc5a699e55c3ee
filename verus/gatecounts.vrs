// Gate block counts (C14, C24): PackedCircuit::get_gate_counts in src/circuit.rs
use vstd::prelude::*;
verus! {
//@std for
//@include iter.vrs
//@item src/circuit.rs | pub type WireID\b
//@item src/circuit.rs | pub struct PackedGateInfo<
//@item src/circuit.rs | pub enum PackedGate\b
//@item src/circuit.rs | pub struct PackedCircuit\b
pub open spec fn kind(g: PackedGate) -> int { match g { PackedGate::And(_) => 0, PackedGate::Xor(_) => 1, PackedGate::Inv(_) => 2 } }
pub open spec fn num(g: Seq<PackedGate>, k: int) -> int decreases g.len() {
    if g.len() == 0 { 0 } else { num(g.drop_last(), k) + if kind(g.last()) == k { 1int } else { 0 } }
}
spec fn sum3(a: usize, b: usize, c: usize) -> int { a + b + c }
impl PackedCircuit {
//@fn src/circuit.rs | ^impl PackedCircuit$ | get_gate_counts
//@contract
    ensures res.0 == num(self.gates@, 0), res.1 == num(self.gates@, 1), res.2 == num(self.gates@, 2), res.0 + res.1 + res.2 == self.gates@.len()
//@loop 0
    invariant
        __s0@ == refs(self.gates@),
        0 <= num_and <= __k0, 0 <= num_xor <= __k0, 0 <= num_inv <= __k0, sum3(num_and, num_xor, num_inv) == __k0,
        num_and == num(self.gates@.take(__k0 as int), 0), num_xor == num(self.gates@.take(__k0 as int), 1), num_inv == num(self.gates@.take(__k0 as int), 2),
//@loopend 0
    proof { assert(self.gates@.take(__k0 as int).drop_last() =~= self.gates@.take(__k0 - 1)); }
//@tail
    proof { assert(self.gates@.take(__k0 as int) =~= self.gates@); }
//@end
}
}
