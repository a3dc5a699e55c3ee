// How much preprocessing a circuit takes (C24): PreProcCount::new and PreProc::describe in src/protocol/preproc.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include mpc.vrs
//@include nd3.vrs
//@include vd.vrs
//@include chunks.vrs
//@include batches.vrs
//@item src/circuit.rs | pub type WireID\b
//@item src/circuit.rs | pub struct PackedGateInfo<
//@item src/circuit.rs | pub enum PackedGate\b
//@item src/circuit.rs | pub struct PackedCircuit\b
//@item src/protocol/preproc.rs | pub struct PreProc<
//@item src/protocol/preproc.rs | pub struct PreProcCount\b
//@include needs.vrs
impl PackedCircuit {
    pub closed spec fn gs(&self) -> Seq<PackedGate> { self.gates@ }
    pub closed spec fn inputs_(&self) -> Seq<Vec<u32>> { self.inputs@ }
//@fn src/circuit.rs | ^impl PackedCircuit$ | gates
//@contract
    ensures res@ == self.gs()
//@end
//@fn src/circuit.rs | ^impl PackedCircuit$ | inputs
//@contract
    ensures res@ == self.inputs_()
//@end
//@fn src/circuit.rs | ^impl PackedCircuit$ | get_gate_counts
//@contract
    ensures res.0 == of_kind(self.gs(), 0), res.1 == of_kind(self.gs(), 1), res.2 == of_kind(self.gs(), 2), res.0 + res.1 + res.2 == self.gs().len()
//@loop 0
    invariant
        __s0@ == refs(self.gates@),
        0 <= num_and <= __k0, 0 <= num_xor <= __k0, 0 <= num_inv <= __k0, sum3(num_and, num_xor, num_inv) == __k0,
        num_and == of_kind(self.gates@.take(__k0 as int), 0), num_xor == of_kind(self.gates@.take(__k0 as int), 1), num_inv == of_kind(self.gates@.take(__k0 as int), 2),
//@loopend 0
    proof { assert(self.gates@.take(__k0 as int).drop_last() =~= self.gates@.take(__k0 - 1)); }
//@tail
    proof { assert(self.gates@.take(__k0 as int) =~= self.gates@); }
//@end
}
spec fn sum3(a: usize, b: usize, c: usize) -> int { a + b + c }
// The numbers are in range.
pub open spec fn sized<const W: u8>(circ: PackedCircuit, c: MPCContext<W>) -> bool {
    let (nin, gs) = (circ.inputs_().len() as int, circ.gs());
    let (n, t, l, k, m) = (c.n as int, c.t as int, c.l as int, c.lpn_key_len as int, c.lpn_mssg_len as int);
    &&& 1 <= n && 1 <= l && 3 * (k + 1) + 1 <= usize::MAX && nin + 2 * gs.len() + l <= usize::MAX && n + t <= usize::MAX && 2 * n <= usize::MAX && 4 * m <= usize::MAX && 4 * gs.len() <= usize::MAX
    &&& need_r(nin, gs, n, t, l, k) <= usize::MAX && need_z(nin, gs, n, l, k) <= usize::MAX && errs(gs, m) <= usize::MAX
}
pub open spec fn counted<const W: u8>(r: PreProcCount, circ: PackedCircuit, c: MPCContext<W>) -> bool {
    let (nin, gs) = (circ.inputs_().len() as int, circ.gs());
    let (n, t, l, k, m) = (c.n as int, c.t as int, c.l as int, c.lpn_key_len as int, c.lpn_mssg_len as int);
    &&& r.masks == nin + gs.len() && r.keys.0 == 2 && r.keys.1 == k && r.keys.2 == nin + gs.len()
    &&& r.randoms == need_r(nin, gs, n, t, l, k) && r.zeros == need_z(nin, gs, n, l, k) && r.errors == errs(gs, m)
}
impl PreProcCount {
//@fn src/protocol/preproc.rs | ^impl PreProcCount$ | new
//@contract
    requires sized(*circ, *context)
    ensures counted(res, *circ, *context)
//@entry
    let ghost (nin, gs) = (circ.inputs_().len() as int, circ.gs());
    let ghost (n, t, l, k, m) = (context.n as int, context.t as int, context.l as int, context.lpn_key_len as int, context.lpn_mssg_len as int);
    proof {
        sums_up(gs, k, m);
        whole_blocks(nin + gs.len(), l);
        whole_blocks(ins(gs), l);
        let (a, b, c) = (of_kind(gs, 0), of_kind(gs, 1), of_kind(gs, 2));
        let (x, y, per) = (nblk(nin + gs.len(), l), nblk(ins(gs), l), 2 * k + 1);
        assert((x + y) * per == x * per + y * per) by (nonlinear_arith);
        let r = (x + y) * per;
        assert(0 <= x * per && 0 <= y * per && x + y <= r) by (nonlinear_arith) requires 0 <= x, 0 <= y, 1 <= per, r == (x + y) * per;
        assert(r <= r * (n + t) && r * 2 <= r * 2 * n && 0 <= r * (n + t) && 0 <= r * 2 * n) by (nonlinear_arith) requires 0 <= r, 1 <= n, 0 <= t;
        assert(r * (n + t) == (n + t) * r && r * 2 * n == 2 * n * r && r * 2 * n == n * 2 * r && r * n <= r * 2 * n && r * 2 * n == r * n * 2 && r * 2 * n == 2 * r * n && r * 2 * n == n * r * 2 && r * 2 * n == r * (2 * n)) by (nonlinear_arith) requires 0 <= r, 0 <= n;
        let (p, q) = (3 * (k + 1) + 1, k + 1);
        assert(0 <= a * p && 0 <= b * q && 0 <= c * q && a * p == p * a && b * q == q * b && c * q == q * c && (b + c) * q == b * q + c * q) by (nonlinear_arith) requires 0 <= a, 0 <= b, 0 <= c, 0 <= p, 0 <= q;
        assert(0 <= a * 4 * m && 0 <= b * 4 * m && 0 <= c * 2 * m && a * 4 * m == 4 * a * m && a * 4 * m == a * (4 * m) && b * 4 * m == b * (4 * m) && c * 2 * m == c * (2 * m) && b * 4 * m == 4 * b * m && c * 2 * m == 2 * c * m && (a + b) * 4 * m == a * 4 * m + b * 4 * m) by (nonlinear_arith) requires 0 <= a, 0 <= b, 0 <= c, 0 <= m;
    }
//@end
}
impl<const W: u8> PreProc<W> {
//@fn src/protocol/preproc.rs | ^impl<const W: u8> PreProc<W>$ | describe
//@contract
    requires sized(*circ, *context)
    ensures counted(res, *circ, *context)
//@end
}
}
