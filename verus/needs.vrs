// How much randomness garbling a circuit takes.
pub open spec fn kind(g: PackedGate) -> int { match g { PackedGate::And(_) => 0, PackedGate::Xor(_) => 1, PackedGate::Inv(_) => 2 } }
pub open spec fn of_kind(g: Seq<PackedGate>, k: int) -> int decreases g.len() {
    if g.len() == 0 { 0 } else { of_kind(g.drop_last(), k) + if kind(g.last()) == k { 1int } else { 0 } }
}
// inputs of a gate, multiplications for its table, error elements of its table
pub open spec fn g_in(g: PackedGate) -> int { if kind(g) == 2 { 1 } else { 2 } }
pub open spec fn g_mult(g: PackedGate, k: int) -> int { if kind(g) == 0 { 3 * (k + 1) + 1 } else { k + 1 } }
pub open spec fn g_err(g: PackedGate, m: int) -> int { if kind(g) == 2 { 2 * m } else { 4 * m } }
pub open spec fn ins(gs: Seq<PackedGate>) -> int decreases gs.len() { if gs.len() == 0 { 0 } else { ins(gs.drop_last()) + g_in(gs.last()) } }
pub open spec fn mults(gs: Seq<PackedGate>, k: int) -> int decreases gs.len() { if gs.len() == 0 { 0 } else { mults(gs.drop_last(), k) + g_mult(gs.last(), k) } }
pub open spec fn errs(gs: Seq<PackedGate>, m: int) -> int decreases gs.len() { if gs.len() == 0 { 0 } else { errs(gs.drop_last(), m) + g_err(gs.last(), m) } }
// runs of the randomness protocol for moving secrets: one per l blocks (output wires of inputs and gates, and inputs of gates) and repetition
pub open spec fn runs(blocks: int, l: int, k: int) -> int { nblk(blocks, l) * (2 * k + 1) }
pub open spec fn all_runs(nin: int, gs: Seq<PackedGate>, l: int, k: int) -> int { runs(nin + gs.len(), l, k) + runs(ins(gs), l, k) }
pub open spec fn need_r(nin: int, gs: Seq<PackedGate>, n: int, t: int, l: int, k: int) -> int { all_runs(nin, gs, l, k) * (n + t) + mults(gs, k) }
pub open spec fn need_z(nin: int, gs: Seq<PackedGate>, n: int, l: int, k: int) -> int { all_runs(nin, gs, l, k) * 2 * n + mults(gs, k) }
pub proof fn sums_up(gs: Seq<PackedGate>, k: int, m: int)
    requires 0 <= k, 0 <= m
    ensures
        0 <= of_kind(gs, 0), 0 <= of_kind(gs, 1), 0 <= of_kind(gs, 2), of_kind(gs, 0) + of_kind(gs, 1) + of_kind(gs, 2) == gs.len(),
        ins(gs) == of_kind(gs, 0) * 2 + of_kind(gs, 1) * 2 + of_kind(gs, 2), 0 <= ins(gs),
        mults(gs, k) == of_kind(gs, 0) * (3 * (k + 1) + 1) + of_kind(gs, 1) * (k + 1) + of_kind(gs, 2) * (k + 1), 0 <= mults(gs, k),
        errs(gs, m) == of_kind(gs, 0) * 4 * m + of_kind(gs, 1) * 4 * m + of_kind(gs, 2) * 2 * m, 0 <= errs(gs, m),
    decreases gs.len()
{
    if gs.len() > 0 {
        sums_up(gs.drop_last(), k, m);
        let (a, b) = (gs.drop_last(), kind(gs.last()));
        let (x, y, z) = (of_kind(a, 0), of_kind(a, 1), of_kind(a, 2));
        let (p, q) = (3 * (k + 1) + 1, k + 1);
        assert((x + 1) * p == x * p + p && (y + 1) * q == y * q + q && (z + 1) * q == z * q + q) by (nonlinear_arith);
        assert((x + 1) * 4 * m == x * 4 * m + 4 * m && (y + 1) * 4 * m == y * 4 * m + 4 * m && (z + 1) * 2 * m == z * 2 * m + 2 * m) by (nonlinear_arith);
    } else {
        assert(0 * (3 * (k + 1) + 1) == 0 && 0 * (k + 1) == 0 && 0 * 4 * m == 0 && 0 * 2 * m == 0) by (nonlinear_arith);
    }
}
pub proof fn whole_blocks(n: int, l: int)
    requires 0 <= n, 1 <= l
    ensures nblk(n, l) >= 0, (n + l - 1) / l == nblk(n, l)
{
    if n == 0 {
        vstd::arithmetic::div_mod::lemma_basic_div(l - 1, l);
        assert((l - 1) / l == 0);
    } else {
        vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n - 1, l);
        vstd::arithmetic::div_mod::lemma_div_plus_one(n - 1, l);
        assert(n + l - 1 == l + (n - 1));
    }
}
