// Generating random sharings, sharings of zero and of bits (C23): rand, zero, randbit in src/protocol/preproc.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include mpc.vrs
//@include deal.vrs
//@include batches.vrs
//@item src/protocol/preproc.rs | pub struct RandContext<
//@item src/protocol/preproc.rs | pub struct ZeroContext<
//@item src/protocol/preproc.rs | pub struct RandBitContext<
impl<const W: u8> RandContext<W> {
    pub closed spec fn ok(&self) -> bool { 1 <= self.n <= u16::MAX && self.pss.ok() && self.pss.n() == self.n && self.super_inv.rows() >= 1 && self.super_inv.cols() == self.n }
//@fn src/protocol/preproc.rs | ^impl<const W: u8> RandContext<W>$ | new
//@contract
    ensures res.super_inv == super_inv_matrix, res.pss == mpc_context.pss, res.n == mpc_context.n
//@end
}
impl<const W: u8> ZeroContext<W> {
    pub closed spec fn ok(&self) -> bool { 1 <= self.n <= u16::MAX && self.pss_n.ok() && self.pss_n.n() == self.n && self.pss_n.pos().len() == self.l && self.super_inv.rows() >= 1 && self.super_inv.cols() == self.n }
//@fn src/protocol/preproc.rs | ^impl<const W: u8> ZeroContext<W>$ | new
//@contract
    ensures res.super_inv == super_inv_matrix, res.pss_n == mpc_context.pss_n, res.n == mpc_context.n, res.l == mpc_context.l
//@end
}
impl<const W: u8> RandBitContext<W> {
    pub closed spec fn ok(&self) -> bool { 1 <= self.n <= u16::MAX && self.pss.ok() && self.pss.n() == self.n && self.bin_super_inv.rows() >= 1 && self.bin_super_inv.cols() == self.n }
//@fn src/protocol/preproc.rs | ^impl<const W: u8> RandBitContext<W>$ | new
//@contract
    ensures res.bin_super_inv == binary_supinv_matrix, res.pss == mpc_context.pss, res.n == mpc_context.n
//@end
}
// What one party deals: each row the shares of a polynomial, of any kind, with zero secrets, with bits as secrets.
pub open spec fn dealt<const W: u8>(rows: Seq<Seq<GF<W>>>, pss: PackedSharing<W>, b: int) -> bool {
    rows.len() == b && forall|j: int| 0 <= j < b ==> (#[trigger] rows[j]).len() == pss.n()
}
pub open spec fn of_any<const W: u8>(row: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int) -> bool { sharing(row, pos, n, np, Seq::empty()) }
pub open spec fn any<const W: u8>(rows: Seq<Seq<GF<W>>>, pos: Seq<GF<W>>, n: int, np: int) -> bool { forall|j: int| 0 <= j < rows.len() ==> of_any(#[trigger] rows[j], pos, n, np) }
pub open spec fn of_zero<const W: u8>(row: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int) -> bool { exists|s: Seq<GF<W>>| s.len() == pos.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == zero::<W>()) && #[trigger] sharing(row, pos, n, np, s) }
pub open spec fn of_bits<const W: u8>(row: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int) -> bool { exists|s: Seq<GF<W>>| s.len() == pos.len() && (forall|i: int| 0 <= i < s.len() ==> bit(#[trigger] s[i])) && #[trigger] sharing(row, pos, n, np, s) }
pub open spec fn zeroes<const W: u8>(rows: Seq<Seq<GF<W>>>, pos: Seq<GF<W>>, n: int, np: int) -> bool { forall|j: int| 0 <= j < rows.len() ==> of_zero(#[trigger] rows[j], pos, n, np) }
pub open spec fn bits<const W: u8>(rows: Seq<Seq<GF<W>>>, pos: Seq<GF<W>>, n: int, np: int) -> bool { forall|j: int| 0 <= j < rows.len() ==> of_bits(#[trigger] rows[j], pos, n, np) }
// What one party returns: the matrix applied to the shares received, row by row.
pub open spec fn combined<const W: u8>(res: Seq<GF<W>>, m: Array2<GF<W>>, net: Network, id: Seq<u8>, n: int, b: int) -> bool {
    res.len() == m.rows() * b && forall|a: int, j: int| 0 <= a < m.rows() && 0 <= j < b ==> #[trigger] cell(res, b, a, j) == dot(m.row_s(a), column::<W>(net, id, n, j))
}
//@fn src/protocol/preproc.rs | - | rand
//@ghost Tracked(log): Tracked<&mut Log>
//@addarg net\s*\.\s*send ==> Tracked(&mut *log)
//@contract
    requires
        context.ok(), num + context.super_inv.rows() <= usize::MAX, made_of(num as int, context.super_inv.rows() as int) + context.super_inv.rows() <= usize::MAX,
        gathers::<W>(net, id@, context.n as int, batches_of(num as int, context.super_inv.rows() as int)),
    ensures
        exists|rows: Seq<Seq<GF<W>>>| dealt(rows, *context.pss, batches_of(num as int, context.super_inv.rows() as int)) && any(rows, context.pss.pos(), context.n as int, context.pss.np())
            && final(log).sent == old(log).sent + #[trigger] deals(rows, id@, context.n as int),
        combined(res@, *context.super_inv, net, id@, context.n as int, batches_of(num as int, context.super_inv.rows() as int)), res@.len() >= num,
//@entry
    let ghost (n, bs, b0) = (context.n as int, context.super_inv.rows() as int, batches_of(num as int, context.super_inv.rows() as int));
    let ghost mut rows: Seq<Seq<GF<W>>> = Seq::empty();
    let ghost (s0, id0) = (log.sent, id@);
    let ghost (pos, np) = (context.pss.pos(), context.pss.np());
//@closure 0
    |k: usize| -> (o: Vec<GF<W>>) ensures o@.len() == n, of_any(o@, pos, n, np)
//@closure 1
    |d: Vec<u8>| -> (o: Vec<GF<W>>) requires encodes::<W>(d@, b0) ensures o@ == dec::<W>(d@)
//@after let batches
    proof { ceil_ok(num as int, bs); assert(batches == b0); }
//@before let shares = Array2
    proof {
        rows = choose|rows: Seq<Seq<GF<W>>>| dealt(rows, *context.pss, b0) && any(rows, pos, n, np) && vals(shares) == #[trigger] cat(rows);
        assert(exists|rows: Seq<Seq<GF<W>>>| dealt(rows, *context.pss, b0) && any(rows, pos, n, np) && vals(shares) == #[trigger] cat(rows));
        cat_cells(rows, n);
    }
//@loop 0
    invariant
        __s0@.len() == n, n == context.n, n <= u16::MAX, forall|k: int| 0 <= k < n ==> #[trigger] __s0@[k] == k,
        rows.len() == b0, shares.rows() == b0, shares.cols() == n, forall|i: int, j: int| 0 <= i < b0 && 0 <= j < n ==> #[trigger] shares.at(i, j) == rows[i][j],
        id@ == id0, log.sent == s0 + deals(rows, id0, n).take(__k0 as int),
//@preloop 0
    proof { assert(s0 + deals(rows, id0, n).take(0) =~= s0); }
//@loopend 0
    proof {
        let k = __k0 - 1;
        assert(shares.col_s(k) =~= for_party(rows, k));
        assert(deals(rows, id0, n).take(k + 1) =~= deals(rows, id0, n).take(k).push(deals(rows, id0, n)[k]));
        assert(log.sent =~= s0 + deals(rows, id0, n).take(k + 1));
    }
//@after let sent_shares: Vec
    let ghost parts = Seq::new(n as nat, |i: int| dec::<W>(gather_of(net, id0, i)));
    proof { assert(deals(rows, id0, n).take(n) =~= deals(rows, id0, n)); assert(vals(sent_shares) == cat(parts)); cat_cells(parts, b0); }
//@after let sent_shares = Array2
    proof {
        assert forall|j: int| 0 <= j < b0 implies #[trigger] sent_shares.col_s(j) == column::<W>(net, id0, n, j) by { assert(sent_shares.col_s(j) =~= column::<W>(net, id0, n, j)); }
        assert(b0 * bs == bs * b0) by (nonlinear_arith);
    }
//@end
mod zero_mod {
use super::*;
//@fn src/protocol/preproc.rs | - | zero
//@ghost Tracked(log): Tracked<&mut Log>
//@addarg net\s*\.\s*send ==> Tracked(&mut *log)
//@contract
    requires
        context.ok(), num + context.super_inv.rows() <= usize::MAX, made_of(num as int, context.super_inv.rows() as int) + context.super_inv.rows() <= usize::MAX,
        gathers::<W>(net, id@, context.n as int, batches_of(num as int, context.super_inv.rows() as int)),
    ensures
        exists|rows: Seq<Seq<GF<W>>>| dealt(rows, *context.pss_n, batches_of(num as int, context.super_inv.rows() as int)) && zeroes(rows, context.pss_n.pos(), context.n as int, context.pss_n.np())
            && final(log).sent == old(log).sent + #[trigger] deals(rows, id@, context.n as int),
        combined(res@, *context.super_inv, net, id@, context.n as int, batches_of(num as int, context.super_inv.rows() as int)), res@.len() >= num,
//@entry
    let ghost (n, bs, b0) = (context.n as int, context.super_inv.rows() as int, batches_of(num as int, context.super_inv.rows() as int));
    let ghost mut rows: Seq<Seq<GF<W>>> = Seq::empty();
    let ghost (s0, id0) = (log.sent, id@);
    let ghost (pos, np) = (context.pss_n.pos(), context.pss_n.np());
//@closure 0
    |k: usize| -> (o: Vec<GF<W>>) ensures o@.len() == n, of_zero(o@, pos, n, np)
//@closure 1
    |d: Vec<u8>| -> (o: Vec<GF<W>>) requires encodes::<W>(d@, b0) ensures o@ == dec::<W>(d@)
//@after let batches
    proof { ceil_ok(num as int, bs); assert(batches == b0); }
//@before let shares = Array2
    proof {
        rows = choose|rows: Seq<Seq<GF<W>>>| dealt(rows, *context.pss_n, b0) && zeroes(rows, pos, n, np) && vals(shares) == #[trigger] cat(rows);
        assert(exists|rows: Seq<Seq<GF<W>>>| dealt(rows, *context.pss_n, b0) && zeroes(rows, pos, n, np) && vals(shares) == #[trigger] cat(rows));
        cat_cells(rows, n);
    }
//@loop 0
    invariant
        __s0@.len() == n, n == context.n, n <= u16::MAX, forall|k: int| 0 <= k < n ==> #[trigger] __s0@[k] == k,
        rows.len() == b0, shares.rows() == b0, shares.cols() == n, forall|i: int, j: int| 0 <= i < b0 && 0 <= j < n ==> #[trigger] shares.at(i, j) == rows[i][j],
        id@ == id0, log.sent == s0 + deals(rows, id0, n).take(__k0 as int),
//@preloop 0
    proof { assert(s0 + deals(rows, id0, n).take(0) =~= s0); }
//@loopend 0
    proof {
        let k = __k0 - 1;
        assert(shares.col_s(k) =~= for_party(rows, k));
        assert(deals(rows, id0, n).take(k + 1) =~= deals(rows, id0, n).take(k).push(deals(rows, id0, n)[k]));
        assert(log.sent =~= s0 + deals(rows, id0, n).take(k + 1));
    }
//@after let sent_shares: Vec
    let ghost parts = Seq::new(n as nat, |i: int| dec::<W>(gather_of(net, id0, i)));
    proof { assert(deals(rows, id0, n).take(n) =~= deals(rows, id0, n)); assert(vals(sent_shares) == cat(parts)); cat_cells(parts, b0); }
//@after let sent_shares = Array2
    proof {
        assert forall|j: int| 0 <= j < b0 implies #[trigger] sent_shares.col_s(j) == column::<W>(net, id0, n, j) by { assert(sent_shares.col_s(j) =~= column::<W>(net, id0, n, j)); }
        assert(b0 * bs == bs * b0) by (nonlinear_arith);
    }
//@end
//@stub preproc.vrs | - | zero | context.ok(), num + context.super_inv.rows() <= usize::MAX, made_of(num as int, context.super_inv.rows() as int) + context.super_inv.rows() <= usize::MAX, gathers::<W>(net, id@, context.n as int, batches_of(num as int, context.super_inv.rows() as int))
    let Tracked(mut log) = no_log();
    let ghost (mat, b) = (mat_z(context), batches_of(num as int, context.super_inv.rows() as int));
    let r = zero(id, num, context, net, Tracked(&mut log)).await;
    proof { all_applied(r@, mat, net, id@, context.n as int, b); }
    r
//@end
}
//@fn src/protocol/preproc.rs | - | randbit
//@ghost Tracked(log): Tracked<&mut Log>
//@addarg net\s*\.\s*send ==> Tracked(&mut *log)
//@contract
    requires
        context.ok(), num + context.bin_super_inv.rows() <= usize::MAX, made_of(num as int, context.bin_super_inv.rows() as int) + context.bin_super_inv.rows() <= usize::MAX,
        gathers::<W>(net, id@, context.n as int, batches_of(num as int, context.bin_super_inv.rows() as int)),
    ensures
        exists|rows: Seq<Seq<GF<W>>>| dealt(rows, *context.pss, batches_of(num as int, context.bin_super_inv.rows() as int)) && bits(rows, context.pss.pos(), context.n as int, context.pss.np())
            && final(log).sent == old(log).sent + #[trigger] deals(rows, id@, context.n as int),
        combined(res@, *context.bin_super_inv, net, id@, context.n as int, batches_of(num as int, context.bin_super_inv.rows() as int)), res@.len() >= num,
//@entry
    let ghost (n, bs, b0) = (context.n as int, context.bin_super_inv.rows() as int, batches_of(num as int, context.bin_super_inv.rows() as int));
    let ghost mut rows: Seq<Seq<GF<W>>> = Seq::empty();
    let ghost (s0, id0) = (log.sent, id@);
    let ghost (pos, np) = (context.pss.pos(), context.pss.np());
//@closure 0
    |k: usize| -> (o: Vec<GF<W>>) ensures o@.len() == n, of_bits(o@, pos, n, np)
//@closure 1
    |d: Vec<u8>| -> (o: Vec<GF<W>>) requires encodes::<W>(d@, b0) ensures o@ == dec::<W>(d@)
//@after let batches
    proof { ceil_ok(num as int, bs); assert(batches == b0); }
//@before let shares = Array2
    proof {
        rows = choose|rows: Seq<Seq<GF<W>>>| dealt(rows, *context.pss, b0) && bits(rows, pos, n, np) && vals(shares) == #[trigger] cat(rows);
        assert(exists|rows: Seq<Seq<GF<W>>>| dealt(rows, *context.pss, b0) && bits(rows, pos, n, np) && vals(shares) == #[trigger] cat(rows));
        cat_cells(rows, n);
    }
//@loop 0
    invariant
        __s0@.len() == n, n == context.n, n <= u16::MAX, forall|k: int| 0 <= k < n ==> #[trigger] __s0@[k] == k,
        rows.len() == b0, shares.rows() == b0, shares.cols() == n, forall|i: int, j: int| 0 <= i < b0 && 0 <= j < n ==> #[trigger] shares.at(i, j) == rows[i][j],
        id@ == id0, log.sent == s0 + deals(rows, id0, n).take(__k0 as int),
//@preloop 0
    proof { assert(s0 + deals(rows, id0, n).take(0) =~= s0); }
//@loopend 0
    proof {
        let k = __k0 - 1;
        assert(shares.col_s(k) =~= for_party(rows, k));
        assert(deals(rows, id0, n).take(k + 1) =~= deals(rows, id0, n).take(k).push(deals(rows, id0, n)[k]));
        assert(log.sent =~= s0 + deals(rows, id0, n).take(k + 1));
    }
//@after let sent_shares: Vec
    let ghost parts = Seq::new(n as nat, |i: int| dec::<W>(gather_of(net, id0, i)));
    proof { assert(deals(rows, id0, n).take(n) =~= deals(rows, id0, n)); assert(vals(sent_shares) == cat(parts)); cat_cells(parts, b0); }
//@after let sent_shares = Array2
    proof {
        assert forall|j: int| 0 <= j < b0 implies #[trigger] sent_shares.col_s(j) == column::<W>(net, id0, n, j) by { assert(sent_shares.col_s(j) =~= column::<W>(net, id0, n, j)); }
        assert(b0 * bs == bs * b0) by (nonlinear_arith);
    }
//@end

// Composition: results at all parties for one row c of the matrix; polys are the polynomials dealt by the parties.
pub open spec fn lincomb<const W: u8>(c: Seq<GF<W>>, polys: Seq<Seq<GF<W>>>, np: int) -> Seq<GF<W>> decreases c.len() {
    if c.len() == 0 { zeros(np as nat) } else { padd(lincomb(c.drop_last(), polys.drop_last(), np), pscale(c.last(), polys.last())) }
}
pub open spec fn values<const W: u8>(polys: Seq<Seq<GF<W>>>, x: GF<W>) -> Seq<GF<W>> { Seq::new(polys.len(), |i: int| ev(polys[i], x)) }
pub proof fn ev_lincomb<const W: u8>(c: Seq<GF<W>>, polys: Seq<Seq<GF<W>>>, np: int, x: GF<W>)
    requires c.len() == polys.len(), 0 <= np, forall|i: int| 0 <= i < polys.len() ==> (#[trigger] polys[i]).len() == np
    ensures lincomb(c, polys, np).len() == np, ev(lincomb(c, polys, np), x) == dot(c, values(polys, x))
    decreases c.len()
{
    if c.len() == 0 { ev_zeros::<W>(np as nat, x); }
    else {
        let (d, q) = (c.drop_last(), polys.drop_last());
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).len() == np by { assert(polys[i].len() == np); }
        ev_lincomb(d, q, np, x);
        assert(polys.last().len() == np);
        ev_pscale(c.last(), polys.last(), x);
        ev_padd(lincomb(d, q, np), pscale(c.last(), polys.last()), x);
        assert(values(polys, x).drop_last() =~= values(q, x));
    }
}
proof fn dot_zero<const W: u8>(c: Seq<GF<W>>, v: Seq<GF<W>>)
    requires c.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == zero::<W>()
    ensures dot(c, v) == zero::<W>()
    decreases c.len()
{ if c.len() > 0 { dot_zero(c.drop_last(), v.drop_last()); l_mul_zero(c.last()); a_add_zero(zero::<W>()); } }
proof fn dot_bit<const W: u8>(c: Seq<GF<W>>, v: Seq<GF<W>>)
    requires c.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> bit(#[trigger] v[i]), forall|i: int| 0 <= i < c.len() ==> bit(#[trigger] c[i])
    ensures bit(dot(c, v))
    decreases c.len()
{
    if c.len() > 0 {
        dot_bit(c.drop_last(), v.drop_last());
        l_mul_zero(v.last()); a_mul_one(c.last());
        l_mul_zero(c.last()); l_one_mul(v.last());
        a_add_zero(zero::<W>()); a_add_zero(one::<W>()); l_zero_add(one::<W>()); a_add_self(one::<W>());
        assert(bit(c.last()) && bit(v.last()));
    }
}
// out[i] is what party i returns for that row; the results are shares of one polynomial of the same degree, zero (or bits) at the
// positions where all dealt polynomials are.
pub proof fn generated<const W: u8>(c: Seq<GF<W>>, polys: Seq<Seq<GF<W>>>, out: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int) -> (p: Seq<GF<W>>)
    requires
        c.len() == n, polys.len() == n, 0 <= np, forall|i: int| 0 <= i < n ==> (#[trigger] polys[i]).len() == np,
        out.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] out[i] == dot(c, values(polys, gf::<W>(i as u32))),
    ensures
        p.len() == np, out == shares_of(p, n), forall|x: GF<W>| #[trigger] ev(p, x) == dot(c, values(polys, x)),
        (forall|i: int, s: int| 0 <= i < n && 0 <= s < pos.len() ==> ev(#[trigger] polys[i], #[trigger] pos[s]) == zero::<W>()) ==> forall|s: int| 0 <= s < pos.len() ==> ev(p, #[trigger] pos[s]) == zero::<W>(),
        (forall|i: int| 0 <= i < n ==> bit(#[trigger] c[i])) && (forall|i: int, s: int| 0 <= i < n && 0 <= s < pos.len() ==> bit(ev(#[trigger] polys[i], #[trigger] pos[s])))
            ==> forall|s: int| 0 <= s < pos.len() ==> bit(ev(p, #[trigger] pos[s])),
{
    let p = lincomb(c, polys, np);
    assert forall|x: GF<W>| #[trigger] ev(p, x) == dot(c, values(polys, x)) by { ev_lincomb(c, polys, np, x); }
    ev_lincomb(c, polys, np, zero());
    assert(out =~= shares_of(p, n));
    if forall|i: int, s: int| 0 <= i < n && 0 <= s < pos.len() ==> ev(#[trigger] polys[i], #[trigger] pos[s]) == zero::<W>() {
        assert forall|s: int| 0 <= s < pos.len() implies ev(p, #[trigger] pos[s]) == zero::<W>() by { dot_zero(c, values(polys, pos[s])); }
    }
    if (forall|i: int| 0 <= i < n ==> bit(#[trigger] c[i])) && (forall|i: int, s: int| 0 <= i < n && 0 <= s < pos.len() ==> bit(ev(#[trigger] polys[i], #[trigger] pos[s]))) {
        assert forall|s: int| 0 <= s < pos.len() implies bit(ev(p, #[trigger] pos[s])) by { dot_bit(c, values(polys, pos[s])); }
    }
    p
}
// What the preprocessing assumes of the three protocols.
spec fn mat_r<const W: u8>(c: RandContext<W>) -> Array2<GF<W>> { *c.super_inv }
spec fn mat_z<const W: u8>(c: ZeroContext<W>) -> Array2<GF<W>> { *c.super_inv }
spec fn mat_b<const W: u8>(c: RandBitContext<W>) -> Array2<GF<W>> { *c.bin_super_inv }
pub open spec fn applied<const W: u8>(m: Array2<GF<W>>, net: Network, id: Seq<u8>, n: int, b: int) -> Seq<GF<W>> { Seq::new((m.rows() * b) as nat, |k: int| dot(m.row_s(k / b), column::<W>(net, id, n, k % b))) }
proof fn all_applied<const W: u8>(res: Seq<GF<W>>, m: Array2<GF<W>>, net: Network, id: Seq<u8>, n: int, b: int)
    requires combined(res, m, net, id, n, b), 0 <= b
    ensures res == applied(m, net, id, n, b)
{
    assert forall|k: int| 0 <= k < res.len() implies #[trigger] res[k] == applied(m, net, id, n, b)[k] by {
        if b == 0 { assert(m.rows() * b == 0) by (nonlinear_arith) requires b == 0; }
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(k, b);
        vstd::arithmetic::div_mod::lemma_mod_bound(k, b);
        let (a, j) = (k / b, k % b);
        vstd::arithmetic::div_mod::lemma_div_pos_is_pos(k, b);
        assert(a < m.rows()) by (nonlinear_arith) requires k == b * a + j, 0 <= j < b, k < m.rows() * b;
        assert(a * b == b * a) by (nonlinear_arith);
        assert(cell(res, b, a, j) == dot(m.row_s(a), column::<W>(net, id, n, j)));
    }
    assert(res =~= applied(m, net, id, n, b));
}
pub closed spec fn rand_of<const W: u8>(net: Network, id: Seq<u8>, num: int, c: RandContext<W>) -> Seq<GF<W>> { applied(*c.super_inv, net, id, c.n as int, batches_of(num, c.super_inv.rows() as int)) }
pub closed spec fn zero_of<const W: u8>(net: Network, id: Seq<u8>, num: int, c: ZeroContext<W>) -> Seq<GF<W>> { applied(*c.super_inv, net, id, c.n as int, batches_of(num, c.super_inv.rows() as int)) }
pub closed spec fn bit_of<const W: u8>(net: Network, id: Seq<u8>, num: int, c: RandBitContext<W>) -> Seq<GF<W>> { applied(*c.bin_super_inv, net, id, c.n as int, batches_of(num, c.bin_super_inv.rows() as int)) }
//@stub preproc.vrs | - | rand | context.ok(), num + context.super_inv.rows() <= usize::MAX, made_of(num as int, context.super_inv.rows() as int) + context.super_inv.rows() <= usize::MAX, gathers::<W>(net, id@, context.n as int, batches_of(num as int, context.super_inv.rows() as int))
    let Tracked(mut log) = no_log();
    let ghost (mat, b) = (mat_r(context), batches_of(num as int, context.super_inv.rows() as int));
    let r = rand(id, num, context, net, Tracked(&mut log)).await;
    proof { all_applied(r@, mat, net, id@, context.n as int, b); }
    r
//@end
//@stub preproc.vrs | - | randbit | context.ok(), num + context.bin_super_inv.rows() <= usize::MAX, made_of(num as int, context.bin_super_inv.rows() as int) + context.bin_super_inv.rows() <= usize::MAX, gathers::<W>(net, id@, context.n as int, batches_of(num as int, context.bin_super_inv.rows() as int))
    let Tracked(mut log) = no_log();
    let ghost (mat, b) = (mat_b(context), batches_of(num as int, context.bin_super_inv.rows() as int));
    let r = randbit(id, num, context, net, Tracked(&mut log)).await;
    proof { all_applied(r@, mat, net, id@, context.n as int, b); }
    r
//@end
}
