// Moving secrets to other positions (C21): trans in src/protocol/core.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include mpc.vrs
//@include leader.vrs
//@include deal.vrs
//@note compute_recon_coeffs, compute_share_coeffs and share_using_coeffs have the contracts proved in units semirecon and share (C09), Combination::apply the one proved in unit combination (C08).
//@item src/math/mod.rs | pub struct Combination\(
//@item src/protocol/core.rs | pub struct SharingTransform<
impl Combination {
    pub closed spec fn map(&self) -> Seq<usize> { self.0@ }
    #[verifier::external_body]
    pub fn apply<T: Copy>(&self, v: Array1<T>) -> (r: Vec<T>)
        requires forall|i: int| 0 <= i < self.map().len() ==> (#[trigger] self.map()[i]) < v@.len()
        ensures r@.len() == self.map().len(), forall|i: int| 0 <= i < self.map().len() ==> #[trigger] r@[i] == v@[self.map()[i] as int]
    { unimplemented!() }
}
// coeffs lead from the values at pos and the first shares to the other shares
pub open spec fn usable<const W: u8>(coeffs: Array2<GF<W>>, pos: Seq<GF<W>>, n: int, l: int) -> bool {
    fits(pos, n, coeffs.cols() as int) && l == pos.len() && takes(coeffs, allp(pos, n).take(coeffs.cols() as int), allp(pos, n).skip(coeffs.cols() as int))
}
impl<const W: u8> PackedSharing<W> {
    #[verifier::external_body]
    pub fn compute_recon_coeffs(d: u32, n: u32, pos: &Vec<GF<W>>) -> (r: Array2<GF<W>>)
        requires fits(pos@, n as int, d + 1), d < u32::MAX
        ensures takes(r, shp::<W>(n as int).skip(n - d - 1), pos@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn compute_share_coeffs(d: u32, n: u32, pos: &Vec<GF<W>>) -> (r: Array2<GF<W>>)
        requires fits(pos@, n as int, d + 1), d < u32::MAX
        ensures takes(r, allp(pos@, n as int).take(d + 1), allp(pos@, n as int).skip(d + 1))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn share_using_coeffs<R: Rng>(secrets: Array1<GF<W>>, coeffs: Array2<GF<W>>, l: u32, rng: &mut R) -> (r: Vec<GF<W>>)
        requires exists|pos: Seq<GF<W>>, n: int| #[trigger] usable(coeffs, pos, n, l as int)
        ensures forall|pos: Seq<GF<W>>, n: int| #[trigger] usable(coeffs, pos, n, l as int) ==> r@.len() == n && sharing(r@, pos, n, coeffs.cols() as int, secrets@)
    { unimplemented!() }
}
impl<const W: u8> SharingTransform<W> {
    pub closed spec fn old(&self) -> Seq<GF<W>> { self.old_pos@ }
    pub closed spec fn new_(&self) -> Seq<GF<W>> { self.new_pos@ }
    pub closed spec fn f(&self) -> Seq<usize> { self.f.map() }
    pub open spec fn ok(&self, n: int, np: int) -> bool {
        fits(self.old(), n, n) && fits(self.new_(), n, np) && self.f().len() == self.new_().len() && forall|i: int| 0 <= i < self.f().len() ==> (#[trigger] self.f()[i]) < self.old().len()
    }
//@fn src/protocol/core.rs | ^impl<const W: u8> SharingTransform<W>$ | new
//@contract
    ensures res.old() == old_pos@, res.new_() == new_pos@, res.f() == f.map()
//@end
}
// row are shares of a polynomial of np coefficients whose value at the i-th new position is the value at the f[i]-th old
// position of the polynomial of n coefficients behind col.
pub open spec fn moved<const W: u8>(row: Seq<GF<W>>, col: Seq<GF<W>>, old: Seq<GF<W>>, new: Seq<GF<W>>, f: Seq<usize>, n: int, np: int) -> bool {
    exists|v: Seq<GF<W>>| v.len() == new.len() && holds(v, col, old, f, n) && #[trigger] sharing(row, new, n, np, v)
}
pub open spec fn holds<const W: u8>(v: Seq<GF<W>>, col: Seq<GF<W>>, old: Seq<GF<W>>, f: Seq<usize>, n: int) -> bool {
    forall|p: Seq<GF<W>>, i: int| p.len() == n && col == #[trigger] shares_of(p, n) && 0 <= i < v.len() ==> #[trigger] v[i] == ev(p, old[f[i] as int])
}
pub open spec fn leads<const W: u8>(rows: Seq<Seq<GF<W>>>, net: Network, id: Seq<u8>, ctx: MPCContext<W>, tf: SharingTransform<W>, num: int) -> bool {
    rows.len() == num && forall|j: int| 0 <= j < num ==> (#[trigger] rows[j]).len() == ctx.n && moved(rows[j], column::<W>(net, id, ctx.n as int, j), tf.old(), tf.new_(), tf.f(), ctx.n as int, ctx.t + ctx.l)
}
pub open spec fn sends<const W: u8>(now: Seq<Sent>, before: Seq<Sent>, x: Seq<GF<W>>, rn: Seq<GF<W>>, lead: u16, net: Network, id: Seq<u8>, ctx: MPCContext<W>, tf: SharingTransform<W>) -> bool {
    let first = before.push(Sent { to: Recipient::One(lead), id, data: enc(paddv(x, rn)) });
    if ctx.id == lead { exists|rows: Seq<Seq<GF<W>>>| leads(rows, net, id, ctx, tf, x.len() as int) && now == first + #[trigger] deals(rows, id, ctx.n as int) } else { now == first }
}
//@fn src/protocol/core.rs | - | trans
//@ghost Tracked(log): Tracked<&mut Log>
//@addarg net\s*\.\s*send ==> Tracked(&mut *log)
//@contract
    requires
        context.ok(), transform.ok(context.n as int, context.t + context.l), random@.len() == vx@.len(), random_n@.len() == vx@.len(), leader matches Some(p) ==> p < context.n,
        encodes::<W>(back_of(net, id@), vx@.len() as int),
        context.id == led(leader, id@, context.n as int) ==> gathers::<W>(net, id@, context.n as int, vx@.len() as int),
    ensures
        sends(final(log).sent, old(log).sent, vx@, random_n@, led(leader, id@, context.n as int), net, id@, context, transform),
        res@.len() == vx@.len(), forall|j: int| 0 <= j < vx@.len() ==> #[trigger] res@[j] == add(dec::<W>(back_of(net, id@))[j], random@[j]),
//@entry
    let ghost (n, np, num0) = (context.n as int, context.t + context.l, vx@.len() as int);
    let ghost mut rows: Seq<Seq<GF<W>>> = Seq::empty();
    let ghost (s0, id0, rn0) = (log.sent, id@, random_n@);
    let ghost first = s0.push(Sent { to: Recipient::One(led(leader, id@, n)), id: id0, data: enc(paddv(vx@, random_n@)) });
    proof { algebra::<W>(); sums::<W>(); }
//@closure 0
    |r: GF<W>, x: &GF<W>| -> (o: GF<W>) ensures o == add(*x, r)
//@after zip_upd\(&mut random_n
    proof { assert(random_n@ =~= paddv(vx@, rn0)); }
//@closure 1
    |d: Vec<u8>| -> (o: Vec<GF<W>>) requires encodes::<W>(d@, num0) ensures o@ == dec::<W>(d@)
//@closure 2
    |c: Array1<GF<W>>| -> (o: Vec<GF<W>>) requires c@.len() == transform.old().len()
        ensures o@.len() == n, exists|v: Seq<GF<W>>| v.len() == transform.f().len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == c@[transform.f()[i] as int]) && #[trigger] sharing(o@, transform.new_(), n, np, v)
//@closure 3
    |s: GF<W>, r: &GF<W>| -> (o: GF<W>) ensures o == add(s, *r)
//@after let shares_n: Vec
    let ghost parts = Seq::new(n as nat, |i: int| dec::<W>(gather_of(net, id0, i)));
    proof { assert(vals(shares_n) == cat(parts)); cat_cells(parts, num0); }
//@after let shares_n = Array2
    proof { assert forall|j: int| 0 <= j < num0 implies #[trigger] shares_n.col_s(j) == column::<W>(net, id0, n, j) by { assert(shares_n.col_s(j) =~= column::<W>(net, id0, n, j)); } }
//@after let secrets
    proof {
        assert forall|j: int| 0 <= j < num0 implies reads(#[trigger] secrets.col_s(j), column::<W>(net, id0, n, j), transform.old(), n, n) by {
            all_read(recon_n_coeffs, secrets.col_s(j), column::<W>(net, id0, n, j), transform.old(), n);
        }
        assert(usable(share_coeffs, transform.new_(), n, transform.new_().len() as int));
    }
//@before let shares = Array2
    proof {
        rows = choose|rows: Seq<Seq<GF<W>>>| leads(rows, net, id0, context, transform, num0) && vals(shares) == #[trigger] cat(rows);
        assert(exists|rows: Seq<Seq<GF<W>>>| leads(rows, net, id0, context, transform, num0) && vals(shares) == #[trigger] cat(rows));
        cat_cells(rows, n);
    }
//@loop 0
    invariant
        __s0@.len() == n, n == context.n, n <= u16::MAX, forall|k: int| 0 <= k < n ==> #[trigger] __s0@[k] == k,
        rows.len() == num0, shares.rows() == num0, shares.cols() == n, forall|i: int, j: int| 0 <= i < num0 && 0 <= j < n ==> #[trigger] shares.at(i, j) == rows[i][j],
        id@ == id0, log.sent == first + deals(rows, id0, n).take(__k0 as int),
//@preloop 0
    proof { assert(first + deals(rows, id0, n).take(0) =~= first); }
//@loopend 0
    proof {
        let k = __k0 - 1;
        assert(shares.col_s(k) =~= for_party(rows, k));
        assert(deals(rows, id0, n).take(k + 1) =~= deals(rows, id0, n).take(k).push(deals(rows, id0, n)[k]));
        assert(log.sent =~= first + deals(rows, id0, n).take(k + 1));
    }
//@before let mut shares: Array1
    proof { if context.id == leader { assert(deals(rows, id0, n).take(n) =~= deals(rows, id0, n)); } }
//@end
// Applying the matrix for all n shares reads the values.
proof fn all_read<const W: u8>(m: Array2<GF<W>>, r: Seq<GF<W>>, shares: Seq<GF<W>>, pos: Seq<GF<W>>, n: int)
    requires fits(pos, n, n), shares.len() == n, takes(m, shp::<W>(n).skip(0), pos), r.len() == pos.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == dot(m.row_s(i), shares)
    ensures reads(r, shares, pos, n, n)
{
    let c = shp::<W>(n);
    assert(c.skip(0) =~= c);
    assert(allp(pos, n).skip(pos.len() as int) =~= c);
    cut_distinct(allp(pos, n), pos.len() as int, n + pos.len());
    takes_ev(m, c, pos, shares);
    through_at(c, shares);
    assert forall|p: Seq<GF<W>>, i: int| p.len() == n && shares == #[trigger] shares_of(p, n) && 0 <= i < pos.len() implies #[trigger] r[i] == ev(p, pos[i]) by {
        let q = through(c, shares);
        assert forall|k: int| 0 <= k < p.len() implies ev(p, #[trigger] c[k]) == ev(q, c[k]) by { assert(shares_of(p, n)[k] == ev(p, c[k])); }
        agree(p, q, c, pos[i]);
    }
}
// Composition: one element of one run at n parties which follow the contract above. px is behind the shares x, pn and pr behind
// the random sharings (old and new positions), u are the messages to the leader, row what it deals, out the results.
pub proof fn transformed<const W: u8>(px: Seq<GF<W>>, pn: Seq<GF<W>>, pr: Seq<GF<W>>, u: Seq<GF<W>>, row: Seq<GF<W>>, out: Seq<GF<W>>, old: Seq<GF<W>>, new: Seq<GF<W>>, f: Seq<usize>, n: int, np: int) -> (p: Seq<GF<W>>)
    requires
        px.len() <= n, pn.len() == n, pr.len() == np, np <= n, f.len() == new.len(), forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) < old.len(),
        // the random sharings hold the same values
        forall|i: int| 0 <= i < new.len() ==> ev(pr, #[trigger] new[i]) == ev(pn, old[f[i] as int]),
        u.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] u[i] == add(shares_of(px, n)[i], shares_of(pn, n)[i]),
        moved(row, u, old, new, f, n, np), out.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] out[i] == add(row[i], shares_of(pr, n)[i]),
    ensures p.len() == np, out == shares_of(p, n), forall|i: int| 0 <= i < new.len() ==> ev(p, #[trigger] new[i]) == ev(px, old[f[i] as int])
{
    let pxx = px + zeros::<W>((n - px.len()) as nat);
    let pu = padd(pxx, pn);
    assert forall|x: GF<W>| #[trigger] ev(pu, x) == add(ev(px, x), ev(pn, x)) by { ev_more(px, (n - px.len()) as nat, x); ev_padd(pxx, pn, x); }
    assert(u =~= shares_of(pu, n));
    let v = choose|v: Seq<GF<W>>| v.len() == new.len() && holds(v, u, old, f, n) && #[trigger] sharing(row, new, n, np, v);
    let q = choose|q: Seq<GF<W>>| #[trigger] shares_for(q, row, new, n, np, v);
    let p = padd(q, pr);
    assert forall|x: GF<W>| #[trigger] ev(p, x) == add(ev(q, x), ev(pr, x)) by { ev_padd(q, pr, x); }
    assert(out =~= shares_of(p, n));
    assert forall|i: int| 0 <= i < new.len() implies ev(p, #[trigger] new[i]) == ev(px, old[f[i] as int]) by {
        let k = f[i] as int;
        assert(v[i] == ev(pu, old[k]));
        assert(ev(q, new[i]) == v[i]);
        l_cancel(ev(px, old[k]), ev(pn, old[k]));
    }
    p
}
// What the units that call it assume of it.
pub open spec fn trans_of<const W: u8>(net: Network, id: Seq<u8>, x: Seq<GF<W>>, r: Seq<GF<W>>, rn: Seq<GF<W>>, tf: SharingTransform<W>, leader: Option<u16>, ctx: MPCContext<W>) -> Seq<GF<W>> { Seq::new(x.len(), |j: int| add(dec::<W>(back_of(net, id))[j], r[j])) }
//@spec transforms.vrs | movable
//@stub transforms.vrs | - | trans | encodes::<W>(back_of(net, id@), vx@.len() as int), context.id == led(leader, id@, context.n as int) ==> gathers::<W>(net, id@, context.n as int, vx@.len() as int)
    let Tracked(mut log) = no_log();
    let r = trans(id, vx, random, random_n, transform, leader, context, net, Tracked(&mut log)).await;
    proof { assert(r@ =~= trans_of(net, id@, vx@, random@, random_n@, transform, leader, context)); }
    r
//@end
impl<const W: u8> SharingTransform<W> {
//@stub transforms.vrs | impl<const W: u8> SharingTransform<W> | new
    Self::new(old_pos, new_pos, f)
//@end
}
}
