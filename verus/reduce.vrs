// Degree reduction and multiplication (C20): reduce_degree, mult in src/protocol/core.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include mpc.vrs
//@include leader.vrs
//@include deal.vrs

// row are shares of a polynomial of np coefficients which agrees at pos with the polynomial of n coefficients behind col.
pub open spec fn refreshed<const W: u8>(row: Seq<GF<W>>, col: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int) -> bool {
    exists|s: Seq<GF<W>>| reads(s, col, pos, n, n) && #[trigger] sharing(row, pos, n, np, s)
}
pub open spec fn masked<const W: u8>(x: Seq<GF<W>>, r: Seq<GF<W>>, z: Seq<GF<W>>) -> Seq<GF<W>> { Seq::new(x.len(), |j: int| add(add(x[j], r[j]), z[j])) }
// What the leader sends: shares of every column, refreshed.
pub open spec fn leads<const W: u8>(rows: Seq<Seq<GF<W>>>, net: Network, id: Seq<u8>, ctx: MPCContext<W>, num: int) -> bool {
    rows.len() == num && forall|j: int| 0 <= j < num ==> (#[trigger] rows[j]).len() == ctx.n && refreshed(rows[j], column::<W>(net, id, ctx.n as int, j), defpos::<W>(ctx.n as int, ctx.l as int), ctx.n as int, ctx.t + ctx.l)
}
// Everything sent by a party in one degree reduction of x.
pub open spec fn sends<const W: u8>(now: Seq<Sent>, before: Seq<Sent>, x: Seq<GF<W>>, r: Seq<GF<W>>, z: Seq<GF<W>>, lead: u16, net: Network, id: Seq<u8>, ctx: MPCContext<W>) -> bool {
    let first = before.push(Sent { to: Recipient::One(lead), id, data: enc(masked(x, r, z)) });
    if ctx.id == lead { exists|rows: Seq<Seq<GF<W>>>| leads(rows, net, id, ctx, x.len() as int) && now == first + #[trigger] deals(rows, id, ctx.n as int) } else { now == first }
}

//@fn src/protocol/core.rs | - | reduce_degree
//@ghost Tracked(log): Tracked<&mut Log>
//@addarg net\s*\.\s*send ==> Tracked(&mut *log)
//@contract
    requires
        context.ok(), random@.len() == vx@.len(), zero@.len() == vx@.len(), leader matches Some(p) ==> p < context.n,
        encodes::<W>(back_of(net, id@), vx@.len() as int),
        context.id == led(leader, id@, context.n as int) ==> gathers::<W>(net, id@, context.n as int, vx@.len() as int),
    ensures
        sends(final(log).sent, old(log).sent, vx@, random@, zero@, led(leader, id@, context.n as int), net, id@, context),
        res@.len() == vx@.len(), forall|j: int| 0 <= j < vx@.len() ==> #[trigger] res@[j] == add(dec::<W>(back_of(net, id@))[j], random@[j]),
//@entry
    let ghost (n, num0) = (context.n as int, vx@.len() as int);
    let ghost mut rows: Seq<Seq<GF<W>>> = Seq::empty();
    let ghost (s0, id0) = (log.sent, id@);
    proof { algebra::<W>(); sums::<W>(); }
    let ghost first = s0.push(Sent { to: Recipient::One(led(leader, id@, n)), id: id0, data: enc(masked(vx@, random@, zero@)) });
//@closure 0
    |x: &GF<W>, r: &GF<W>, z: &GF<W>| -> (o: GF<W>) ensures o == add(add(*x, *r), *z)
//@closure 1
    |d: Vec<u8>| -> (o: Vec<GF<W>>) requires encodes::<W>(d@, num0) ensures o@ == dec::<W>(d@)
//@closure 2
    |s: Array1<GF<W>>| -> (o: Vec<GF<W>>) requires s@.len() == n ensures o@.len() == n, refreshed(o@, s@, defpos::<W>(n, context.l as int), n, context.t + context.l)
//@closure 3
    |s: GF<W>, r: &GF<W>| -> (o: GF<W>) ensures o == add(s, *r)
//@after let vrecon
    proof { assert(vrecon@ =~= masked(vx@, random@, zero@)) }
//@after let shares_n: Vec
    let ghost parts = Seq::new(n as nat, |i: int| dec::<W>(gather_of(net, id0, i)));
    proof { assert(vals(shares_n) == cat(parts)); cat_cells(parts, num0); }
//@after let shares_n = Array2
    proof { assert forall|j: int| 0 <= j < num0 implies #[trigger] shares_n.col_s(j) == column::<W>(net, id0, n, j) by { assert(shares_n.col_s(j) =~= column::<W>(net, id0, n, j)); } }
//@before let shares = Array2
    proof { rows = choose|rows: Seq<Seq<GF<W>>>| leads(rows, net, id0, context, num0) && vals(shares) == #[trigger] cat(rows);
        assert(exists|rows: Seq<Seq<GF<W>>>| leads(rows, net, id0, context, num0) && vals(shares) == #[trigger] cat(rows));
        cat_cells(rows, n);
    }
//@loop 0
    invariant
        __s0@.len() == n, n == context.n, n <= u16::MAX, forall|k: int| 0 <= k < n ==> #[trigger] __s0@[k] == k,
        rows.len() == num0, shares.rows() == num0, shares.cols() == n, forall|i: int, j: int| 0 <= i < num0 && 0 <= j < n ==> #[trigger] shares.at(i, j) == rows[i][j],
        id@ == id0, log.sent == first + deals(rows, id0, n).take(__k0 as int),
//@preloop 0
    proof { assert(first + deals(rows, id0, n).take(0) =~= first); }
//@loopend 0
    proof {
        let k = __k0 - 1;
        assert(shares.col_s(k) =~= for_party(rows, k));
        assert(deals(rows, id0, n).take(k + 1) =~= deals(rows, id0, n).take(k).push(deals(rows, id0, n)[k]));
        assert(log.sent =~= first + deals(rows, id0, n).take(k + 1));
    }
//@before let mut shares: Array1
    proof { if context.id == leader { assert(deals(rows, id0, n).take(n) =~= deals(rows, id0, n)); } }
//@end
//@fn src/protocol/core.rs | - | mult
//@ghost Tracked(log): Tracked<&mut Log>
//@addarg \breduce_degree ==> Tracked(&mut *log)
//@contract
    requires
        context.ok(), vy@.len() == vx@.len(), random@.len() == vx@.len(), zero@.len() == vx@.len(), leader matches Some(p) ==> p < context.n,
        encodes::<W>(back_of(net, id@), vx@.len() as int),
        context.id == led(leader, id@, context.n as int) ==> gathers::<W>(net, id@, context.n as int, vx@.len() as int),
    ensures
        sends(final(log).sent, old(log).sent, pmul(vx@, vy@), random@, zero@, led(leader, id@, context.n as int), net, id@, context),
        res@.len() == vx@.len(), forall|j: int| 0 <= j < vx@.len() ==> #[trigger] res@[j] == add(dec::<W>(back_of(net, id@))[j], random@[j]),
//@entry
    let ghost x0 = vx@;
    proof { algebra::<W>(); }
//@closure 0
    |x: GF<W>, y: &GF<W>| -> (o: GF<W>) ensures o == mul(x, *y)
//@before reduce_degree
    proof { assert(vx@ =~= pmul(x0, vy@)); }
//@end

// Composition. One element of one run at n parties which follow the contracts above: party i holds x[i], r[i] and z[i]; u[i]
// is what it sends to the leader, row what the leader deals, out[i] the results.
pub proof fn reduced<const W: u8>(px: Seq<GF<W>>, pr: Seq<GF<W>>, pz: Seq<GF<W>>, u: Seq<GF<W>>, row: Seq<GF<W>>, out: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int) -> (p: Seq<GF<W>>)
    requires
        fits(pos, n, n), pos.len() <= np <= n,
        px.len() == n, pr.len() == np, pz.len() == n, forall|s: int| 0 <= s < pos.len() ==> ev(pz, #[trigger] pos[s]) == zero::<W>(),
        u.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] u[i] == add(add(shares_of(px, n)[i], shares_of(pr, n)[i]), shares_of(pz, n)[i]),
        refreshed(row, u, pos, n, np), out.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] out[i] == add(row[i], shares_of(pr, n)[i]),
    ensures p.len() == np, out == shares_of(p, n), forall|s: int| 0 <= s < pos.len() ==> ev(p, #[trigger] pos[s]) == ev(px, pos[s])
{
    let prx = pr + zeros::<W>((n - np) as nat);
    let pu = padd(padd(px, prx), pz);
    assert forall|x: GF<W>| #[trigger] ev(pu, x) == add(add(ev(px, x), ev(pr, x)), ev(pz, x)) by {
        ev_more(pr, (n - np) as nat, x); ev_padd(px, prx, x); ev_padd(padd(px, prx), pz, x);
    }
    assert(u =~= shares_of(pu, n));
    let s = choose|s: Seq<GF<W>>| reads(s, u, pos, n, n) && #[trigger] sharing(row, pos, n, np, s);
    let q = choose|q: Seq<GF<W>>| #[trigger] shares_for(q, row, pos, n, np, s);
    let p = padd(q, pr);
    assert forall|x: GF<W>| #[trigger] ev(p, x) == add(ev(q, x), ev(pr, x)) by { ev_padd(q, pr, x); }
    assert(out =~= shares_of(p, n));
    assert forall|k: int| 0 <= k < pos.len() implies ev(p, #[trigger] pos[k]) == ev(px, pos[k]) by {
        assert(s[k] == ev(pu, pos[k]));
        assert(ev(q, pos[k]) == s[k]);
        a_add_zero(add(ev(px, pos[k]), ev(pr, pos[k])));
        l_cancel(ev(px, pos[k]), ev(pr, pos[k]));
    }
    p
}
// The product of two sharings whose degrees add up to less than n: the results are shares of the products.
pub proof fn multiplied<const W: u8>(pa: Seq<GF<W>>, pb: Seq<GF<W>>, pr: Seq<GF<W>>, pz: Seq<GF<W>>, u: Seq<GF<W>>, row: Seq<GF<W>>, out: Seq<GF<W>>, pos: Seq<GF<W>>, n: int, np: int) -> (p: Seq<GF<W>>)
    requires
        fits(pos, n, n), pos.len() <= np <= n,
        pa.len() + pb.len() <= n + 1, pa.len() >= 1, pb.len() >= 1, pr.len() == np, pz.len() == n, forall|s: int| 0 <= s < pos.len() ==> ev(pz, #[trigger] pos[s]) == zero::<W>(),
        u.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] u[i] == add(add(mul(shares_of(pa, n)[i], shares_of(pb, n)[i]), shares_of(pr, n)[i]), shares_of(pz, n)[i]),
        refreshed(row, u, pos, n, np), out.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] out[i] == add(row[i], shares_of(pr, n)[i]),
    ensures p.len() == np, out == shares_of(p, n), forall|s: int| 0 <= s < pos.len() ==> ev(p, #[trigger] pos[s]) == mul(ev(pa, pos[s]), ev(pb, pos[s]))
{
    let px = mulpoly(pa, pb, n);
    assert(u =~= Seq::new(n as nat, |i: int| add(add(shares_of(px, n)[i], shares_of(pr, n)[i]), shares_of(pz, n)[i])));
    reduced(px, pr, pz, u, row, out, pos, n, np)
}
// What the units that call mult assume of it.
pub open spec fn mult_of<const W: u8>(net: Network, id: Seq<u8>, leader: Option<u16>, xy: Seq<GF<W>>, r: Seq<GF<W>>, z: Seq<GF<W>>) -> Seq<GF<W>> { Seq::new(xy.len(), |j: int| add(dec::<W>(back_of(net, id))[j], r[j])) }
//@stub mult_stub.vrs | - | mult | encodes::<W>(back_of(net, id@), vx@.len() as int), context.id == led(leader, id@, context.n as int) ==> gathers::<W>(net, id@, context.n as int, vx@.len() as int)
    let Tracked(mut log) = no_log();
    let r = mult(id, vx, vy, random, zero, leader, context, net, Tracked(&mut log)).await;
    proof { assert(r@ =~= mult_of(net, id@, leader, pmul(vx@, vy@), random@, zero@)); }
    r
//@end
}
