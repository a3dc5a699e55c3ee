// Random sharings for moving secrets (C22): RandSharingTransform::new, randtrans in src/protocol/core.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include mpc.vrs
//@include nd3.vrs
//@include tab.vrs
//@include vd.vrs
//@include tasks.vrs
//@include posns.vrs
//@include deal.vrs
//@note Combination::new and Combination::apply have the contracts proved in unit combination (C08).
use math::lagrange_coeffs;
//@item src/math/mod.rs | pub struct Combination\(
impl Combination {
    pub closed spec fn map(&self) -> Seq<usize> { self.0@ }
    #[verifier::external_body]
    pub fn new(map: Vec<usize>) -> (r: Self) ensures r.map() == map@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.map().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn apply<T: Copy>(&self, v: Array1<T>) -> (r: Vec<T>)
        requires forall|i: int| 0 <= i < self.map().len() ==> (#[trigger] self.map()[i]) < v@.len()
        ensures r@.len() == self.map().len(), forall|i: int| 0 <= i < self.map().len() ==> #[trigger] r@[i] == v@[self.map()[i] as int]
    { unimplemented!() }
}
//@item src/protocol/core.rs | pub struct RandSharingTransform<

// From np values, the first of them at pos and the rest the first shares, to the value at x.
pub open spec fn pts<const W: u8>(pos: Seq<GF<W>>, n: int, np: int) -> Seq<GF<W>> { allp(pos, n).take(np) }
pub open spec fn lrow<const W: u8>(pos: Seq<GF<W>>, n: int, np: int, x: GF<W>) -> Seq<GF<W>> { Seq::new(np as nat, |j: int| lag(pts(pos, n, np), j, x)) }
// f on the first positions, the others left in place
pub open spec fn ext(f: Seq<usize>, x: int) -> int { if x < f.len() { f[x] as int } else { x } }
pub open spec fn units<const W: u8>(f: Seq<usize>, np: int, c: int) -> Seq<GF<W>> { Seq::new(np as nat, |x: int| unit::<W>(ext(f, x), c)) }
// Coefficient c of share r after moving by f to pos.
pub open spec fn moving<const W: u8>(pos: Seq<GF<W>>, f: Seq<usize>, n: int, np: int, r: int, c: int) -> GF<W> { dot(lrow(pos, n, np, gf::<W>(r as u32)), units(f, np, c)) }
pub open spec fn staying<const W: u8>(pos: Seq<GF<W>>, n: int, r: int, c: int) -> GF<W> { lag(pts(pos, n, n), c, gf::<W>(r as u32)) }
// One party's shares of the coefficients of all transforms.
pub open spec fn moves<const W: u8>(new: Seq<Vec<GF<W>>>, f: Seq<Combination>, n: int, np: int, r: int, c: int) -> Seq<GF<W>> { Seq::new(new.len(), |k: int| moving(new[k]@, f[k].map(), n, np, r, c)) }
pub open spec fn stays<const W: u8>(old: Seq<Vec<GF<W>>>, n: int, r: int, c: int) -> Seq<GF<W>> { Seq::new(old.len(), |k: int| staying(old[k]@, n, r, c)) }
pub open spec fn share_at<const W: u8>(y: Seq<GF<W>>, n: int, l: int, id: int) -> GF<W> { dot(lrow(defpos::<W>(n, l), n, l + 1, gf::<W>(id as u32)).take(y.len() as int), y) }
pub open spec fn movable<const W: u8>(old: Seq<GF<W>>, new: Seq<GF<W>>, f: Seq<usize>, n: int, np: int, l: int) -> bool {
    fits(old, n, n) && fits(new, n, np) && old.len() <= l && new.len() <= l && f.len() == new.len() && forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) < old.len()
}
impl<const W: u8> RandSharingTransform<W> {
    pub closed spec fn a(&self) -> Array2<GF<W>> { self.share }
    pub closed spec fn b(&self) -> Array2<GF<W>> { self.share_n }
    pub open spec fn ok(&self, n: int, np: int) -> bool { self.a().rows() == n && self.a().cols() == np && self.b().rows() == n && self.b().cols() == n }
//@fn src/protocol/core.rs | ^impl<const W: u8> RandSharingTransform<W>$ | new
//@contract
    requires
        context.ok(), old_pos@.len() == new_pos@.len(), f_trans@.len() == new_pos@.len(), f_trans@.len() <= context.l, context.l < context.n,
        forall|k: int| 0 <= k < old_pos@.len() ==> movable((#[trigger] old_pos@[k])@, new_pos@[k]@, f_trans@[k].map(), context.n as int, context.t + context.l, context.l as int),
    ensures
        res.ok(context.n as int, context.t + context.l),
        forall|r: int, c: int| 0 <= r < context.n && 0 <= c < context.t + context.l ==> #[trigger] res.a().at(r, c) == share_at(moves(new_pos@, f_trans@, context.n as int, context.t + context.l, r, c), context.n as int, context.l as int, context.id as int),
        forall|r: int, c: int| 0 <= r < context.n && 0 <= c < context.n ==> #[trigger] res.b().at(r, c) == share_at(stays(old_pos@, context.n as int, r, c), context.n as int, context.l as int, context.id as int),
//@entry
    let ghost (n, np0, l, m) = (context.n as int, context.t + context.l, context.l as int, old_pos@.len() as int);
    broadcast use dims3;
//@closure 0
    |d: usize, n: usize, pos: &[GF<W>]| -> (o: Array2<GF<W>>)
        requires 1 <= d + 1 <= n, n <= u32::MAX, distinct(allp(pos@, n as int)) ensures takes(o, pts(pos@, n as int, d + 1), shp::<W>(n as int))
//@before lagrange_coeffs
    proof {
        assert(vals(all_pos) =~= allp(pos@, n as int));
        assert(allp(pos@, n as int).subrange(0, np as int) =~= pts(pos@, n as int, np as int));
        cut_distinct(allp(pos@, n as int), 0, np as int);
    }
//@loop 0
    invariant
        context.ok(), n == context.n, np0 == context.t + context.l, l == context.l, m == old_pos@.len(), m == new_pos@.len(), m == f_trans@.len(), m <= l,
        __s0@.len() == m, forall|k: int| 0 <= k < m ==> #[trigger] __s0@[k] == ((&old_pos@[k], &new_pos@[k]), &f_trans@[k]),
        forall|k: int| 0 <= k < m ==> movable((#[trigger] old_pos@[k])@, new_pos@[k]@, f_trans@[k].map(), n, np0, l),
        acc_coeffs.dims() == (__k0 as int, n, np0), acc_coeffs_n.dims() == (__k0 as int, n, n),
        forall|k: int, r: int, c: int| 0 <= k < __k0 && 0 <= r < n && 0 <= c < np0 ==> #[trigger] acc_coeffs.at3(k, r, c) == moving(new_pos@[k]@, f_trans@[k].map(), n, np0, r, c),
        forall|k: int, r: int, c: int| 0 <= k < __k0 && 0 <= r < n && 0 <= c < n ==> #[trigger] acc_coeffs_n.at3(k, r, c) == staying(old_pos@[k]@, n, r, c),
        forall|d: usize, n: usize, pos: &[GF<W>]| 1 <= d + 1 <= n && n <= u32::MAX && distinct(allp(pos@, n as int)) ==> #[trigger] share_coeffs.requires((d, n, pos)),
        forall|d: usize, n: usize, pos: &[GF<W>], o: Array2<GF<W>>| #[trigger] share_coeffs.ensures((d, n, pos), o) ==> takes(o, pts(pos@, n as int, d + 1), shp::<W>(n as int)),
//@after let ext_trans
    proof { assert forall|x: int| 0 <= x < np0 implies #[trigger] ext_trans.map()[x] == ext(trans.map(), x) by { } }
//@loopend 0
    proof {
        let k = __k0 - 1;
        assert(movable(old_pos@[k]@, new_pos@[k]@, f_trans@[k].map(), n, np0, l));
        assert forall|r: int| 0 <= r < n implies #[trigger] coeffs.row_s(r) == lrow(npos@, n, np0, gf::<W>(r as u32)) by { assert(coeffs.row_s(r) =~= lrow(npos@, n, np0, gf::<W>(r as u32))); }
        assert forall|c: int| 0 <= c < np0 implies #[trigger] trans_mat.col_s(c) == units::<W>(trans.map(), np0, c) by { assert(trans_mat.col_s(c) =~= units::<W>(trans.map(), np0, c)); }
    }
//@closure 1
    |col: Array1<GF<W>>| -> (o: Vec<GF<W>>) requires col@.len() == np0 ensures o@.len() == np0, forall|x: int| 0 <= x < np0 ==> #[trigger] o@[x] == col@[ext(trans.map(), x)]
//@before let share = 
    proof {
        let id = context.id as int;
        assert(share_l@ =~= lrow(defpos::<W>(n, l), n, l + 1, gf::<W>(id as u32)));
        assert forall|r: int, c: int| 0 <= r < n && 0 <= c < np0 implies #[trigger] acc_coeffs.pile(r, c) == moves(new_pos@, f_trans@, n, np0, r, c) by { assert(acc_coeffs.pile(r, c) =~= moves(new_pos@, f_trans@, n, np0, r, c)); }
        assert forall|r: int, c: int| 0 <= r < n && 0 <= c < n implies #[trigger] acc_coeffs_n.pile(r, c) == stays(old_pos@, n, r, c) by { assert(acc_coeffs_n.pile(r, c) =~= stays(old_pos@, n, r, c)); }
    }
//@closure 2
    |rc: (usize, usize)| -> (o: GF<W>) requires rc.0 < n, rc.1 < np0 ensures o == share_at(moves(new_pos@, f_trans@, n, np0, rc.0 as int, rc.1 as int), n, l, context.id as int)
//@closure 3
    |rc: (usize, usize)| -> (o: GF<W>) requires rc.0 < n, rc.1 < n ensures o == share_at(stays(old_pos@, n, rc.0 as int, rc.1 as int), n, l, context.id as int)
//@end
}

// The random values as a matrix: secrets, then the rest for either kind of sharing; and the sharings of zero.
pub open spec fn pt<const W: u8>(x: Seq<GF<W>>, num: int, np: int, j: int) -> Seq<GF<W>> { Seq::new(np as nat, |c: int| cell(x, num, c, j)) }
pub open spec fn ptn<const W: u8>(x: Seq<GF<W>>, num: int, n: int, l: int, t: int, j: int) -> Seq<GF<W>> { Seq::new(n as nat, |c: int| if c < l { cell(x, num, c, j) } else { cell(x, num, c + t, j) }) }
// What goes to party r: its shares of the first sharings, then of the second.
pub open spec fn part<const W: u8>(tf: RandSharingTransform<W>, x: Seq<GF<W>>, z: Seq<GF<W>>, num: int, ctx: MPCContext<W>, r: int, j: int) -> GF<W> { add(dot(tf.a().row_s(r), pt(x, num, ctx.t + ctx.l, j)), cell(z, num, ctx.n + r, j)) }
pub open spec fn part_n<const W: u8>(tf: RandSharingTransform<W>, x: Seq<GF<W>>, z: Seq<GF<W>>, num: int, ctx: MPCContext<W>, r: int, j: int) -> GF<W> { add(dot(tf.b().row_s(r), ptn(x, num, ctx.n as int, ctx.l as int, ctx.t as int, j)), cell(z, num, r, j)) }
pub open spec fn both<const W: u8>(tf: RandSharingTransform<W>, x: Seq<GF<W>>, z: Seq<GF<W>>, num: int, ctx: MPCContext<W>, r: int) -> Seq<GF<W>> { Seq::new((2 * num) as nat, |j: int| if j < num { part(tf, x, z, num, ctx, r, j) } else { part_n(tf, x, z, num, ctx, r, j - num) }) }
pub open spec fn posts<const W: u8>(tf: RandSharingTransform<W>, x: Seq<GF<W>>, z: Seq<GF<W>>, num: int, ctx: MPCContext<W>, id: Seq<u8>) -> Seq<Sent> { Seq::new(ctx.n as nat, |i: int| Sent { to: Recipient::One(i as u16), id, data: enc(both(tf, x, z, num, ctx, i)) }) }
pub proof fn inside(i: int, a: int, j: int, w: int)
    requires 0 <= i < a, 0 <= j < w
    ensures 0 <= i * w + j < a * w
{ assert(i * w + j < a * w && 0 <= i * w) by (nonlinear_arith) requires 0 <= i < a, 0 <= j < w; }
//@fn src/protocol/core.rs | - | randtrans
//@ghost Tracked(log): Tracked<&mut Log>
//@ghost Ghost(m): Ghost<int>
//@addarg net\s*\.\s*send ==> Tracked(&mut *log)
//@rewrite ?\.chain\((\w+)\.row\((\w+)\)\) ==> .chain(\1.row(\2).it()) # a view of a row, by its elements
//@contract
    requires
        context.ok(), transform.ok(context.n as int, context.t + context.l), 0 <= m, randoms@.len() == (context.n + context.t) * m, zeros@.len() == 2 * context.n * m,
        randoms@.len() <= usize::MAX, zeros@.len() <= usize::MAX, 2 * m <= usize::MAX,
        gathers::<W>(net, id@, context.n as int, 2 * m),
    ensures
        final(log).sent == old(log).sent + posts(transform, randoms@, zeros@, m, context, id@),
        res.0.rows() == context.l, res.0.cols() == m, res.1.rows() == context.l, res.1.cols() == m,
        forall|j: int| 0 <= j < m ==> reads(#[trigger] res.0.col_s(j), column::<W>(net, id@, context.n as int, j), defpos::<W>(context.n as int, context.l as int), context.n as int, context.n as int),
        forall|j: int| 0 <= j < m ==> reads(#[trigger] res.1.col_s(j), column::<W>(net, id@, context.n as int, m + j), defpos::<W>(context.n as int, context.l as int), context.n as int, context.n as int),
//@entry
    let ghost (n, t, l, np) = (context.n as int, context.t as int, context.l as int, context.t + context.l);
    let ghost (x0, z0, s0, id0, tf) = (randoms@, zeros@, log.sent, id@, transform);
    let ghost pos = defpos::<W>(n, l);
    proof {
        cuts::<GF<W>>();
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(m, n + t);
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(m, 2 * n);
        assert((n + t) * m == m * l + m * t + (n - l) * m) by (nonlinear_arith);
        assert(2 * n * m == n * m + n * m) by (nonlinear_arith);
        assert(m * l == l * m && m * t == t * m && m * n == n * m && (l + t) * m == l * m + t * m) by (nonlinear_arith);
        assert(m * l >= 0 && m * t >= 0 && n * m >= 0 && (n - l) * m >= 0) by (nonlinear_arith) requires m >= 0, l >= 0, t >= 0, n >= l;
    }
//@after let rands_n = Array2
    proof {
        assert forall|i: int, j: int| 0 <= i < l && 0 <= j < m implies #[trigger] secrets.at(i, j) == cell(x0, m, i, j) by { inside(i, l, j, m); }
        assert forall|i: int, j: int| 0 <= i < t && 0 <= j < m implies #[trigger] rands.at(i, j) == cell(x0, m, l + i, j) by { inside(i, t, j, m); assert((l + i) * m == l * m + i * m) by (nonlinear_arith); }
        assert forall|i: int, j: int| 0 <= i < n - l && 0 <= j < m implies #[trigger] rands_n.at(i, j) == cell(x0, m, l + t + i, j) by { inside(i, n - l, j, m); assert((l + t + i) * m == (l + t) * m + i * m) by (nonlinear_arith); }
    }
//@after let points_n
    proof {
        assert forall|j: int| 0 <= j < m implies #[trigger] points.col_s(j) == pt(x0, m, np, j) by { assert(points.col_s(j) =~= pt(x0, m, np, j)); }
        assert forall|j: int| 0 <= j < m implies #[trigger] points_n.col_s(j) == ptn(x0, m, n, l, t, j) by { assert(points_n.col_s(j) =~= ptn(x0, m, n, l, t, j)); }
    }
//@after let zeros = Array2
    proof {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] zeros_n.at(i, j) == cell(z0, m, i, j) by { inside(i, n, j, m); }
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < m implies #[trigger] zeros.at(i, j) == cell(z0, m, n + i, j) by { inside(i, n, j, m); assert((n + i) * m == n * m + i * m) by (nonlinear_arith); }
    }
//@loop 0
    invariant
        __s0@.len() == n, n == context.n, n <= u16::MAX, forall|k: int| 0 <= k < n ==> #[trigger] __s0@[k] == k, 0 <= m,
        shares.rows() == n, shares.cols() == m, shares_n.rows() == n, shares_n.cols() == m,
        forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> #[trigger] shares.at(i, j) == part(tf, x0, z0, m, context, i, j),
        forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> #[trigger] shares_n.at(i, j) == part_n(tf, x0, z0, m, context, i, j),
        id@ == id0, log.sent == s0 + posts(tf, x0, z0, m, context, id0).take(__k0 as int),
//@preloop 0
    proof { assert(s0 + posts(tf, x0, z0, m, context, id0).take(0) =~= s0); }
//@after let data
    proof { assert(vals(data) =~= both(tf, x0, z0, m, context, __k0 - 1)); }
//@loopend 0
    proof {
        let (k, all) = (__k0 - 1, posts(tf, x0, z0, m, context, id0));
        assert(all.take(k + 1) =~= all.take(k).push(all[k]));
        assert(log.sent =~= s0 + all.take(k + 1));
    }
//@closure 0
    |d: Vec<u8>| -> (o: Vec<GF<W>>) requires encodes::<W>(d@, 2 * m) ensures o@ == dec::<W>(d@)
//@after let all_shares = network
    let ghost parts = Seq::new(n as nat, |i: int| dec::<W>(gather_of(net, id0, i)));
    proof { let all = posts(tf, x0, z0, m, context, id0); assert(all.take(n) =~= all); assert(vals(all_shares) == cat(parts)); cat_cells(parts, 2 * m); }
//@after let all_shares = Array2
    proof {
        assert forall|j: int| 0 <= j < 2 * m implies #[trigger] all_shares.col_s(j) == column::<W>(net, id0, n, j) by { assert(all_shares.col_s(j) =~= column::<W>(net, id0, n, j)); }
        assert(shp::<W>(n).skip(0) =~= shp::<W>(n));
        assert forall|mm: Array2<GF<W>>, k: int| takes(mm, shp::<W>(n).skip(0), pos) && 0 <= k < l implies #[trigger] mm.row_s(k) == reading(pos, n, k) by { assert(mm.row_s(k) =~= reading(pos, n, k)); }
    }
//@tail
    proof {
        assert forall|j: int| 0 <= j < m implies reads(#[trigger] __out.0.col_s(j), column::<W>(net, id0, n, j), pos, n, n) by { all_read(__out.0.col_s(j), column::<W>(net, id0, n, j), pos, n); }
        assert forall|j: int| 0 <= j < m implies reads(#[trigger] __out.1.col_s(j), column::<W>(net, id0, n, m + j), pos, n, n) by { assert(j + m == m + j); all_read(__out.1.col_s(j), column::<W>(net, id0, n, m + j), pos, n); }
    }
//@end
// Reading the value at pos[k] from all n shares.
pub open spec fn reading<const W: u8>(pos: Seq<GF<W>>, n: int, k: int) -> Seq<GF<W>> { Seq::new(n as nat, |i: int| lag(shp::<W>(n), i, pos[k])) }
proof fn all_read<const W: u8>(r: Seq<GF<W>>, shares: Seq<GF<W>>, pos: Seq<GF<W>>, n: int)
    requires fits(pos, n, n), shares.len() == n, r.len() == pos.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == dot(reading(pos, n, i), shares)
    ensures reads(r, shares, pos, n, n)
{
    let c = shp::<W>(n);
    assert(allp(pos, n).skip(pos.len() as int) =~= c);
    cut_distinct(allp(pos, n), pos.len() as int, n + pos.len());
    through_at(c, shares);
    assert forall|p: Seq<GF<W>>, i: int| p.len() == n && shares == #[trigger] shares_of(p, n) && 0 <= i < pos.len() implies #[trigger] r[i] == ev(p, pos[i]) by {
        let q = through(c, shares);
        lag_dot(reading(pos, n, i), c, pos[i], shares);
        assert forall|k: int| 0 <= k < p.len() implies ev(p, #[trigger] c[k]) == ev(q, c[k]) by { assert(shares_of(p, n)[k] == ev(p, c[k])); }
        agree(p, q, c, pos[i]);
    }
}
// Sums of products of polynomials.
pub open spec fn evs<const W: u8>(p: Seq<Seq<GF<W>>>, x: GF<W>) -> Seq<GF<W>> { Seq::new(p.len(), |c: int| ev(p[c], x)) }
proof fn combine<const W: u8>(p: Seq<Seq<GF<W>>>, a: Seq<Seq<GF<W>>>, z: Seq<GF<W>>, l: int, np: int, n: int) -> (q: Seq<GF<W>>)
    requires p.len() == a.len(), l >= 0, np >= 1, l + np <= n, z.len() == n, forall|c: int| 0 <= c < p.len() ==> (#[trigger] p[c]).len() == l + 1, forall|c: int| 0 <= c < a.len() ==> (#[trigger] a[c]).len() == np
    ensures q.len() == n, forall|x: GF<W>| #[trigger] ev(q, x) == add(dot(evs(p, x), evs(a, x)), ev(z, x))
    decreases p.len()
{
    if p.len() == 0 {
        assert forall|x: GF<W>| #[trigger] ev(z, x) == add(dot(evs(p, x), evs(a, x)), ev(z, x)) by { l_zero_add(ev(z, x)); }
        z
    } else {
        let (p1, a1) = (p.drop_last(), a.drop_last());
        assert forall|c: int| 0 <= c < p1.len() implies (#[trigger] p1[c]).len() == l + 1 by { assert(p[c].len() == l + 1); }
        assert forall|c: int| 0 <= c < a1.len() implies (#[trigger] a1[c]).len() == np by { assert(a[c].len() == np); }
        assert(p[p.len() - 1].len() == l + 1 && a[a.len() - 1].len() == np);
        let q1 = combine(p1, a1, z, l, np, n);
        let m = mulpoly(p.last(), a.last(), n);
        let q = padd(q1, m);
        assert forall|x: GF<W>| #[trigger] ev(q, x) == add(dot(evs(p, x), evs(a, x)), ev(z, x)) by {
            ev_padd(q1, m, x);
            assert(evs(p, x).drop_last() =~= evs(p1, x));
            assert(evs(a, x).drop_last() =~= evs(a1, x));
            let (d, e, f) = (dot(evs(p1, x), evs(a1, x)), ev(z, x), ev(m, x));
            a_add_assoc(d, e, f); a_add_comm(e, f); a_add_assoc(d, f, e);
        }
        q
    }
}
proof fn dot_pad<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>, k: nat)
    requires a.len() == b.len() + k
    ensures dot(a, b + zeros::<W>(k)) == dot(a.take(b.len() as int), b)
    decreases k
{
    if k == 0 { assert(b + zeros::<W>(0) =~= b); assert(a.take(b.len() as int) =~= a); }
    else {
        let a1 = a.drop_last();
        dot_pad(a1, b, (k - 1) as nat);
        assert((b + zeros::<W>(k)).drop_last() =~= b + zeros::<W>((k - 1) as nat));
        assert(a1.take(b.len() as int) =~= a.take(b.len() as int));
        l_mul_zero(a.last());
        a_add_zero(dot(a.take(b.len() as int), b));
    }
}
// The polynomial behind the parties' shares of one coefficient of all transforms.
pub open spec fn behind<const W: u8>(y: Seq<GF<W>>, n: int, l: int) -> Seq<GF<W>> { through(pts(defpos::<W>(n, l), n, l + 1), y + zeros::<W>((l + 1 - y.len()) as nat)) }
proof fn behind_is<const W: u8>(y: Seq<GF<W>>, n: int, l: int)
    requires y.len() <= l, 1 <= l < n, distinct(allp(defpos::<W>(n, l), n))
    ensures
        behind(y, n, l).len() == l + 1,
        forall|i: int| 0 <= i < n ==> #[trigger] share_at(y, n, l, i) == ev(behind(y, n, l), gf::<W>(i as u32)),
        forall|k: int| 0 <= k < y.len() ==> ev(behind(y, n, l), #[trigger] defpos::<W>(n, l)[k]) == y[k],
{
    let pos = defpos::<W>(n, l);
    let c = pts(pos, n, l + 1);
    let k = (l + 1 - y.len()) as nat;
    let z = y + zeros::<W>(k);
    cut_distinct(allp(pos, n), 0, l + 1);
    through_at(c, z);
    assert forall|i: int| 0 <= i < n implies #[trigger] share_at(y, n, l, i) == ev(behind(y, n, l), gf::<W>(i as u32)) by {
        let x = gf::<W>(i as u32);
        let row = lrow(pos, n, l + 1, x);
        lag_dot(row, c, x, z);
        dot_pad(row, y, k);
    }
    assert forall|k: int| 0 <= k < y.len() implies ev(behind(y, n, l), #[trigger] pos[k]) == y[k] by { assert(c[k] == pos[k]); }
}
// Slot k of what party r gets: the coefficients of transform k applied to the values in slot k. ys holds the coefficients
// (of all transforms) of share r, a the polynomials behind the random values, z the sharing of zero.
proof fn slot<const W: u8>(ys: Seq<Seq<GF<W>>>, a: Seq<Seq<GF<W>>>, z: Seq<GF<W>>, u: Seq<GF<W>>, o: Seq<GF<W>>, n: int, l: int, np: int, m: int, k: int)
    requires
        ys.len() == a.len(), 1 <= l < n, 0 <= m <= l, np >= 1, l + np <= n, distinct(allp(defpos::<W>(n, l), n)), z.len() == n, u.len() == n, 0 <= k < m,
        forall|c: int| 0 <= c < ys.len() ==> (#[trigger] ys[c]).len() == m, forall|c: int| 0 <= c < a.len() ==> (#[trigger] a[c]).len() == np,
        ev(z, defpos::<W>(n, l)[k]) == zero::<W>(),
        forall|i: int| 0 <= i < n ==> #[trigger] u[i] == add(dot(Seq::new(ys.len(), |c: int| share_at(ys[c], n, l, i)), evs(a, gf::<W>(i as u32))), ev(z, gf::<W>(i as u32))),
        reads(o, u, defpos::<W>(n, l), n, n),
    ensures o[k] == dot(Seq::new(ys.len(), |c: int| ys[c][k]), evs(a, defpos::<W>(n, l)[k]))
{
    let p = Seq::new(ys.len(), |c: int| behind(ys[c], n, l));
    let pos = defpos::<W>(n, l);
    assert forall|c: int| 0 <= c < p.len() implies (#[trigger] p[c]).len() == l + 1 by { behind_is(ys[c], n, l); }
    let q = combine(p, a, z, l, np, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] u[i] == shares_of(q, n)[i] by {
        let s = Seq::new(ys.len(), |c: int| share_at(ys[c], n, l, i));
        assert forall|c: int| 0 <= c < ys.len() implies s[c] == evs(p, gf::<W>(i as u32))[c] by { behind_is(ys[c], n, l); assert(share_at(ys[c], n, l, i) == ev(p[c], gf::<W>(i as u32))); }
        assert(s =~= evs(p, gf::<W>(i as u32)));
    }
    assert(u =~= shares_of(q, n));
    assert(o[k] == ev(q, pos[k]));
    let s = Seq::new(ys.len(), |c: int| ys[c][k]);
    assert forall|c: int| 0 <= c < ys.len() implies s[c] == evs(p, pos[k])[c] by { behind_is(ys[c], n, l); assert(ys[c].len() == m); assert(ev(behind(ys[c], n, l), pos[k]) == ys[c][k]); }
    assert(s =~= evs(p, pos[k]));
    a_add_zero(dot(s, evs(a, pos[k])));
}
// Moving by f: the sum over the coefficients picks the value f says.
proof fn dot_units<const W: u8>(s: GF<W>, e: int, y: Seq<GF<W>>)
    ensures dot(Seq::new(y.len(), |c: int| mul(s, unit::<W>(e, c))), y) == (if 0 <= e < y.len() { mul(s, y[e]) } else { zero::<W>() })
    decreases y.len()
{
    let v = Seq::new(y.len(), |c: int| mul(s, unit::<W>(e, c)));
    if y.len() > 0 {
        let y1 = y.drop_last();
        dot_units(s, e, y1);
        assert(v.drop_last() =~= Seq::new(y1.len(), |c: int| mul(s, unit::<W>(e, c))));
        let b = y.last();
        if e == y.len() - 1 { a_mul_one(s); l_zero_add(mul(s, b)); }
        else { l_mul_zero(s); l_mul_zero(b); a_add_zero(dot(v.drop_last(), y1)); }
    }
}
proof fn dot_padd<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>, y: Seq<GF<W>>)
    requires a.len() == y.len(), b.len() == y.len()
    ensures dot(paddv(a, b), y) == add(dot(a, y), dot(b, y))
    decreases y.len()
{
    if y.len() == 0 { a_add_zero(zero::<W>()); }
    else {
        let (a1, b1, y1) = (a.drop_last(), b.drop_last(), y.drop_last());
        dot_padd(a1, b1, y1);
        assert(paddv(a, b).drop_last() =~= paddv(a1, b1));
        l_dist2(a.last(), b.last(), y.last());
        l_swap(dot(a1, y1), dot(b1, y1), mul(a.last(), y.last()), mul(b.last(), y.last()));
    }
}
proof fn dot_zeros<const W: u8>(y: Seq<GF<W>>)
    ensures dot(Seq::new(y.len(), |c: int| zero::<W>()), y) == zero::<W>()
    decreases y.len()
{
    if y.len() > 0 {
        dot_zeros(y.drop_last());
        assert(Seq::new(y.len(), |c: int| zero::<W>()).drop_last() =~= Seq::new(y.drop_last().len(), |c: int| zero::<W>()));
        l_mul_zero(y.last()); a_add_zero(zero::<W>());
    }
}
proof fn moved_sum<const W: u8>(row: Seq<GF<W>>, f: Seq<usize>, y: Seq<GF<W>>, k: int)
    requires row.len() == y.len(), 0 <= k <= row.len(), forall|x: int| 0 <= x < row.len() ==> 0 <= #[trigger] ext(f, x) < y.len()
    ensures dot(Seq::new(y.len(), |c: int| dot(row.take(k), units::<W>(f, row.len() as int, c).take(k))), y) == dot(row.take(k), Seq::new(row.len(), |x: int| y[ext(f, x)]).take(k))
    decreases k
{
    let np = row.len() as int;
    let g = Seq::new(row.len(), |x: int| y[ext(f, x)]);
    let whole = Seq::new(y.len(), |c: int| dot(row.take(k), units::<W>(f, np, c).take(k)));
    if k == 0 {
        assert(whole =~= Seq::new(y.len(), |c: int| zero::<W>()));
        dot_zeros(y);
    } else {
        moved_sum(row, f, y, k - 1);
        let a = Seq::new(y.len(), |c: int| dot(row.take(k - 1), units::<W>(f, np, c).take(k - 1)));
        let e = ext(f, k - 1);
        let b = Seq::new(y.len(), |c: int| mul(row[k - 1], unit::<W>(e, c)));
        assert(row.take(k).drop_last() =~= row.take(k - 1));
        assert(g.take(k).drop_last() =~= g.take(k - 1));
        assert forall|c: int| 0 <= c < y.len() implies #[trigger] whole[c] == paddv(a, b)[c] by { assert(units::<W>(f, np, c).take(k).drop_last() =~= units::<W>(f, np, c).take(k - 1)); }
        assert(whole =~= paddv(a, b));
        dot_padd(a, b, y);
        dot_units(row[k - 1], e, y);
    }
}
// One party's run with its inputs, and everything it sends for column j.
pub open spec fn follows<const W: u8>(tf: RandSharingTransform<W>, id: int, old: Seq<Vec<GF<W>>>, new: Seq<Vec<GF<W>>>, f: Seq<Combination>, n: int, np: int, l: int) -> bool {
    tf.ok(n, np)
    && (forall|r: int, c: int| 0 <= r < n && 0 <= c < np ==> #[trigger] tf.a().at(r, c) == share_at(moves(new, f, n, np, r, c), n, l, id))
    && (forall|r: int, c: int| 0 <= r < n && 0 <= c < n ==> #[trigger] tf.b().at(r, c) == share_at(stays(old, n, r, c), n, l, id))
}
// Composition: column j of a run at n parties which follow the contracts above. xs are the polynomials behind the random values
// (n + t of them), zs those behind the sharings of zero, outs and outs_n what the parties get. Transform k gives shares of
// polynomials p and q: q has the secrets in slot k at the old positions, p has their selection at the new ones.
pub proof fn paired<const W: u8>(
    tfs: Seq<RandSharingTransform<W>>, ctxs: Seq<MPCContext<W>>, x: Seq<Seq<GF<W>>>, z: Seq<Seq<GF<W>>>, xs: Seq<Seq<GF<W>>>, zs: Seq<Seq<GF<W>>>, outs: Seq<Seq<GF<W>>>, outs_n: Seq<Seq<GF<W>>>,
    old: Seq<Vec<GF<W>>>, new: Seq<Vec<GF<W>>>, f: Seq<Combination>, num: int, j: int, n: int, t: int, l: int, k: int) -> (pq: (Seq<GF<W>>, Seq<GF<W>>))
    requires
        1 <= t, 1 <= l, t + 2 * l <= n, n <= u16::MAX, fits(defpos::<W>(n, l), n, n), 0 <= k < old.len() <= l, old.len() == new.len() == f.len(), 0 <= j < num,
        movable(old[k]@, new[k]@, f[k].map(), n, t + l, l),
        tfs.len() == n, ctxs.len() == n, x.len() == n, z.len() == n, xs.len() == n + t, zs.len() == 2 * n, outs.len() == n, outs_n.len() == n,
        forall|i: int| 0 <= i < n ==> follows(#[trigger] tfs[i], i, old, new, f, n, t + l, l) && ctxs[i].n == n && ctxs[i].t == t && ctxs[i].l == l,
        // random values of the protocol's degree, and sharings of zero
        forall|c: int| 0 <= c < n + t ==> (#[trigger] xs[c]).len() == t + l,
        forall|c: int| 0 <= c < 2 * n ==> (#[trigger] zs[c]).len() == n && ev(zs[c], defpos::<W>(n, l)[k]) == zero::<W>(),
        forall|i: int, c: int| 0 <= i < n && 0 <= c < n + t ==> #[trigger] cell(x[i], num, c, j) == ev(xs[c], gf::<W>(i as u32)),
        forall|i: int, c: int| 0 <= i < n && 0 <= c < 2 * n ==> #[trigger] cell(z[i], num, c, j) == ev(zs[c], gf::<W>(i as u32)),
        // party r reads column r of what the parties send
        forall|r: int| 0 <= r < n ==> reads(#[trigger] outs[r], Seq::new(n as nat, |i: int| part(tfs[i], x[i], z[i], num, ctxs[i], r, j)), defpos::<W>(n, l), n, n),
        forall|r: int| 0 <= r < n ==> reads(#[trigger] outs_n[r], Seq::new(n as nat, |i: int| part_n(tfs[i], x[i], z[i], num, ctxs[i], r, j)), defpos::<W>(n, l), n, n),
    ensures
        pq.0.len() == t + l, pq.1.len() == n,
        forall|r: int| 0 <= r < n ==> (#[trigger] outs[r])[k] == shares_of(pq.0, n)[r], forall|r: int| 0 <= r < n ==> (#[trigger] outs_n[r])[k] == shares_of(pq.1, n)[r],
        forall|c: int| 0 <= c < old[k]@.len() ==> ev(pq.1, #[trigger] old[k]@[c]) == ev(xs[c], defpos::<W>(n, l)[k]),
        forall|i: int| 0 <= i < new[k]@.len() ==> ev(pq.0, #[trigger] new[k]@[i]) == ev(pq.1, old[k]@[f[k].map()[i] as int]),
{
    let (np, pos, m) = (t + l, defpos::<W>(n, l), old.len() as int);
    let a = xs.take(np);
    let an = Seq::new(n as nat, |c: int| if c < l { xs[c] } else { xs[c + t] });
    let (y, yn) = (evs(a, pos[k]), evs(an, pos[k]));
    let fm = f[k].map();
    let g = Seq::new(np as nat, |s: int| y[ext(fm, s)]);
    let (cp, cq) = (pts(new[k]@, n, np), pts(old[k]@, n, n));
    let (p, q) = (through(cp, g), through(cq, yn));
    cut_distinct(allp(new[k]@, n), 0, np);
    cut_distinct(allp(old[k]@, n), 0, n);
    through_at(cp, g);
    through_at(cq, yn);
    assert forall|s: int| 0 <= s < np implies 0 <= #[trigger] ext(fm, s) < np by { }
    assert forall|r: int| 0 <= r < n implies (#[trigger] outs[r])[k] == shares_of(p, n)[r] by {
        let ys = Seq::new(np as nat, |c: int| moves(new, f, n, np, r, c));
        let u = Seq::new(n as nat, |i: int| part(tfs[i], x[i], z[i], num, ctxs[i], r, j));
        let zr = zs[n + r];
        assert forall|i: int| 0 <= i < n implies #[trigger] u[i] == add(dot(Seq::new(ys.len(), |c: int| share_at(ys[c], n, l, i)), evs(a, gf::<W>(i as u32))), ev(zr, gf::<W>(i as u32))) by {
            assert(follows(tfs[i], i, old, new, f, n, np, l));
            assert(tfs[i].a().row_s(r) =~= Seq::new(ys.len(), |c: int| share_at(ys[c], n, l, i)));
            assert(pt(x[i], num, np, j) =~= evs(a, gf::<W>(i as u32)));
            assert(cell(z[i], num, n + r, j) == ev(zr, gf::<W>(i as u32)));
        }
        slot(ys, a, zr, u, outs[r], n, l, np, m, k);
        let row = lrow(new[k]@, n, np, gf::<W>(r as u32));
        moved_sum(row, fm, y, np);
        assert(row.take(np) =~= row);
        assert(g.take(np) =~= g);
        assert(Seq::new(ys.len(), |c: int| ys[c][k]) =~= Seq::new(y.len(), |c: int| dot(row.take(np), units::<W>(fm, np, c).take(np)))) by {
            assert forall|c: int| 0 <= c < np implies #[trigger] ys[c][k] == dot(row.take(np), units::<W>(fm, np, c).take(np)) by { assert(units::<W>(fm, np, c).take(np) =~= units::<W>(fm, np, c)); }
        }
        lag_dot(row, cp, gf::<W>(r as u32), g);
    }
    assert forall|r: int| 0 <= r < n implies (#[trigger] outs_n[r])[k] == shares_of(q, n)[r] by {
        let ys = Seq::new(n as nat, |c: int| stays(old, n, r, c));
        let u = Seq::new(n as nat, |i: int| part_n(tfs[i], x[i], z[i], num, ctxs[i], r, j));
        let zr = zs[r];
        assert forall|i: int| 0 <= i < n implies #[trigger] u[i] == add(dot(Seq::new(ys.len(), |c: int| share_at(ys[c], n, l, i)), evs(an, gf::<W>(i as u32))), ev(zr, gf::<W>(i as u32))) by {
            assert(follows(tfs[i], i, old, new, f, n, np, l));
            assert(tfs[i].b().row_s(r) =~= Seq::new(ys.len(), |c: int| share_at(ys[c], n, l, i)));
            assert(ptn(x[i], num, n, l, t, j) =~= evs(an, gf::<W>(i as u32)));
            assert(cell(z[i], num, r, j) == ev(zr, gf::<W>(i as u32)));
        }
        slot(ys, an, zr, u, outs_n[r], n, l, np, m, k);
        let row = lrow(old[k]@, n, n, gf::<W>(r as u32));
        assert(Seq::new(ys.len(), |c: int| ys[c][k]) =~= row);
        lag_dot(row, cq, gf::<W>(r as u32), yn);
    }
    assert forall|c: int| 0 <= c < old[k]@.len() implies ev(q, #[trigger] old[k]@[c]) == ev(xs[c], pos[k]) by { assert(cq[c] == old[k]@[c]); assert(ev(q, cq[c]) == yn[c]); }
    assert forall|i: int| 0 <= i < new[k]@.len() implies ev(p, #[trigger] new[k]@[i]) == ev(q, old[k]@[fm[i] as int]) by {
        assert(cp[i] == new[k]@[i]);
        assert(ev(p, cp[i]) == g[i]);
        assert(fm[i] < old[k]@.len());
        assert(ev(q, old[k]@[fm[i] as int]) == ev(xs[fm[i] as int], pos[k]));
    }
    (p, q)
}
impl<const W: u8> RandSharingTransform<W> {
//@stub transforms.vrs | impl<const W: u8> RandSharingTransform<W> | new |  | r == rst_of\(.*?\*context\),
    Self::new(old_pos, new_pos, f_trans, context)
//@end
}
//@stub transforms.vrs | - | randtrans | gathers::<W>(net, id@, context.n as int, 2 * m) | r == rnd_of\([^\n]*
    let Tracked(mut log) = no_log();
    randtrans(id, randoms, zeros, transform, context, net, Tracked(&mut log), Ghost(m)).await
//@end
}
