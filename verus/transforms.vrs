// Moving all shares of a circuit (C27): Transforms in src/protocol/garble.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include mpc.vrs
//@include nd3.vrs
//@include tab.vrs
//@include vd.vrs
//@include tasks.vrs
//@include chunks.vrs
//@note SharingTransform::new and trans (unit trans, C21), RandSharingTransform::new and randtrans (unit randtrans, C22): results as functions of what they are given and what arrives, with the shapes of their contracts; that what arrives is well-formed is assumed. Clones equal what they are made of.
#[verifier::external_body]
pub struct Combination { x: u8 }
impl Combination { pub uninterp spec fn map(&self) -> Seq<usize>; }
#[verifier::external_body]
pub struct SharingTransform<const W: u8> { x: u8 }
impl<const W: u8> SharingTransform<W> {
    pub uninterp spec fn old(&self) -> Seq<GF<W>>;
    pub uninterp spec fn new_(&self) -> Seq<GF<W>>;
    pub uninterp spec fn f(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn new(old_pos: Vec<GF<W>>, new_pos: Vec<GF<W>>, f: Combination) -> (r: Self) ensures r.old() == old_pos@, r.new_() == new_pos@, r.f() == f.map() { unimplemented!() }
}
impl<const W: u8> Clone for SharingTransform<W> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn movable<const W: u8>(old: Seq<GF<W>>, new: Seq<GF<W>>, f: Seq<usize>, n: int, np: int, l: int) -> bool {
    fits(old, n, n) && fits(new, n, np) && old.len() <= l && new.len() <= l && f.len() == new.len() && forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) < old.len()
}
#[verifier::external_body]
pub struct RandSharingTransform<const W: u8> { x: u8 }
pub uninterp spec fn rst_of<const W: u8>(old: Seq<Seq<GF<W>>>, new: Seq<Seq<GF<W>>>, f: Seq<Seq<usize>>, ctx: MPCContext<W>) -> RandSharingTransform<W>;
pub open spec fn views<const W: u8>(s: Seq<Vec<GF<W>>>) -> Seq<Seq<GF<W>>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn maps(s: Seq<Combination>) -> Seq<Seq<usize>> { Seq::new(s.len(), |i: int| s[i].map()) }
impl<const W: u8> RandSharingTransform<W> {
    // the matrices have the sizes of n shares of np and of n values
    pub uninterp spec fn ok(&self, n: int, np: int) -> bool;
    #[verifier::external_body]
    pub fn new(old_pos: &Vec<Vec<GF<W>>>, new_pos: &Vec<Vec<GF<W>>>, f_trans: &Vec<Combination>, context: &MPCContext<W>) -> (r: Self)
        requires
            context.ok(), old_pos@.len() == new_pos@.len(), f_trans@.len() == new_pos@.len(), f_trans@.len() <= context.l, context.l < context.n,
            forall|k: int| 0 <= k < old_pos@.len() ==> movable((#[trigger] old_pos@[k])@, new_pos@[k]@, f_trans@[k].map(), context.n as int, context.t + context.l, context.l as int),
        ensures r == rst_of(views(old_pos@), views(new_pos@), maps(f_trans@), *context), r.ok(context.n as int, context.t + context.l)
    { unimplemented!() }
}
impl<const W: u8> Clone for RandSharingTransform<W> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn rnd_of<const W: u8>(net: Network, id: Seq<u8>, rs: Seq<GF<W>>, zs: Seq<GF<W>>, tf: RandSharingTransform<W>, ctx: MPCContext<W>) -> (Array2<GF<W>>, Array2<GF<W>>);
pub uninterp spec fn trans_of<const W: u8>(net: Network, id: Seq<u8>, x: Seq<GF<W>>, r: Seq<GF<W>>, rn: Seq<GF<W>>, tf: SharingTransform<W>, leader: Option<u16>, ctx: MPCContext<W>) -> Seq<GF<W>>;
// so many times the randomness of one transform
pub open spec fn times(len: int, w: int, m: int) -> bool { len == w * m }
pub mod core_mod {
    use super::*;
    #[verifier::external_body]
    pub async fn randtrans<const W: u8>(id: ProtocolID, randoms: VecDeque<GF<W>>, zeros: VecDeque<GF<W>>, transform: RandSharingTransform<W>, context: MPCContext<W>, net: Network, Ghost(m): Ghost<int>) -> (r: (Array2<GF<W>>, Array2<GF<W>>))
        requires context.ok(), transform.ok(context.n as int, context.t + context.l), 0 <= m, randoms@.len() == (context.n + context.t) * m, zeros@.len() == 2 * context.n * m, randoms@.len() <= usize::MAX, zeros@.len() <= usize::MAX, 2 * m <= usize::MAX
        ensures
            r == rnd_of(net, id@, randoms@, zeros@, transform, context),
            r.0.rows() == context.l, r.0.cols() == m, r.1.rows() == context.l, r.1.cols() == m,
    { unimplemented!() }
    #[verifier::external_body]
    pub async fn trans<const W: u8>(id: ProtocolID, vx: Array1<GF<W>>, random: Array1<GF<W>>, random_n: Array1<GF<W>>, transform: SharingTransform<W>, leader: Option<PartyID>, context: MPCContext<W>, net: Network) -> (r: Array1<GF<W>>)
        requires context.ok(), movable(transform.old(), transform.new_(), transform.f(), context.n as int, context.t + context.l, context.l as int), random@.len() == vx@.len(), random_n@.len() == vx@.len(), leader matches Some(p) ==> p < context.n
        ensures r@ == trans_of(net, id@, vx@, random@, random_n@, transform, leader, context), r@.len() == vx@.len()
    { unimplemented!() }
}
impl<'a, T: Clone> It<&'a T> {
    #[verifier::external_body]
    pub fn copies(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *self@[i] == #[trigger] r@[i] { unimplemented!() }
}
impl Clone for Combination { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn chunks(self, k: usize) -> (r: It<Vec<T>>)
        requires k > 0
        ensures r@.len() == nblk(self@.len() as int, k as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == blk(self@, k as int, i)
    { unimplemented!() }
}
impl<A, B> It<(A, B)> {
    #[verifier::external_body]
    pub fn unzip(self) -> (r: (Vec<A>, Vec<B>)) ensures r.0@ == firsts(self@), r.1@ == seconds(self@) { unimplemented!() }
}
pub open spec fn firsts<A, B>(s: Seq<(A, B)>) -> Seq<A> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn seconds<A, B>(s: Seq<(A, B)>) -> Seq<B> { Seq::new(s.len(), |i: int| s[i].1) }
impl<const W: u8> Array2<GF<W>> {
    #[verifier::external_body]
    pub fn zeros(s: (usize, usize)) -> (r: Self) ensures r.rows() == s.0, r.cols() == s.1, forall|i: int, j: int| #[trigger] r.at(i, j) == zero::<W>() { unimplemented!() }
}
#[verifier::external_body]
pub fn cmp_min(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { unimplemented!() }
pub type Tf<const W: u8> = ((Vec<GF<W>>, Vec<GF<W>>), Combination);
pub open spec fn movables<const W: u8>(tf: Seq<Tf<W>>, n: int, np: int, l: int) -> bool { forall|i: int| 0 <= i < tf.len() ==> movable((#[trigger] tf[i]).0.0@, tf[i].0.1@, tf[i].1.map(), n, np, l) }
pub open spec fn olds<const W: u8>(tf: Seq<Tf<W>>) -> Seq<Seq<GF<W>>> { Seq::new(tf.len(), |i: int| tf[i].0.0@) }
pub open spec fn news<const W: u8>(tf: Seq<Tf<W>>) -> Seq<Seq<GF<W>>> { Seq::new(tf.len(), |i: int| tf[i].0.1@) }
pub open spec fn fs<const W: u8>(tf: Seq<Tf<W>>) -> Seq<Seq<usize>> { Seq::new(tf.len(), |i: int| tf[i].1.map()) }
pub open spec fn is_move<const W: u8>(s: SharingTransform<W>, t: Tf<W>) -> bool { s.old() == t.0.0@ && s.new_() == t.0.1@ && s.f() == t.1.map() }
pub open spec fn announced(m: int, k: int) -> bool { m >= k }
// Piece k of the randomness.
pub open spec fn cut<T>(s: Seq<T>, w: int, k: int) -> Seq<T> { s.subrange(w * k, w * (k + 1)) }
pub open spec fn piece<const W: u8>(net: Network, id: Seq<u8>, m: int, rs: Seq<GF<W>>, zs: Seq<GF<W>>, rt: Seq<RandSharingTransform<W>>, ctx: MPCContext<W>, reps: int, k: int) -> (Array2<GF<W>>, Array2<GF<W>>) {
    rnd_of(net, child(id, m, k), cut(rs, (ctx.n + ctx.t) * reps, k), cut(zs, (2 * ctx.n) * reps, k), rt[k], ctx)
}
proof fn in_piece(k: int, l: int, i: int)
    requires 0 <= k, 0 < l, k * l <= i < k * l + l
    ensures i / l == k, i % l == i - k * l
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i, l, k, i - k * l); }

//@item src/protocol/garble.rs | struct Transforms<
impl<const W: u8> Transforms<W> {
    pub closed spec fn rt(&self) -> Seq<RandSharingTransform<W>> { self.rtrans@ }
    pub closed spec fn tr(&self) -> Seq<SharingTransform<W>> { self.trans@ }
    pub open spec fn ok(&self, n: int, np: int, l: int) -> bool {
        &&& self.rt().len() == nblk(self.tr().len() as int, l)
        &&& forall|k: int| 0 <= k < self.rt().len() ==> (#[trigger] self.rt()[k]).ok(n, np)
        &&& forall|i: int| 0 <= i < self.tr().len() ==> movable((#[trigger] self.tr()[i]).old(), self.tr()[i].new_(), self.tr()[i].f(), n, np, l)
    }
//@fn src/protocol/garble.rs | ^impl<const W: u8> Transforms<W>$ | new
//@rewrite ?\.cloned\(\) ==> .copies() # clones equal what they are made of
//@contract
    requires context.ok(), 1 <= context.l < context.n, movables(tf@, context.n as int, context.t + context.l, context.l as int)
    ensures
        res.ok(context.n as int, context.t + context.l, context.l as int), res.tr().len() == tf@.len(), forall|i: int| 0 <= i < tf@.len() ==> is_move(#[trigger] res.tr()[i], tf@[i]),
        forall|k: int| 0 <= k < res.rt().len() ==> #[trigger] res.rt()[k] == rst_of(olds(blk(tf@, context.l as int, k)), news(blk(tf@, context.l as int, k)), fs(blk(tf@, context.l as int, k)), *context),
//@entry
    let ghost (t0, l) = (tf@, context.l as int);
//@closure 0
    |x: ((Vec<GF<W>>, Vec<GF<W>>), Combination)| -> (o: SharingTransform<W>) ensures is_move(o, x)
//@closure 1
    |chunk: Vec<((Vec<GF<W>>, Vec<GF<W>>), Combination)>| -> (o: RandSharingTransform<W>)
        requires chunk@.len() <= l, movables(chunk@, context.n as int, context.t + context.l, l)
        ensures o == rst_of(olds(chunk@), news(chunk@), fs(chunk@), *context), o.ok(context.n as int, context.t + context.l)
//@before RandSharingTransform::new
    proof {
        assert(views(opos@) =~= olds(chunk@) && views(npos@) =~= news(chunk@) && maps(f@) =~= fs(chunk@));
        assert forall|k: int| 0 <= k < opos@.len() implies movable((#[trigger] opos@[k])@, npos@[k]@, f@[k].map(), context.n as int, context.t + context.l, context.l as int) by { assert(opos@[k] == chunk@[k].0.0); }
    }
//@before let rtrans =
    proof {
        assert forall|k: int| 0 <= k < nblk(t0.len() as int, l) implies (#[trigger] blk(t0, l, k)).len() <= l && movables(blk(t0, l, k), context.n as int, context.t + context.l, l) by {
            blk_len(t0.len() as int, l, k);
            assert((k + 1) * l == k * l + l) by (nonlinear_arith);
            let b = blk(t0, l, k);
            assert forall|i: int| 0 <= i < b.len() implies movable((#[trigger] b[i]).0.0@, b[i].0.1@, b[i].1.map(), context.n as int, context.t + context.l, l) by { assert(b[i] == t0[k * l + i]); }
        }
    }
//@end
//@fn src/protocol/garble.rs | ^impl<const W: u8> Transforms<W>$ | gen_rand_shares
//@rewrite \bcore::randtrans\( ==> core_mod::randtrans( # a module of the repository, not the library's core
//@rewrite ?std::cmp::min\( ==> cmp_min( # std::cmp::min as a shim
//@addarg core_mod::randtrans ==> Ghost(reps as int)
//@contract
    requires
        context.ok(), self.ok(context.n as int, context.t + context.l, context.l as int), 1 <= context.l, 2 * reps <= usize::MAX, self.tr().len() <= usize::MAX,
        randoms@.len() == self.rt().len() * ((context.n + context.t) * reps), zeros@.len() == self.rt().len() * ((2 * context.n) * reps), randoms@.len() <= usize::MAX, zeros@.len() <= usize::MAX,
        (context.n + context.t) * reps <= usize::MAX, (2 * context.n) * reps <= usize::MAX,
    ensures
        res.0.rows() == self.tr().len(), res.0.cols() == reps, res.1.rows() == self.tr().len(), res.1.cols() == reps,
        exists|m: int| #[trigger] announced(m, self.rt().len() as int) && forall|i: int, j: int| 0 <= i < self.tr().len() && 0 <= j < reps ==>
            #[trigger] res.0.at(i, j) == piece(net, id@, m, randoms@, zeros@, self.rt(), context, reps as int, i / (context.l as int)).0.at(i % (context.l as int), j)
            && res.1.at(i, j) == piece(net, id@, m, randoms@, zeros@, self.rt(), context, reps as int, i / (context.l as int)).1.at(i % (context.l as int), j),
//@entry
    let ghost (rs, zs, rt, l, id0, net0, ctx, r0) = (randoms@, zeros@, self.rt(), context.l as int, id@, net, context, reps as int);
    let ghost (pr, pz) = ((context.n + context.t) * reps, (2 * context.n) * reps);
    let ghost num = self.tr().len() as int;
    broadcast use vstd::arithmetic::mul::lemma_mul_is_commutative;
    let ghost mut m = 0int;
    proof {
        cuts::<GF<W>>();
        let n = context.n as int;
        assert(r0 * n * 2 == pz && n * r0 * 2 == pz && 2 * r0 * n == pz && r0 * 2 * n == pz && n * 2 * r0 == pz && n * r0 <= pz && r0 * n <= pz && r0 * 2 <= usize::MAX) by (nonlinear_arith) requires pz == (2 * n) * r0, 0 <= n, 0 <= r0, 2 * r0 <= usize::MAX;
    }
//@preloop 0
    proof { m = id_gen.of().1; assert(announced(m, rt.len() as int)); assert(pr * 0 == 0 && pz * 0 == 0); }
//@loop 0
    invariant
        context == ctx, context.ok(), self.ok(context.n as int, context.t + context.l, context.l as int), rt == self.rt(), net == net0, l == context.l, reps == r0, 2 * r0 <= usize::MAX, pr == (context.n + context.t) * r0, pz == (2 * context.n) * r0, pr <= usize::MAX, pz <= usize::MAX,
        num_rands_per_rtrans == pr, num_zeros_per_rtrans == pz,
        rs.len() == rt.len() * pr, zs.len() == rt.len() * pz,
        id_gen.of() == (id0, m, __k0 as int), announced(m, rt.len() as int),
        __s0@.len() == rt.len(), forall|k: int| 0 <= k < rt.len() ==> #[trigger] __s0@[k] == rt[k],
        vd(randoms) == rs.skip(pr * __k0), vd(zeros) == zs.skip(pz * __k0),
        hv(handles).len() == __k0, forall|k: int| 0 <= k < __k0 ==> made(#[trigger] hv(handles)[k], net0, id0, m, rs, zs, rt, ctx, r0, k),
//@loopstart 0
    proof {
        let k = __k0 as int;
        assert(pr * (k + 1) == pr * k + pr && pz * (k + 1) == pz * k + pz) by (nonlinear_arith);
        assert(pr * (k + 1) <= rt.len() * pr && pz * (k + 1) <= rt.len() * pz && 0 <= pr * k && 0 <= pz * k) by (nonlinear_arith) requires 0 <= k < rt.len(), 0 <= pr, 0 <= pz;
        assert(rs.skip(pr * k).take(pr) =~= cut(rs, pr, k) && zs.skip(pz * k).take(pz) =~= cut(zs, pz, k));
        assert(rs.skip(pr * k).skip(pr) =~= rs.skip(pr * (k + 1)) && zs.skip(pz * k).skip(pz) =~= zs.skip(pz * (k + 1)));
        assert((2 * context.n) * reps == 2 * context.n * reps) by (nonlinear_arith);
    }
//@loop 1
    invariant
        l == context.l, 1 <= l, rt == self.rt(), self.ok(context.n as int, context.t + context.l, context.l as int), num == self.tr().len(), num <= usize::MAX, reps == r0, ctx == context,
        __s1@.len() == rt.len(), forall|k: int| 0 <= k < rt.len() ==> (#[trigger] __s1@[k]).0 == k && made(__s1@[k].1, net0, id0, m, rs, zs, rt, ctx, r0, k),
        rand.cols() == reps, rand_n.cols() == reps, rand.rows() == (if __k1 < rt.len() { __k1 * l } else { num }), rand_n.rows() == rand.rows(),
        forall|i: int, j: int| 0 <= i < rand.rows() && 0 <= j < reps ==>
            #[trigger] rand.at(i, j) == piece(net0, id0, m, rs, zs, rt, ctx, r0, i / l).0.at(i % l, j),
        forall|i: int, j: int| 0 <= i < rand.rows() && 0 <= j < reps ==>
            #[trigger] rand_n.at(i, j) == piece(net0, id0, m, rs, zs, rt, ctx, r0, i / l).1.at(i % l, j),
//@loopstart 1
    proof {
        let k = __k1 as int;
        blk_len(num, l, k);
        assert((k + 1) * l == k * l + l && l * k == k * l && l * (k + 1) == k * l + l) by (nonlinear_arith);
        assert forall|i: int| k * l <= i < k * l + l implies #[trigger] (i / l) == k && i % l == i - k * l by { in_piece(k, l, i); }
        assert forall|i: int| k * l <= i < k * l + l implies i / l == k && #[trigger] (i % l) == i - k * l by { in_piece(k, l, i); }
    }
//@end
//@fn src/protocol/garble.rs | ^impl<const W: u8> Transforms<W>$ | transform
//@rewrite \bcore::trans\( ==> core_mod::trans( # a module of the repository, not the library's core
//@contract
    requires
        context.ok(), self.ok(context.n as int, context.t + context.l, context.l as int), inp.rows() == self.tr().len(), rand.rows() == inp.rows(), rand_n.rows() == inp.rows(), rand.cols() == inp.cols(), rand_n.cols() == inp.cols(),
        inp.rows() * inp.cols() <= usize::MAX, inp.rows() <= usize::MAX,
    ensures
        res.rows() == inp.rows(), res.cols() == inp.cols(),
        exists|m: int| #[trigger] announced(m, self.tr().len() as int) && forall|i: int, j: int| 0 <= i < res.rows() && 0 <= j < res.cols() ==> #[trigger] res.at(i, j) == row_moved(net, id@, m, inp, rand, rand_n, self.tr(), context, i)[j],
//@entry
    let ghost (id0, net0, tr, c) = (id@, net, self.tr(), inp.cols() as int);
    let ghost mut m = 0int;
    let ghost rows0 = |m: int, k: int| Seq::new(k as nat, |i: int| row_moved(net, id@, m, inp, rand, rand_n, self.tr(), context, i));
//@preloop 0
    proof { m = id_gen.of().1; assert(announced(m, tr.len() as int)); }
//@loop 0
    invariant
        tr == self.tr(), num == tr.len(), self.ok(context.n as int, context.t + context.l, context.l as int), context.ok(), net == net0, id_gen.of() == (id0, m, __k0 as int), announced(m, num as int),
        inp.rows() == num, rand.rows() == num, rand_n.rows() == num, rand.cols() == c, rand_n.cols() == c, inp.cols() == c,
        __s0@.len() == num, forall|k: int| 0 <= k < num ==> #[trigger] __s0@[k] == k,
        h1(handles).len() == __k0, forall|k: int| 0 <= k < __k0 ==> (#[trigger] h1(handles)[k]).v@ == row_moved(net0, id0, m, inp, rand, rand_n, tr, context, k) && h1(handles)[k].v@.len() == c,
//@loop 1
    invariant
        num == tr.len(), __s1@.len() == num, forall|k: int| 0 <= k < num ==> (#[trigger] __s1@[k]).v@ == row_moved(net0, id0, m, inp, rand, rand_n, tr, context, k) && __s1@[k].v@.len() == c,
        vals(res) == cat(Seq::new(__k1 as nat, |i: int| row_moved(net0, id0, m, inp, rand, rand_n, tr, context, i))),
//@loopend 1
    proof {
        let a = Seq::new(__k1 as nat, |i: int| row_moved(net0, id0, m, inp, rand, rand_n, tr, context, i));
        assert(a.drop_last() =~= Seq::new((__k1 - 1) as nat, |i: int| row_moved(net0, id0, m, inp, rand, rand_n, tr, context, i)));
    }
//@before Array2::from_shape_vec
    proof {
        let a = Seq::new(num as nat, |i: int| row_moved(net0, id0, m, inp, rand, rand_n, tr, context, i));
        assert forall|i: int| 0 <= i < num implies (#[trigger] a[i]).len() == c by { assert(__s1@[i].v@.len() == c); }
        cat_cells(a, c);
    }
//@end
}
pub open spec fn row_moved<const W: u8>(net: Network, id: Seq<u8>, m: int, inp: Array2<GF<W>>, rand: Array2<GF<W>>, rand_n: Array2<GF<W>>, tr: Seq<SharingTransform<W>>, ctx: MPCContext<W>, i: int) -> Seq<GF<W>> {
    trans_of(net, child(id, m, i), inp.row_s(i), rand.row_s(i), rand_n.row_s(i), tr[i], Some((i % (ctx.n as int)) as u16), ctx)
}
pub open spec fn made<const W: u8>(h: Ready<(Array2<GF<W>>, Array2<GF<W>>)>, net: Network, id: Seq<u8>, m: int, rs: Seq<GF<W>>, zs: Seq<GF<W>>, rt: Seq<RandSharingTransform<W>>, ctx: MPCContext<W>, reps: int, k: int) -> bool {
    h.v == piece(net, id, m, rs, zs, rt, ctx, reps, k) && h.v.0.rows() == ctx.l && h.v.1.rows() == ctx.l && h.v.0.cols() == reps && h.v.1.cols() == reps
}
spec fn hv<const W: u8>(h: Vec<Ready<(Array2<GF<W>>, Array2<GF<W>>)>>) -> Seq<Ready<(Array2<GF<W>>, Array2<GF<W>>)>> { h@ }
spec fn h1<const W: u8>(h: Vec<Ready<Array1<GF<W>>>>) -> Seq<Ready<Array1<GF<W>>>> { h@ }
spec fn vd<T>(v: VecDeque<T>) -> Seq<T> { v@ }
spec fn vals<const W: u8>(v: Vec<GF<W>>) -> Seq<GF<W>> { v@ }
impl<const W: u8> Transforms<W> {
//@stub wires.vrs | impl<const W: u8> Transforms<W> | new
    Self::new(tf, context)
//@end
//@stub garble_main.vrs | impl<const W: u8> Transforms<W> | gen_rand_shares |  | r == gen_of\([^\n]*
    let _num = self.trans.len();
    self.gen_rand_shares(id, reps, randoms, zeros, context, net).await
//@end
//@stub garble_main.vrs | impl<const W: u8> Transforms<W> | transform |  | r == moved_of\(.*?\*self, context\),
    let _num = self.trans.len();
    self.transform(id, inp, rand, rand_n, context, net).await
//@end
}
}
