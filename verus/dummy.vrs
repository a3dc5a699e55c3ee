// Locally generated material (C26): PreProc::dummy in src/protocol/preproc.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include mpc.vrs
//@include nd3.vrs
//@include vd.vrs
//@include tab.vrs
//@include draws3.vrs
//@include posns.vrs
use math::lagrange_coeffs;
impl Conv<u64> for u32 {
    open spec fn same(&self, r: &u64) -> bool { *r == *self }
    fn conv(self) -> (r: u64) { self as u64 }
}
//@item src/protocol/preproc.rs | pub struct PreProc<
//@item src/protocol/preproc.rs | pub struct PreProcCount\b
//@const src/protocol/preproc.rs | POOL_SIZE | pub open spec fn pool() -> int
//@end
//@note A seeded generator (StdRng) is a deterministic automaton: its state is determined by the seed and by how many elements and bits were drawn in which order, and each draw by the state. That different seeds give different material is not proved (it is a property of StdRng); the bounded part compares seeds.
pub uninterp spec fn seeded(seed: u64) -> int;
pub uninterp spec fn after<const W: u8>(s: int, elem: bool) -> int;
pub uninterp spec fn elem_at<const W: u8>(s: int) -> GF<W>;
pub uninterp spec fn coin_at(s: int) -> bool;
// the state after k more draws of a kind
pub open spec fn go<const W: u8>(s: int, elem: bool, k: int) -> int decreases k { if k <= 0 { s } else { after::<W>(go::<W>(s, elem, k - 1), elem) } }
#[verifier::external_body]
pub struct StdRng { x: u8 }
impl StdRng {
    pub uninterp spec fn view(&self) -> int;
    #[verifier::external_body]
    pub fn seed_from_u64(seed: u64) -> (r: Self) ensures r@ == seeded(seed) { unimplemented!() }
}
#[verifier::external_body]
pub fn elem<const W: u8>(rng: &mut StdRng) -> (r: GF<W>) ensures r == elem_at::<W>(old(rng)@), final(rng)@ == after::<W>(old(rng)@, true) { unimplemented!() }
#[verifier::external_body]
pub fn coin<const W: u8>(rng: &mut StdRng) -> (r: bool) ensures r == coin_at(old(rng)@), final(rng)@ == after::<W>(old(rng)@, false) { unimplemented!() }
impl<const W: u8> Array2<GF<W>> {
    #[verifier::external_body]
    pub fn zeros(s: (usize, usize)) -> (r: Self) ensures r.rows() == s.0, r.cols() == s.1, forall|i: int, j: int| #[trigger] r.at(i, j) == zero::<W>() { unimplemented!() }
}
impl<'a, T: Clone> It<&'a T> {
    #[verifier::external_body]
    pub fn copies(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *self@[i] == #[trigger] r@[i] { unimplemented!() }
}
// The elements of a list round and round.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Cycle<T> { t: std::marker::PhantomData<T> }
pub open spec fn round<T>(s: Seq<T>, a: int, k: int) -> Seq<T> { Seq::new(k as nat, |i: int| s[(a + i) % (s.len() as int)]) }
impl<T> Cycle<T> {
    pub uninterp spec fn list(&self) -> Seq<T>;
    pub uninterp spec fn used(&self) -> int;
    #[verifier::external_body]
    pub fn of(v: Vec<T>) -> (r: Self) requires v@.len() > 0 ensures r.list() == v@, r.used() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn array3(&mut self, s: (usize, usize, usize)) -> (r: Array3<T>)
        ensures r.dims() == (s.0 as int, s.1 as int, s.2 as int), r@ == round(old(self).list(), old(self).used(), s.0 * s.1 * s.2), final(self).list() == old(self).list(), final(self).used() == old(self).used() + s.0 * s.1 * s.2
    { unimplemented!() }
    #[verifier::external_body]
    pub fn array1(&mut self, s: usize) -> (r: Array1<T>) ensures r@ == round(old(self).list(), old(self).used(), s as int), final(self).list() == old(self).list(), final(self).used() == old(self).used() + s { unimplemented!() }
    #[verifier::external_body]
    pub fn all_array1(self, s: usize) -> (r: Array1<T>) ensures r@ == round(self.list(), self.used(), s as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self, s: usize) -> (r: It<T>) ensures r@ == round(old(self).list(), old(self).used(), s as int), final(self).list() == old(self).list(), final(self).used() == old(self).used() + s { unimplemented!() }
    #[verifier::external_body]
    pub fn all_take(self, s: usize) -> (r: It<T>) ensures r@ == round(self.list(), self.used(), s as int) { unimplemented!() }
}
// What is packed in entry j of the pools: values of one polynomial at the default positions, and then at share positions.
pub open spec fn rand_st<const W: u8>(seed: u64, n: int, l: int, t: int) -> int { seeded(seed) }
pub open spec fn zero_st<const W: u8>(seed: u64, n: int, l: int, t: int) -> int { go::<W>(rand_st::<W>(seed, n, l, t), true, (t + l) * pool()) }
pub open spec fn bit_st<const W: u8>(seed: u64, n: int, l: int, t: int) -> int { go::<W>(zero_st::<W>(seed, n, l, t), true, (n - l) * pool()) }
pub open spec fn fill_st<const W: u8>(seed: u64, n: int, l: int, t: int) -> int { go::<W>(bit_st::<W>(seed, n, l, t), false, l * pool()) }
pub open spec fn from<const W: u8>(s: int, i: int, j: int) -> GF<W> { elem_at::<W>(go::<W>(s, true, i * pool() + j)) }
pub open spec fn bit_from<const W: u8>(s: int, i: int, j: int) -> GF<W> { if coin_at(go::<W>(s, false, i * pool() + j)) { one() } else { zero() } }
pub open spec fn rand_col<const W: u8>(seed: u64, n: int, l: int, t: int, j: int) -> Seq<GF<W>> { Seq::new((t + l) as nat, |i: int| from::<W>(rand_st::<W>(seed, n, l, t), i, j)) }
pub open spec fn zero_col<const W: u8>(seed: u64, n: int, l: int, t: int, j: int) -> Seq<GF<W>> { Seq::new(n as nat, |i: int| if i < l { zero() } else { from::<W>(zero_st::<W>(seed, n, l, t), i - l, j) }) }
pub open spec fn bit_col<const W: u8>(seed: u64, n: int, l: int, t: int, j: int) -> Seq<GF<W>> { Seq::new((t + l) as nat, |i: int| if i < l { bit_from::<W>(bit_st::<W>(seed, n, l, t), i, j) } else { from::<W>(fill_st::<W>(seed, n, l, t), i - l, j) }) }
pub open spec fn points<const W: u8>(n: int, l: int, k: int) -> Seq<GF<W>> { allp(defpos::<W>(n, l), n).take(k) }
pub open spec fn rand_pool<const W: u8>(seed: u64, n: int, l: int, t: int, id: int) -> Seq<GF<W>> { Seq::new(pool() as nat, |j: int| ev(through(points::<W>(n, l, t + l), rand_col::<W>(seed, n, l, t, j)), gf::<W>(id as u32))) }
pub open spec fn zero_pool<const W: u8>(seed: u64, n: int, l: int, t: int, id: int) -> Seq<GF<W>> { Seq::new(pool() as nat, |j: int| ev(through(points::<W>(n, l, n), zero_col::<W>(seed, n, l, t, j)), gf::<W>(id as u32))) }
pub open spec fn bit_pool<const W: u8>(seed: u64, n: int, l: int, t: int, id: int) -> Seq<GF<W>> { Seq::new(pool() as nat, |j: int| ev(through(points::<W>(n, l, t + l), bit_col::<W>(seed, n, l, t, j)), gf::<W>(id as u32))) }
// One party's material.
pub open spec fn made<const W: u8>(r: PreProc<W>, seed: u64, c: PreProcCount, n: int, l: int, t: int, id: int) -> bool {
    let (p, k) = (rand_pool::<W>(seed, n, l, t, id), c.keys.0 * c.keys.1 * c.keys.2);
    &&& r.masks@ == round(bit_pool::<W>(seed, n, l, t, id), 0, c.masks as int)
    &&& r.keys.dims() == (c.keys.0 as int, c.keys.1 as int, c.keys.2 as int) && r.keys@ == round(p, 0, k)
    &&& r.randoms@ == round(p, k, c.randoms as int)
    &&& r.zeros@ == round(zero_pool::<W>(seed, n, l, t, id), 0, c.zeros as int)
    &&& r.errors@ == round(p, k + c.randoms, c.errors as int)
}
proof fn spot(i: int, j: int, a: int, p: int)
    requires 0 <= i < a, 0 <= j < p
    ensures 0 <= i * p + j < a * p
{ assert(i * p + j < a * p && 0 <= i * p) by (nonlinear_arith) requires 0 <= i < a, 0 <= j < p; }
// A table of the given columns, and what the interpolation to one position makes of it.
pub open spec fn tab<const W: u8>(m: Array2<GF<W>>, k: int, f: spec_fn(int) -> Seq<GF<W>>) -> bool { m.rows() == k && m.cols() == pool() && forall|i: int, j: int| 0 <= i < k && 0 <= j < pool() ==> #[trigger] m.at(i, j) == f(j)[i] }
proof fn pooled<const W: u8>(c: Seq<GF<W>>, x: GF<W>, f: spec_fn(int) -> Seq<GF<W>>)
    requires forall|j: int| #[trigger] f(j).len() == c.len()
    ensures forall|m: Array2<GF<W>>, inp: Array2<GF<W>>, j: int| #![trigger takes(m, c, seq![x]), inp.col_s(j)] takes(m, c, seq![x]) && tab(inp, c.len() as int, f) && 0 <= j < pool() ==> dot(m.row_s(0), inp.col_s(j)) == ev(through(c, f(j)), x)
{
    assert forall|m: Array2<GF<W>>, inp: Array2<GF<W>>, j: int| #![trigger takes(m, c, seq![x]), inp.col_s(j)] takes(m, c, seq![x]) && tab(inp, c.len() as int, f) && 0 <= j < pool() implies dot(m.row_s(0), inp.col_s(j)) == ev(through(c, f(j)), x) by {
        assert(inp.col_s(j) =~= f(j));
        takes_ev(m, c, seq![x], f(j));
        assert(seq![x][0] == x);
    }
}
impl<const W: u8> PreProc<W> {
//@fn src/protocol/preproc.rs | ^impl<const W: u8> PreProc<W>$ | dummy
//@rewrite ?\bGF::rand\( ==> elem( # drawing an element as a call on the generator
//@rewrite ?\b(\w+)\s*\.gen::<bool>\(\) ==> coin::<W>(&mut \1) # drawing a bit as a call on the generator
//@rewrite ?\bconst (\w+): usize = ==> let \1: usize = # a local constant
//@rewrite ?\.(cloned|copied)\(\) ==> .copies() # clones equal what they are made of
//@std
//@contract
    requires context.ok(), counts.keys.0 * counts.keys.1 * counts.keys.2 <= usize::MAX
    ensures made(res, seed, counts, context.n as int, context.l as int, context.t as int, context.id as int)
//@entry
    let ghost (n0, l0, t0, id) = (context.n as int, context.l as int, context.t as int, context.id as int);
    let ghost p = pool();
    let ghost rand_f = |j: int| rand_col::<W>(seed, n0, l0, t0, j);
    let ghost zero_f = |j: int| zero_col::<W>(seed, n0, l0, t0, j);
    let ghost bit_f = |j: int| bit_col::<W>(seed, n0, l0, t0, j);
    let ghost (s0, s1, s2, s3) = (rand_st::<W>(seed, n0, l0, t0), zero_st::<W>(seed, n0, l0, t0), bit_st::<W>(seed, n0, l0, t0), fill_st::<W>(seed, n0, l0, t0));
    proof {
        assert(forall|k: int| 0 <= k <= 65536 ==> 0 <= #[trigger] (k * p) <= usize::MAX) by (nonlinear_arith) requires 1 <= p <= 100000000;
        cut_distinct(allp(defpos::<W>(n0, l0), n0), 0, t0 + l0);
        cut_distinct(allp(defpos::<W>(n0, l0), n0), 0, n0);
        assert(forall|k: int| 0 <= k <= n0 + l0 ==> #[trigger] allp(defpos::<W>(n0, l0), n0).subrange(0, k) =~= points::<W>(n0, l0, k));
        pooled(points::<W>(n0, l0, t0 + l0), gf::<W>(id as u32), rand_f);
        pooled(points::<W>(n0, l0, t0 + l0), gf::<W>(id as u32), bit_f);
        pooled(points::<W>(n0, l0, n0), gf::<W>(id as u32), zero_f);
        assert(forall|m: Array2<GF<W>>| m.rows() == 1 ==> #[trigger] (m.rows() * m.cols()) == m.cols());
        assert forall|i: int, j: int, a: int| 0 <= i < a && 0 <= j < p implies 0 <= #[trigger] (i * p + j) < #[trigger] (a * p) by { spot(i, j, a, p); }
    }
//@after let all_pos\b[^;]*;
    proof { assert(all_pos@ =~= allp(defpos::<W>(n0, l0), n0)); }
//@after let coeffs\b[^;]*;
    proof { assert(takes(coeffs, points::<W>(n0, l0, t0 + l0), seq![gf::<W>(id as u32)])); }
//@after let coeffs_n\b[^;]*;
    proof { assert(takes(coeffs_n, points::<W>(n0, l0, n0), seq![gf::<W>(id as u32)])); }
//@after let (?:mut )?rand_gen\b.*?Cycle::of\(\w+\)\s*\};
    proof {
        assert forall|j: int| 0 <= j < p implies rand_gen.list()[j] == #[trigger] rand_pool::<W>(seed, n0, l0, t0, id)[j] by { assert(rand_gen.list()[j] == cell(rand_gen.list(), p, 0, j)); assert(rand_f(j) == rand_col::<W>(seed, n0, l0, t0, j)); }
        assert(rand_gen.list() =~= rand_pool::<W>(seed, n0, l0, t0, id));
    }
//@after let (?:mut )?zero_n_gen\b.*?Cycle::of\(\w+\)\s*\};
    proof {
        assert forall|j: int| 0 <= j < p implies zero_n_gen.list()[j] == #[trigger] zero_pool::<W>(seed, n0, l0, t0, id)[j] by { assert(zero_n_gen.list()[j] == cell(zero_n_gen.list(), p, 0, j)); assert(zero_f(j) == zero_col::<W>(seed, n0, l0, t0, j)); }
        assert(zero_n_gen.list() =~= zero_pool::<W>(seed, n0, l0, t0, id));
    }
//@after let (?:mut )?bit_gen\b.*?Cycle::of\(\w+\)\s*\};
    proof {
        assert forall|j: int| 0 <= j < p implies bit_gen.list()[j] == #[trigger] bit_pool::<W>(seed, n0, l0, t0, id)[j] by { assert(bit_gen.list()[j] == cell(bit_gen.list(), p, 0, j)); assert(bit_f(j) == bit_col::<W>(seed, n0, l0, t0, j)); }
        assert(bit_gen.list() =~= bit_pool::<W>(seed, n0, l0, t0, id));
    }
//@loop 0
    invariant __v0@.len() == __k0, rng@ == go::<W>(s0, true, __k0 as int), forall|k: int| 0 <= k < __k0 ==> #[trigger] __v0@[k] == elem_at::<W>(go::<W>(s0, true, k)),
        __s0@.len() == __h0.0 * __h0.1, 
//@loop 1
    invariant __v1@.len() == __k1, rng@ == go::<W>(s1, true, __k1 as int), forall|k: int| 0 <= k < __k1 ==> #[trigger] __v1@[k] == elem_at::<W>(go::<W>(s1, true, k)),
        __s1@.len() == __h1.0 * __h1.1, 
//@loop 2
    invariant __v2@.len() == __k2, rng@ == go::<W>(s2, false, __k2 as int), forall|k: int| 0 <= k < __k2 ==> #[trigger] __v2@[k] == (if coin_at(go::<W>(s2, false, k)) { one::<W>() } else { zero::<W>() }),
        __s2@.len() == __h2.0 * __h2.1, 
//@loop 3
    invariant __v3@.len() == __k3, rng@ == go::<W>(s3, true, __k3 as int), forall|k: int| 0 <= k < __k3 ==> #[trigger] __v3@[k] == elem_at::<W>(go::<W>(s3, true, k)),
        __s3@.len() == __h3.0 * __h3.1, 
//@end
}
// What the parties generated from one seed: number k of each list is shared with one polynomial, of the degree the protocols expect, which opens to bits (masks), zeros (zeros) or the same values for everyone (keys, randoms, errors).
pub open spec fn lies<const W: u8>(x: Seq<GF<W>>, q: Seq<GF<W>>, d: int) -> bool { q.len() <= d && forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] == ev(q, gf::<W>(i as u32)) }
pub open spec fn opens<const W: u8>(q: Seq<GF<W>>, n: int, l: int) -> Seq<GF<W>> { Seq::new(l as nat, |u: int| ev(q, defpos::<W>(n, l)[u])) }
pub open spec fn any_shared<const W: u8>(x: Seq<GF<W>>, d: int) -> bool { exists|q: Seq<GF<W>>| #[trigger] lies(x, q, d) }
pub open spec fn bits_shared<const W: u8>(x: Seq<GF<W>>, d: int, n: int, l: int) -> bool { exists|q: Seq<GF<W>>| #[trigger] lies(x, q, d) && forall|u: int| 0 <= u < l ==> (#[trigger] opens(q, n, l)[u] == zero::<W>() || opens(q, n, l)[u] == one::<W>()) }
pub open spec fn zeros_shared<const W: u8>(x: Seq<GF<W>>, d: int, n: int, l: int) -> bool { exists|q: Seq<GF<W>>| #[trigger] lies(x, q, d) && forall|u: int| 0 <= u < l ==> #[trigger] opens(q, n, l)[u] == zero::<W>() }
pub open spec fn across<const W: u8>(v: Seq<Seq<GF<W>>>, k: int) -> Seq<GF<W>> { Seq::new(v.len(), |i: int| v[i][k]) }
pub open spec fn masks_of<const W: u8>(r: Seq<PreProc<W>>) -> Seq<Seq<GF<W>>> { Seq::new(r.len(), |i: int| r[i].masks@) }
pub open spec fn zeros_of<const W: u8>(r: Seq<PreProc<W>>) -> Seq<Seq<GF<W>>> { Seq::new(r.len(), |i: int| r[i].zeros@) }
pub open spec fn keys_of<const W: u8>(r: Seq<PreProc<W>>) -> Seq<Seq<GF<W>>> { Seq::new(r.len(), |i: int| r[i].keys@) }
pub open spec fn randoms_of<const W: u8>(r: Seq<PreProc<W>>) -> Seq<Seq<GF<W>>> { Seq::new(r.len(), |i: int| r[i].randoms@) }
pub open spec fn errors_of<const W: u8>(r: Seq<PreProc<W>>) -> Seq<Seq<GF<W>>> { Seq::new(r.len(), |i: int| r[i].errors@) }
proof fn drawn<const W: u8>(v: Seq<Seq<GF<W>>>, seed: u64, a: int, c: int, n: int, l: int, t: int)
    requires v.len() == n, 0 <= a, 0 <= c, 0 <= t, 1 <= l, t + l <= n, n + l <= 65535, distinct(allp(defpos::<W>(n, l), n)), forall|i: int| 0 <= i < n ==> #[trigger] v[i] == round(rand_pool::<W>(seed, n, l, t, i), a, c)
    ensures forall|k: int| 0 <= k < c ==> any_shared(#[trigger] across(v, k), t + l)
{
    let all = allp(defpos::<W>(n, l), n);
    cut_distinct(all, 0, t + l);
    assert(all.subrange(0, t + l) =~= points::<W>(n, l, t + l));
    assert forall|k: int| 0 <= k < c implies any_shared(#[trigger] across(v, k), t + l) by {
        let y = rand_col::<W>(seed, n, l, t, (a + k) % pool());
        through_at(points::<W>(n, l, t + l), y);
        assert(lies(across(v, k), through(points::<W>(n, l, t + l), y), t + l));
    }
}
pub proof fn theorem<const W: u8>(r: Seq<PreProc<W>>, seed: u64, c: PreProcCount, n: int, l: int, t: int)
    requires
        r.len() == n, 0 <= t, 1 <= l, t + l <= n, n + l <= 65535, distinct(allp(defpos::<W>(n, l), n)),
        forall|i: int| 0 <= i < n ==> made(#[trigger] r[i], seed, c, n, l, t, i),
    ensures
        forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).masks@.len() == c.masks && r[i].zeros@.len() == c.zeros && r[i].randoms@.len() == c.randoms && r[i].errors@.len() == c.errors && r[i].keys@.len() == c.keys.0 * c.keys.1 * c.keys.2,
        forall|k: int| 0 <= k < c.masks ==> bits_shared(#[trigger] across(masks_of(r), k), t + l, n, l),
        forall|k: int| 0 <= k < c.zeros ==> zeros_shared(#[trigger] across(zeros_of(r), k), n, n, l),
        forall|k: int| 0 <= k < c.keys.0 * c.keys.1 * c.keys.2 ==> any_shared(#[trigger] across(keys_of(r), k), t + l),
        forall|k: int| 0 <= k < c.randoms ==> any_shared(#[trigger] across(randoms_of(r), k), t + l),
        forall|k: int| 0 <= k < c.errors ==> any_shared(#[trigger] across(errors_of(r), k), t + l),
{
    let p = pool();
    let all = allp(defpos::<W>(n, l), n);
    cut_distinct(all, 0, t + l);
    cut_distinct(all, 0, n);
    assert(all.subrange(0, t + l) =~= points::<W>(n, l, t + l) && all.subrange(0, n) =~= points::<W>(n, l, n));
    let kk = c.keys.0 * c.keys.1 * c.keys.2;
    assert(kk >= 0) by (nonlinear_arith) requires kk == c.keys.0 * c.keys.1 * c.keys.2;
    assert forall|k: int| 0 <= k < c.masks implies bits_shared(#[trigger] across(masks_of(r), k), t + l, n, l) by {
        let y = bit_col::<W>(seed, n, l, t, k % p);
        let q = through(points::<W>(n, l, t + l), y);
        through_at(points::<W>(n, l, t + l), y);
        assert(lies(across(masks_of(r), k), q, t + l));
        assert forall|u: int| 0 <= u < l implies (#[trigger] opens(q, n, l)[u] == zero::<W>() || opens(q, n, l)[u] == one::<W>()) by { assert(points::<W>(n, l, t + l)[u] == defpos::<W>(n, l)[u]); }
    }
    assert forall|k: int| 0 <= k < c.zeros implies zeros_shared(#[trigger] across(zeros_of(r), k), n, n, l) by {
        let y = zero_col::<W>(seed, n, l, t, k % p);
        let q = through(points::<W>(n, l, n), y);
        through_at(points::<W>(n, l, n), y);
        assert(lies(across(zeros_of(r), k), q, n));
        assert forall|u: int| 0 <= u < l implies #[trigger] opens(q, n, l)[u] == zero::<W>() by { assert(points::<W>(n, l, n)[u] == defpos::<W>(n, l)[u]); }
    }
    drawn(keys_of(r), seed, 0, kk, n, l, t);
    drawn(randoms_of(r), seed, kk, c.randoms as int, n, l, t);
    drawn(errors_of(r), seed, kk + c.randoms, c.errors as int, n, l, t);
}
}
