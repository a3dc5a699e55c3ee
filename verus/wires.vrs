// Where the secrets of the wires are (C27): GarbleContext::new, compute_wire_to_block_map and select in src/protocol/garble.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include mpc.vrs
//@include vd.vrs
//@include hashmap.vrs
//@include chunks.vrs
//@include posns.vrs
//@item src/circuit.rs | pub type WireID\b
//@item src/circuit.rs | pub struct PackedGateInfo<
//@item src/circuit.rs | pub enum PackedGate\b
//@item src/circuit.rs | pub struct PackedCircuit\b
//@include needs.vrs
//@note Transforms::new (unit transforms), rs_gen_mat (unit codes), LPNMatrix::new (unit nonces), Combination (unit combination) and wire_to_pos (unit positions) have the contracts proved there. Sorting orders the elements and keeps which there are; dedup of an ordered list keeps each once. Clones equal what they are made of.
//@note Blocks have at most l wires, the output wires of a block are different, and every wire number plus n + l is below 2^w (what the packing of circuits in C14 provides, for circuits within the range of the property).
#[verifier::external_body]
pub struct Combination { x: u8 }
impl Combination {
    pub uninterp spec fn map(&self) -> Seq<usize>;
    #[verifier::external_body]
    pub fn new(map: Vec<usize>) -> (r: Self) ensures r.map() == map@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_instance(inp: &[u32], out: &[u32]) -> (r: Self)
        requires forall|i: int| 0 <= i < out@.len() ==> inp@.contains(#[trigger] out@[i])
        ensures r.map().len() == out@.len(), forall|i: int| 0 <= i < out@.len() ==> (#[trigger] r.map()[i]) < inp@.len() && inp@[r.map()[i] as int] == out@[i]
    { unimplemented!() }
}
#[verifier::external_body]
pub struct SharingTransform<const W: u8> { x: u8 }
impl<const W: u8> SharingTransform<W> {
    pub uninterp spec fn old(&self) -> Seq<GF<W>>;
    pub uninterp spec fn new_(&self) -> Seq<GF<W>>;
    pub uninterp spec fn f(&self) -> Seq<usize>;
}
#[verifier::external_body]
pub struct Transforms<const W: u8> { x: std::marker::PhantomData<GF<W>> }
pub open spec fn movable<const W: u8>(old: Seq<GF<W>>, new: Seq<GF<W>>, f: Seq<usize>, n: int, np: int, l: int) -> bool {
    fits(old, n, n) && fits(new, n, np) && old.len() <= l && new.len() <= l && f.len() == new.len() && forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]) < old.len()
}
pub type Tf<const W: u8> = ((Vec<GF<W>>, Vec<GF<W>>), Combination);
pub open spec fn movables<const W: u8>(tf: Seq<Tf<W>>, n: int, np: int, l: int) -> bool { forall|i: int| 0 <= i < tf.len() ==> movable((#[trigger] tf[i]).0.0@, tf[i].0.1@, tf[i].1.map(), n, np, l) }
pub open spec fn is_move<const W: u8>(s: SharingTransform<W>, t: Tf<W>) -> bool { s.old() == t.0.0@ && s.new_() == t.0.1@ && s.f() == t.1.map() }
impl<const W: u8> Transforms<W> {
    pub uninterp spec fn tr(&self) -> Seq<SharingTransform<W>>;
    pub uninterp spec fn ok(&self, n: int, np: int, l: int) -> bool;
    #[verifier::external_body]
    pub fn new(tf: Vec<((Vec<GF<W>>, Vec<GF<W>>), Combination)>, context: &MPCContext<W>) -> (res: Self)
        requires context.ok(), 1 <= context.l < context.n, movables(tf@, context.n as int, context.t + context.l, context.l as int)
        ensures res.ok(context.n as int, context.t + context.l, context.l as int), res.tr().len() == tf@.len(), forall|i: int| 0 <= i < tf@.len() ==> is_move(#[trigger] res.tr()[i], tf@[i])
    { unimplemented!() }
}
#[verifier::external_body]
pub struct LPNMatrix<const W: u8> { x: std::marker::PhantomData<GF<W>> }
impl<const W: u8> LPNMatrix<W> {
    #[verifier::external_body]
    pub fn new(circ: &PackedCircuit, context: &MPCContext<W>) -> (r: Self)
        requires narrow(circ.gs(), context.l as int), 2 * circ.gs().len() + 2 <= usize::MAX, context.ok()
        ensures r == lpn_of(*circ, *context)
    { unimplemented!() }
}
pub uninterp spec fn lpn_of<const W: u8>(circ: PackedCircuit, context: MPCContext<W>) -> LPNMatrix<W>;
pub open spec fn power<const W: u8>(x: GF<W>, j: int) -> GF<W> decreases j { if j <= 0 { x } else { mul(x, power(x, j - 1)) } }
pub open spec fn is_code<const W: u8>(a: Array2<GF<W>>, k: int, m: int) -> bool { a.rows() == m && a.cols() == k && forall|i: int, j: int| 0 <= i < m && 0 <= j < k ==> #[trigger] a.at(i, j) == power(gf::<W>((i + 1) as u32), j) }
impl PackedCircuit {
    pub closed spec fn gs(&self) -> Seq<PackedGate> { self.gates@ }
    pub closed spec fn inputs_(&self) -> Seq<Vec<u32>> { self.inputs@ }
//@fn src/circuit.rs | ^impl PackedCircuit$ | gates
//@contract
    ensures res@ == self.gs()
//@end
//@fn src/circuit.rs | ^impl PackedCircuit$ | inputs
//@contract
    ensures res@ == self.inputs_()
//@end
    pub open spec fn blocks(&self) -> int { (self.inputs_().len() + self.gs().len()) as int }
    // the wires of block b: first the input blocks, then the outputs of the gates
    pub open spec fn outs(&self, b: int) -> Seq<u32> { if b < self.inputs_().len() { self.inputs_()[b]@ } else { out_of(self.gs()[b - self.inputs_().len()]) } }
}
pub open spec fn out_of(g: PackedGate) -> Seq<u32> { match g { PackedGate::And(x) => x.out@, PackedGate::Xor(x) => x.out@, PackedGate::Inv(x) => x.out@ } }
pub open spec fn inps(g: PackedGate) -> Seq<Vec<u32>> { match g { PackedGate::And(x) => x.inp@, PackedGate::Xor(x) => x.inp@, PackedGate::Inv(x) => x.inp@ } }
pub open spec fn narrow(gs: Seq<PackedGate>, l: int) -> bool { forall|g: int, i: int| 0 <= g < gs.len() && 0 <= i < inps(gs[g]).len() ==> (#[trigger] inps(gs[g])[i])@.len() <= l }
// wires w are in range, so that their positions are apart from all others
pub open spec fn inrange(w: Seq<u32>, n: int, l: int, b: int) -> bool { forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] + n + l < b }
pub open spec fn apart_in<const W: u8>(c: PackedCircuit, n: int, l: int) -> bool {
    &&& 1 <= W <= 31 && n + l <= pow2w(W)
    &&& forall|b: int| 0 <= b < c.blocks() ==> (#[trigger] c.outs(b)).len() <= l && c.outs(b).no_duplicates() && inrange(c.outs(b), n, l, pow2w(W) as int)
    &&& forall|g: int, i: int| 0 <= g < c.gs().len() && 0 <= i < inps(c.gs()[g]).len() ==> (#[trigger] inps(c.gs()[g])[i])@.len() <= l && inrange(inps(c.gs()[g])[i]@, n, l, pow2w(W) as int)
}
pub open spec fn posw<const W: u8>(w: Seq<u32>, n: int, l: int) -> Seq<GF<W>> { Seq::new(w.len(), |i: int| gf::<W>((w[i] + n + l) as u32)) }
// the block a wire is in
pub open spec fn finds(m: Map<u32, usize>, c: PackedCircuit) -> bool {
    (forall|b: int, j: int| 0 <= b < c.blocks() && 0 <= j < c.outs(b).len() ==> m.dom().contains(#[trigger] c.outs(b)[j]))
    && forall|w: u32| #[trigger] m.dom().contains(w) ==> m[w] < c.blocks() && c.outs(m[w] as int).contains(w)
}
spec fn mp(m: HashMap<u32, usize>) -> Map<u32, usize> { m@ }
// Sorting.
pub uninterp spec fn sorted_of(s: Seq<u32>) -> Seq<u32>;
pub uninterp spec fn once_of(s: Seq<u32>) -> Seq<u32>;
pub open spec fn up(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
pub broadcast axiom fn a_sorted(s: Seq<u32>) ensures (#[trigger] sorted_of(s)).len() == s.len(), up(sorted_of(s)), forall|x: u32| sorted_of(s).contains(x) == #[trigger] s.contains(x);
pub broadcast axiom fn a_once(s: Seq<u32>) ensures (#[trigger] once_of(s)).len() <= s.len(), up(s) ==> once_of(s).no_duplicates(), forall|x: u32| once_of(s).contains(x) == #[trigger] s.contains(x);
pub open spec fn uniq(s: Seq<u32>) -> Seq<u32> { once_of(sorted_of(s)) }
pub trait Order {
    spec fn now(&self) -> Seq<u32>;
    fn put_in_order(&mut self) ensures final(self).now() == sorted_of(old(self).now());
    fn drop_repeats(&mut self) ensures final(self).now() == once_of(old(self).now());
}
impl Order for Vec<u32> {
    open spec fn now(&self) -> Seq<u32> { self@ }
    #[verifier::external_body]
    fn put_in_order(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn drop_repeats(&mut self) { unimplemented!() }
}
pub proof fn uniq_ok(s: Seq<u32>)
    ensures uniq(s).len() <= s.len(), uniq(s).no_duplicates(), forall|x: u32| uniq(s).contains(x) == #[trigger] s.contains(x)
{ broadcast use a_sorted, a_once; assert forall|x: u32| uniq(s).contains(x) == #[trigger] s.contains(x) by { assert(sorted_of(s).contains(x) == s.contains(x)); } }
impl<'a> It<&'a u32> {
    #[verifier::external_body]
    pub fn copies(self) -> (r: It<u32>) ensures forall|s: Seq<u32>| self@ == #[trigger] refs(s) ==> r@ == s, r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *self@[i] == #[trigger] r@[i] { unimplemented!() }
}
pub trait Listed<T> {
    spec fn all(&self) -> Seq<T>;
    fn relisted(&self) -> (r: Vec<T>) ensures r@ == self.all();
}
impl<T> Listed<T> for [T] { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn relisted(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T, const N: usize> Listed<T> for [T; N] { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn relisted(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> Listed<T> for Vec<T> { open spec fn all(&self) -> Seq<T> { self@ } #[verifier::external_body] fn relisted(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<const W: u8> PackedSharing<W> {
    #[verifier::external_body]
    pub fn wire_to_pos<I: IntoIt<u32>>(n: u32, l: u32, iter: I) -> (r: It<GF<W>>)
        requires n + l <= u32::MAX, inrange(iter.items(), n as int, l as int, u32::MAX + 1)
        ensures r@ == posw::<W>(iter.items(), n as int, l as int)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn rs_gen_mat<const W: u8>(mssg_len: usize, code_len: usize) -> (r: Array2<GF<W>>)
    requires 1 <= mssg_len, code_len + 1 <= u32::MAX
    ensures is_code(r, mssg_len as int, code_len as int)
{ unimplemented!() }
pub open spec fn dpos<const W: u8>(n: int, l: int) -> Seq<GF<W>> { defpos::<W>(n, l) }
proof fn still_in(w: Seq<u32>, n: int, l: int, b: int)
    requires inrange(w, n, l, b)
    ensures inrange(uniq(w), n, l, b)
{
    uniq_ok(w);
    let d = uniq(w);
    assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] + n + l < b by { assert(d.contains(d[i])); assert(w.contains(d[i])); }
}
proof fn small<const W: u8>(w: Seq<u32>, n: int, l: int)
    requires 1 <= W <= 31, inrange(w, n, l, pow2w(W) as int)
    ensures inrange(w, n, l, u32::MAX + 1)
{
    if W < 31 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(W as nat, 31); }
    vstd::arithmetic::power2::lemma2_to64();
}
proof fn where_is<const W: u8>(w: Seq<u32>, n: int, l: int)
    requires 1 <= W <= 31, 1 <= n, 0 <= l, n + l <= pow2w(W), n <= u16::MAX, w.len() <= l, l < n, w.no_duplicates(), inrange(w, n, l, pow2w(W) as int)
    ensures fits(posw::<W>(w, n, l), n, n), distinct(posw::<W>(w, n, l)), inrange(w, n, l, u32::MAX + 1)
{
    if W < 31 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(W as nat, 31); }
    vstd::arithmetic::power2::lemma2_to64();
    let p = posw::<W>(w, n, l);
    let a = allp(p, n);
    assert forall|i: u32, j: u32| #![trigger gf::<W>(i), gf::<W>(j)] i < pow2w(W) && j < pow2w(W) && i != j implies gf::<W>(i) != gf::<W>(j) by { a_gf::<W>(i); a_gf::<W>(j); }
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by {
        if i < p.len() { assert(w[i] + n + l < pow2w(W)); }
        if j < p.len() { assert(w[j] + n + l < pow2w(W)); }
    }
    pos_distinct(p, n);
    assert((n + p.len()) * (n + p.len()) <= usize::MAX) by (nonlinear_arith) requires 0 <= n <= 65535, 0 <= p.len() <= 65535;
}
proof fn def_fits<const W: u8>(n: int, l: int, t: int, k: int)
    requires fits(defpos::<W>(n, l), n, t + l), 0 <= k <= l, 0 <= n <= u16::MAX, l < n
    ensures fits(defpos::<W>(n, l).take(k), n, t + l)
{
    let (d, p) = (defpos::<W>(n, l), defpos::<W>(n, l).take(k));
    let (a, b) = (allp(d, n), allp(p, n));
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by {
        let (u, v) = (if i < k { i } else { i - k + l }, if j < k { j } else { j - k + l });
        assert(a[u] == b[i] && a[v] == b[j]);
    }
    assert((n + p.len()) * (n + p.len()) <= usize::MAX) by (nonlinear_arith) requires 0 <= n <= 65535, 0 <= p.len() <= 65535;
}
// The secrets of a block go from the default positions to the positions of their wires.
pub open spec fn spread<const W: u8>(s: SharingTransform<W>, w: Seq<u32>, n: int, l: int) -> bool {
    s.old() == defpos::<W>(n, l).take(w.len() as int) && s.new_() == posw::<W>(w, n, l) && s.f().len() == w.len() && forall|j: int| 0 <= j < w.len() ==> #[trigger] s.f()[j] == j
}
// The secrets of the wires of an input go from the positions of the wires to the default positions.
pub open spec fn gathered<const W: u8>(s: SharingTransform<W>, w: Seq<u32>, n: int, l: int) -> bool {
    let d = uniq(w);
    s.old() == posw::<W>(d, n, l) && s.new_() == defpos::<W>(n, l).take(w.len() as int) && s.f().len() == w.len() && forall|j: int| 0 <= j < w.len() ==> (#[trigger] s.f()[j]) < d.len() && d[s.f()[j] as int] == w[j]
}

//@item src/protocol/garble.rs | pub struct GarbleContext<
// All inputs of all gates, in order.
pub open spec fn all_inps(gs: Seq<PackedGate>) -> Seq<Seq<Vec<u32>>> { Seq::new(gs.len(), |g: int| inps(gs[g])) }
pub open spec fn row_is(gs: Seq<PackedGate>, n: int, g: int, r: int, i: int) -> bool { 0 <= ins(gs.take(g)) && 0 <= r < ins(gs.take(n)) && cat(all_inps(gs.take(n)))[r] == inps(gs[g])[i] }
proof fn in_order(gs: Seq<PackedGate>, n: int)
    requires 0 <= n <= gs.len()
    ensures
        cat(all_inps(gs.take(n))).len() == ins(gs.take(n)), 0 <= ins(gs.take(n)),
        forall|g: int, i: int| 0 <= g < n && 0 <= i < g_in(gs[g]) ==> row_is(gs, n, g, #[trigger] row_of(gs, g, i), i),
        forall|r: int| 0 <= r < ins(gs.take(n)) ==> is_inp(gs, n, #[trigger] cat(all_inps(gs.take(n)))[r]),
    decreases n
{
    let (a, s) = (gs.take(n), all_inps(gs.take(n)));
    if n > 0 {
        in_order(gs, n - 1);
        assert(a.drop_last() =~= gs.take(n - 1));
        assert(s.drop_last() =~= all_inps(gs.take(n - 1)));
        assert(inps(gs[n - 1]).len() == g_in(gs[n - 1]));
        assert forall|g: int, i: int| 0 <= g < n && 0 <= i < g_in(gs[g]) implies row_is(gs, n, g, #[trigger] row_of(gs, g, i), i) by {
            if g < n - 1 { assert(row_is(gs, n - 1, g, row_of(gs, g, i), i)); }
            else { assert(s.last() == inps(gs[n - 1])); }
        }
        assert forall|r: int| 0 <= r < ins(a) implies is_inp(gs, n, #[trigger] cat(s)[r]) by {
            if r < ins(gs.take(n - 1)) { assert(is_inp(gs, n - 1, cat(all_inps(gs.take(n - 1)))[r])); }
            else { assert(cat(s)[r] == inps(gs[n - 1])[r - ins(gs.take(n - 1))]); }
        }
    }
}
pub open spec fn is_inp(gs: Seq<PackedGate>, n: int, v: Vec<u32>) -> bool { exists|g: int, i: int| 0 <= g < n && 0 <= i < g_in(gs[g]) && v == #[trigger] inps(gs[g])[i] }
// the row of the moved shares that holds input i of gate g
pub open spec fn row_of(gs: Seq<PackedGate>, g: int, i: int) -> int { ins(gs.take(g)) + i }
impl<const W: u8> GarbleContext<W> {
    pub closed spec fn placed(&self, circ: PackedCircuit, c: MPCContext<W>) -> bool {
        let (n, l, gs) = (c.n as int, c.l as int, circ.gs());
        &&& self.circ == circ && self.mpc == c && self.lpn_mat == lpn_of(circ, c) && is_code(self.lpn_enc, c.lpn_key_len + 1, c.lpn_mssg_len as int)
        &&& finds(self.lookup@, circ)
        &&& self.tf_out.ok(n, c.t + l, l) && self.tf_out.tr().len() == circ.blocks() && forall|b: int| 0 <= b < circ.blocks() ==> spread(#[trigger] self.tf_out.tr()[b], circ.outs(b), n, l)
        &&& self.tf_inp.ok(n, c.t + l, l) && self.tf_inp.tr().len() == ins(gs) && forall|g: int, i: int| 0 <= g < gs.len() && 0 <= i < g_in(gs[g]) ==> gathered(self.tf_inp.tr()[#[trigger] row_of(gs, g, i)], inps(gs[g])[i]@, n, l)
    }
//@fn src/protocol/garble.rs | ^impl<const W: u8> GarbleContext<W>$ | compute_wire_to_block_map
//@contract
    requires circ.blocks() <= usize::MAX
    ensures finds(mp(res), *circ)
//@entry
    let ghost c = *circ;
//@loop 0
    invariant
        c == *circ, __s0@.len() == c.inputs_().len(), c.blocks() <= usize::MAX, forall|k: int| 0 <= k < __s0@.len() ==> #[trigger] __s0@[k] == (k as usize, &c.inputs_()[k]),
        forall|b: int, j: int| 0 <= b < __k0 && 0 <= j < c.outs(b).len() ==> mp(lookup).dom().contains(#[trigger] c.outs(b)[j]),
        forall|w: u32| #[trigger] mp(lookup).dom().contains(w) ==> mp(lookup)[w] < c.blocks() && c.outs(mp(lookup)[w] as int).contains(w),
//@loop 1
    invariant
        __k0 - 1 == i, i < c.inputs_().len(), __s1@.len() == c.outs(i as int).len(), forall|k: int| 0 <= k < __s1@.len() ==> *(#[trigger] __s1@[k]) == c.outs(i as int)[k],
        forall|b: int, j: int| 0 <= b < i && 0 <= j < c.outs(b).len() ==> mp(lookup).dom().contains(#[trigger] c.outs(b)[j]),
        forall|j: int| 0 <= j < __k1 ==> mp(lookup).dom().contains(#[trigger] c.outs(i as int)[j]),
        forall|w: u32| #[trigger] mp(lookup).dom().contains(w) ==> mp(lookup)[w] < c.blocks() && c.outs(mp(lookup)[w] as int).contains(w),
//@loopstart 1
    let ghost m0 = mp(lookup);
    proof { assert(c.outs(i as int).contains(c.outs(i as int)[__k1 as int])); }
//@loopend 1
    proof { let w0 = c.outs(i as int)[__k1 - 1]; assert(mp(lookup) == m0.insert(w0, i)); assert forall|w: u32| #[trigger] mp(lookup).dom().contains(w) implies mp(lookup)[w] < c.blocks() && c.outs(mp(lookup)[w] as int).contains(w) by { if w != w0 { assert(m0.dom().contains(w)); } } }
//@loop 2
    invariant
        c == *circ, offset == c.inputs_().len(), __s2@.len() == c.gs().len(), c.blocks() <= usize::MAX, forall|k: int| 0 <= k < __s2@.len() ==> #[trigger] __s2@[k] == (k as usize, &c.gs()[k]),
        forall|b: int, j: int| 0 <= b < offset + __k2 && 0 <= j < c.outs(b).len() ==> mp(lookup).dom().contains(#[trigger] c.outs(b)[j]),
        forall|w: u32| #[trigger] mp(lookup).dom().contains(w) ==> mp(lookup)[w] < c.blocks() && c.outs(mp(lookup)[w] as int).contains(w),
//@loop 3
    invariant
        __k2 - 1 == i, i < c.gs().len(), offset == c.inputs_().len(), c.blocks() <= usize::MAX, __s3@.len() == c.outs(offset + i).len(), forall|k: int| 0 <= k < __s3@.len() ==> *(#[trigger] __s3@[k]) == c.outs(offset + i)[k],
        forall|b: int, j: int| 0 <= b < offset + i && 0 <= j < c.outs(b).len() ==> mp(lookup).dom().contains(#[trigger] c.outs(b)[j]),
        forall|j: int| 0 <= j < __k3 ==> mp(lookup).dom().contains(#[trigger] c.outs(offset + i)[j]),
        forall|w: u32| #[trigger] mp(lookup).dom().contains(w) ==> mp(lookup)[w] < c.blocks() && c.outs(mp(lookup)[w] as int).contains(w),
//@loopstart 3
    let ghost m0 = mp(lookup);
    proof { assert(c.outs(offset + i).contains(c.outs(offset + i)[__k3 as int])); }
//@loopend 3
    proof { let w0 = c.outs(offset + i)[__k3 - 1]; assert(mp(lookup) == m0.insert(w0, (offset + i) as usize)); assert forall|w: u32| #[trigger] mp(lookup).dom().contains(w) implies mp(lookup)[w] < c.blocks() && c.outs(mp(lookup)[w] as int).contains(w) by { if w != w0 { assert(m0.dom().contains(w)); } } }
//@end
//@fn src/protocol/garble.rs | ^impl<const W: u8> GarbleContext<W>$ | new
//@rewrite ?\bmath::rs_gen_mat\( ==> rs_gen_mat( # the function of the repository's module
//@rewrite ?\.(to_owned|to_vec)\(\) ==> .relisted() # copies of lists
//@rewrite ?\.(cloned|copied)\(\) ==> .copies() # clones equal what they are made of
//@rewrite ?\.sort(_unstable)?\(\) ==> .put_in_order() # sorting as a shim
//@rewrite ?\.dedup\(\) ==> .drop_repeats() # dropping repeated neighbours as a shim
//@contract
    requires
        context.ok(), 1 <= context.l < context.n, apart_in::<W>(circ, context.n as int, context.l as int), circ.blocks() <= usize::MAX, 2 * circ.gs().len() + 2 <= usize::MAX,
        context.lpn_key_len + 1 <= usize::MAX, context.lpn_mssg_len + 1 <= u32::MAX,
    ensures res.placed(circ, context)
//@entry
    let ghost (n0, l0, t0, gs, c0) = (context.n as int, context.l as int, context.t as int, circ.gs(), circ);
    proof {
        in_order(gs, gs.len() as int);
        assert(gs.take(gs.len() as int) =~= gs);
        assert forall|w: Seq<u32>| w.no_duplicates() && w.len() <= l0 && inrange(w, n0, l0, pow2w(W) as int) implies fits(#[trigger] posw::<W>(w, n0, l0), n0, n0) && inrange(w, n0, l0, u32::MAX + 1) by { where_is::<W>(w, n0, l0); }
        assert forall|w: Seq<u32>| inrange(w, n0, l0, pow2w(W) as int) implies #[trigger] inrange(w, n0, l0, u32::MAX + 1) by { small::<W>(w, n0, l0); }
        assert forall|w: Seq<u32>| (#[trigger] once_of(sorted_of(w))).len() <= w.len() && once_of(sorted_of(w)).no_duplicates() && (forall|i: int| 0 <= i < w.len() ==> once_of(sorted_of(w)).contains(#[trigger] w[i])) by { uniq_ok(w); assert forall|i: int| 0 <= i < w.len() implies once_of(sorted_of(w)).contains(#[trigger] w[i]) by { assert(w.contains(w[i])); } }
        assert forall|w: Seq<u32>| inrange(w, n0, l0, pow2w(W) as int) implies inrange(#[trigger] once_of(sorted_of(w)), n0, l0, pow2w(W) as int) by { still_in(w, n0, l0, pow2w(W) as int); }
        assert forall|b: int| 0 <= b < c0.inputs_().len() implies (#[trigger] c0.inputs_()[b])@.len() <= l0 && c0.inputs_()[b]@.no_duplicates() && inrange(c0.inputs_()[b]@, n0, l0, pow2w(W) as int) by { assert(c0.outs(b) == c0.inputs_()[b]@); }
        assert forall|g: int| 0 <= g < gs.len() implies out_of(#[trigger] gs[g]).len() <= l0 && out_of(gs[g]).no_duplicates() && inrange(out_of(gs[g]), n0, l0, pow2w(W) as int) by { assert(c0.outs(c0.inputs_().len() + g) == out_of(gs[g])); }
        assert forall|k: int| 0 <= k <= l0 implies fits(#[trigger] dpos::<W>(n0, l0).take(k), n0, t0 + l0) by { def_fits::<W>(n0, l0, t0, k); }
    }
//@closure 0
    |g: &PackedGate| -> (o: &Vec<u32>) ensures o@ == out_of(*g)
//@closure 1
    |wires: &Vec<u32>| -> (o: ((Vec<GF<W>>, Vec<GF<W>>), Combination))
        requires wires@.len() <= l0, wires@.no_duplicates(), inrange(wires@, n0, l0, pow2w(W) as int)
        ensures o.0.0@ == dpos::<W>(n0, l0).take(wires@.len() as int), o.0.1@ == posw::<W>(wires@, n0, l0), o.1.map().len() == wires@.len(), forall|j: int| 0 <= j < wires@.len() ==> #[trigger] o.1.map()[j] == j
//@closure 2
    |g: &PackedGate| -> (o: Vec<Vec<u32>>) ensures o@ == inps(*g)
//@closure 3
    |wires: Vec<u32>| -> (o: ((Vec<GF<W>>, Vec<GF<W>>), Combination))
        requires wires@.len() <= l0, inrange(wires@, n0, l0, pow2w(W) as int)
        ensures
            o.0.0@ == posw::<W>(uniq(wires@), n0, l0), o.0.1@ == dpos::<W>(n0, l0).take(wires@.len() as int), o.1.map().len() == wires@.len(), uniq(wires@).len() <= wires@.len(), fits(o.0.0@, n0, n0),
            forall|j: int| 0 <= j < wires@.len() ==> (#[trigger] o.1.map()[j]) < uniq(wires@).len() && uniq(wires@)[o.1.map()[j] as int] == wires@[j],
//@end
}

// What a party computes for an input of a gate: the combination of the rows of the wires' blocks, with the values of the interpolation polynomials of the wires' positions at the party's share position.
pub open spec fn at_me<const W: u8>(d: Seq<u32>, n: int, l: int, id: int) -> Seq<GF<W>> { Seq::new(d.len(), |k: int| lag(posw::<W>(d, n, l), k, gf::<W>(id as u32))) }
pub open spec fn held<const W: u8>(a: Array2<GF<W>>, m: Map<u32, usize>, d: Seq<u32>, j: int) -> Seq<GF<W>> { Seq::new(d.len(), |k: int| a.at(m[d[k]] as int, j)) }
pub open spec fn pick<const W: u8>(a: Array2<GF<W>>, m: Map<u32, usize>, w: Seq<u32>, n: int, l: int, id: int) -> Seq<GF<W>> { Seq::new(a.cols(), |j: int| dot(at_me::<W>(uniq(w), n, l, id), held(a, m, uniq(w), j))) }
pub open spec fn known(m: Map<u32, usize>, w: Seq<u32>, b: int) -> bool { forall|i: int| 0 <= i < w.len() ==> m.dom().contains(#[trigger] w[i]) && m[w[i]] < b }
pub open spec fn picks<const W: u8, const N: usize>(a: Array2<GF<W>>, m: Map<u32, usize>, ginf: PackedGateInfo<N>, n: int, l: int, id: int) -> Seq<Seq<GF<W>>> { Seq::new(N as nat, |i: int| pick(a, m, ginf.inp@[i]@, n, l, id)) }
impl<T> Array2<T> {
    #[verifier::external_body]
    pub fn select(&self, a: Axis, idx: &Vec<usize>) -> (r: Self)
        requires a.0 == 0, forall|k: int| 0 <= k < idx@.len() ==> (#[trigger] idx@[k]) < self.rows()
        ensures r.rows() == idx@.len(), r.cols() == self.cols(), forall|k: int, j: int| 0 <= k < idx@.len() ==> #[trigger] r.at(k, j) == self.at(idx@[k] as int, j)
    { unimplemented!() }
}
//@fn src/protocol/garble.rs | - | select
//@rewrite ?\.(to_owned)\(\) ==> .relisted() # copies of lists
//@rewrite ?\.(cloned|copied)\(\) ==> .copies() # clones equal what they are made of
//@rewrite ?\.sort(_unstable)?\(\) ==> .put_in_order() # sorting as a shim
//@rewrite ?\.dedup\(\) ==> .drop_repeats() # dropping repeated neighbours as a shim
//@contract
    requires
        context.mpc.ok(), 1 <= context.mpc.l < context.mpc.n, 1 <= W <= 31, context.mpc.n + context.mpc.l <= pow2w(W),
        forall|i: int| 0 <= i < N ==> (#[trigger] ginf.inp@[i])@.len() <= context.mpc.l && inrange(ginf.inp@[i]@, context.mpc.n as int, context.mpc.l as int, pow2w(W) as int) && known(context.lookup@, ginf.inp@[i]@, shares.rows() as int),
    ensures res@ == cat(picks(shares, context.lookup@, *ginf, context.mpc.n as int, context.mpc.l as int, context.mpc.id as int))
//@entry
    let ghost (n0, l0, id, m) = (context.mpc.n as int, context.mpc.l as int, context.mpc.id as int, context.lookup@);
    proof {
        assert forall|w: Seq<u32>| w.no_duplicates() && w.len() <= l0 && inrange(w, n0, l0, pow2w(W) as int) implies distinct(#[trigger] posw::<W>(w, n0, l0)) by { where_is::<W>(w, n0, l0); }
        assert forall|w: Seq<u32>| inrange(w, n0, l0, pow2w(W) as int) implies #[trigger] inrange(w, n0, l0, u32::MAX + 1) by { small::<W>(w, n0, l0); }
        assert forall|w: Seq<u32>| (#[trigger] once_of(sorted_of(w))).len() <= w.len() && once_of(sorted_of(w)).no_duplicates() by { uniq_ok(w); }
        assert forall|w: Seq<u32>| inrange(w, n0, l0, pow2w(W) as int) implies inrange(#[trigger] once_of(sorted_of(w)), n0, l0, pow2w(W) as int) by { still_in(w, n0, l0, pow2w(W) as int); }
        assert forall|w: Seq<u32>| known(m, w, shares.rows() as int) implies known(m, #[trigger] once_of(sorted_of(w)), shares.rows() as int) by { still_known(m, w, shares.rows() as int); }
    }
//@closure 0
    |i: usize| -> (o: Vec<GF<W>>) requires i < N ensures o@ == pick(shares, m, ginf.inp@[i as int]@, n0, l0, id)
//@closure 1
    |j: &u32| -> (o: usize) requires m.dom().contains(*j) ensures o == m[*j]
//@after let const_coeffs
    proof {
        let d = wires@;
        assert(const_coeffs@ =~= at_me::<W>(d, n0, l0, id));
        assert forall|j: int| 0 <= j < shares.cols() implies #[trigger] selected.col_s(j) == held(shares, m, d, j) by { assert(selected.col_s(j) =~= held(shares, m, d, j)); }
        assert forall|r: Seq<GF<W>>| r.len() == shares.cols() && (forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == dot(at_me::<W>(d, n0, l0, id), held(shares, m, d, j))) implies r == #[trigger] pick(shares, m, ginf.inp@[i as int]@, n0, l0, id) by { assert(r =~= pick(shares, m, ginf.inp@[i as int]@, n0, l0, id)); }
    }
//@end
proof fn still_known(m: Map<u32, usize>, w: Seq<u32>, b: int)
    requires known(m, w, b)
    ensures known(m, uniq(w), b)
{
    uniq_ok(w);
    let d = uniq(w);
    assert forall|i: int| 0 <= i < d.len() implies m.dom().contains(#[trigger] d[i]) && m[d[i]] < b by {
        assert(d.contains(d[i])); assert(w.contains(d[i]));
        let k = choose|k: int| 0 <= k < w.len() && w[k] == d[i];
        assert(m.dom().contains(w[k]));
    }
}
// The combination of shares of polynomials, with the values of interpolation polynomials, are shares of one polynomial.
proof fn combined<const W: u8>(c: Seq<GF<W>>, ps: Seq<Seq<GF<W>>>, n: int, np: int, m: int) -> (q: Seq<GF<W>>)
    requires 0 <= m <= c.len(), ps.len() == c.len(), 1 <= np, c.len() + np <= n + 1, forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).len() == np
    ensures q.len() == n, forall|x: GF<W>| #[trigger] ev(q, x) == lsum(c, evs(ps, x), x, m)
    decreases m
{
    if m == 0 {
        let q = zeros::<W>(n as nat);
        assert forall|x: GF<W>| #[trigger] ev(q, x) == lsum(c, evs(ps, x), x, m) by { ev_zeros::<W>(n as nat, x); }
        q
    } else {
        let r = combined(c, ps, n, np, m - 1);
        let k = m - 1;
        let e = inv(prod(factors(c, k, c[k])));
        let b = pscale(e, nep(c, k, c.len() as int));
        ev_nep(c, k, c.len() as int, zero::<W>());
        let s = mulpoly(b, ps[k], n);
        let q = padd(r, s);
        assert forall|x: GF<W>| #[trigger] ev(q, x) == lsum(c, evs(ps, x), x, m) by {
            ev_padd(r, s, x);
            ev_pscale(e, nep(c, k, c.len() as int), x);
            ev_nep(c, k, c.len() as int, x);
            assert(factors(c, k, x).take(c.len() as int) =~= factors(c, k, x));
            a_mul_comm(e, prod(factors(c, k, x)));
            assert(ev(b, x) == lag(c, k, x));
            assert(ev(s, x) == mul(ev(b, x), ev(ps[k], x)));
        }
        q
    }
}
pub open spec fn evs<const W: u8>(ps: Seq<Seq<GF<W>>>, x: GF<W>) -> Seq<GF<W>> { Seq::new(ps.len(), |k: int| ev(ps[k], x)) }
// What the parties select for an input are shares of a polynomial that has, at the position of each wire, the secret of that wire.
proof fn selects<const W: u8>(circ: PackedCircuit, m: Map<u32, usize>, a: Seq<Array2<GF<W>>>, ps: Seq<Seq<GF<W>>>, val: spec_fn(u32) -> GF<W>, w: Seq<u32>, n: int, l: int, np: int, j: int) -> (q: Seq<GF<W>>)
    requires
        1 <= W <= 31, 1 <= l < n <= u16::MAX, n + l <= pow2w(W), 1 <= np, l + np <= n + 1, w.len() <= l, inrange(w, n, l, pow2w(W) as int),
        finds(m, circ), forall|i: int| 0 <= i < w.len() ==> m.dom().contains(#[trigger] w[i]),
        // column j of block b holds shares of the polynomial ps[b], which has the secrets of the block's wires at their positions
        ps.len() == circ.blocks(), forall|b: int| 0 <= b < ps.len() ==> (#[trigger] ps[b]).len() == np,
        forall|b: int, s: int| 0 <= b < ps.len() && 0 <= s < circ.outs(b).len() ==> ev(ps[b], posw::<W>(circ.outs(b), n, l)[s]) == val(#[trigger] circ.outs(b)[s]),
        a.len() == n, forall|i: int| 0 <= i < n ==> 0 <= j < (#[trigger] a[i]).cols() && a[i].rows() == ps.len(),
        forall|i: int, b: int| 0 <= i < n && 0 <= b < ps.len() ==> #[trigger] a[i].at(b, j) == ev(ps[b], gf::<W>(i as u32)),
    ensures
        q.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] pick(a[i], m, w, n, l, i)[j] == ev(q, gf::<W>(i as u32)),
        forall|k: int| 0 <= k < uniq(w).len() ==> ev(q, #[trigger] posw::<W>(uniq(w), n, l)[k]) == val(uniq(w)[k]),
{
    let d = uniq(w);
    uniq_ok(w); still_in(w, n, l, pow2w(W) as int);
    let c = posw::<W>(d, n, l);
    where_is::<W>(d, n, l);
    assert(known(m, w, circ.blocks()));
    still_known(m, w, circ.blocks());
    let qs = Seq::new(d.len(), |k: int| ps[m[d[k]] as int]);
    assert forall|k: int| 0 <= k < d.len() implies (#[trigger] qs[k]).len() == np by { assert(m.dom().contains(d[k])); }
    let q = combined(c, qs, n, np, d.len() as int);
    assert forall|i: int| 0 <= i < n implies #[trigger] pick(a[i], m, w, n, l, i)[j] == ev(q, gf::<W>(i as u32)) by {
        let x = gf::<W>(i as u32);
        let (r, y) = (at_me::<W>(d, n, l, i), held(a[i], m, d, j));
        assert(a[i].cols() > j);
        assert(y =~= evs(qs, x)) by { assert forall|k: int| 0 <= k < d.len() implies y[k] == evs(qs, x)[k] by { assert(m.dom().contains(d[k])); assert(a[i].at(m[d[k]] as int, j) == ev(ps[m[d[k]] as int], x)); } }
        dot_lsum(r, c, y, x, d.len() as int);
        assert(r.take(d.len() as int) =~= r && y.take(d.len() as int) =~= y);
    }
    assert forall|k: int| 0 <= k < d.len() implies ev(q, #[trigger] c[k]) == val(d[k]) by {
        lsum_self(c, evs(qs, c[k]), k, d.len() as int);
        assert(m.dom().contains(d[k]));
        let b = m[d[k]] as int;
        let s = choose|s: int| 0 <= s < circ.outs(b).len() && circ.outs(b)[s] == d[k];
        assert(ev(ps[b], posw::<W>(circ.outs(b), n, l)[s]) == val(circ.outs(b)[s]));
    }
    q
}
// What garbling assumes of it.
spec fn pick_of<const W: u8>(shares: Array2<GF<W>>, wires: Seq<u32>, c: GarbleContext<W>) -> Seq<GF<W>> { pick(shares, c.lookup@, wires, c.mpc.n as int, c.mpc.l as int, c.mpc.id as int) }
//@stub garble_main.vrs | - | select | 1 <= context.mpc.l < context.mpc.n, 1 <= W <= 31, context.mpc.n + context.mpc.l <= pow2w(W), forall|i: int| 0 <= i < N ==> (#[trigger] ginf.inp@[i])@.len() <= context.mpc.l && inrange(ginf.inp@[i]@, context.mpc.n as int, context.mpc.l as int, pow2w(W) as int) && known(context.lookup@, ginf.inp@[i]@, shares.rows() as int)
    let r = select(shares, ginf, context);
    proof {
        assert forall|p: Seq<Seq<GF<W>>>| p.len() == N && (forall|i: int| 0 <= i < N ==> p[i] == pick_of(shares, (#[trigger] ginf.inp@[i])@, *context)) implies r@ == #[trigger] cat(p) by {
            let q = picks(shares, context.lookup@, *ginf, context.mpc.n as int, context.mpc.l as int, context.mpc.id as int);
            assert forall|i: int| 0 <= i < N implies p[i] == #[trigger] q[i] by { let w = ginf.inp@[i]; }
            assert(p =~= q);
        }
    }
    r
//@end
}
