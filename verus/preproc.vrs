// The preprocessing protocol (C25): preproc in src/protocol/preproc.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include mpc.vrs
//@include nd3.vrs
//@include vd.vrs
//@include tasks.vrs
//@item src/protocol/preproc.rs | pub struct PreProc<
//@item src/protocol/preproc.rs | pub struct PreProcCount\b
//@item src/protocol/preproc.rs | pub struct RandContext<
//@item src/protocol/preproc.rs | pub struct ZeroContext<
//@item src/protocol/preproc.rs | pub struct RandBitContext<
//@note rand, zero and randbit (unit generate, C23) return what their contracts say, with at least as many elements as asked for; their other preconditions (well-formed messages of the other parties) are assumed.
// Results of the sub-protocols as functions of what arrives.
pub uninterp spec fn rand_of<const W: u8>(net: Network, id: Seq<u8>, num: int, c: RandContext<W>) -> Seq<GF<W>>;
pub uninterp spec fn zero_of<const W: u8>(net: Network, id: Seq<u8>, num: int, c: ZeroContext<W>) -> Seq<GF<W>>;
pub uninterp spec fn bit_of<const W: u8>(net: Network, id: Seq<u8>, num: int, c: RandBitContext<W>) -> Seq<GF<W>>;
#[verifier::external_body]
pub async fn rand<const W: u8>(id: ProtocolID, num: usize, context: RandContext<W>, net: Network) -> (r: Array1<GF<W>>) ensures r@ == rand_of(net, id@, num as int, context), r@.len() >= num { unimplemented!() }
mod zero_mod {
    use super::*;
    #[verifier::external_body]
    pub async fn zero<const W: u8>(id: ProtocolID, num: usize, context: ZeroContext<W>, net: Network) -> (r: Array1<GF<W>>) ensures r@ == zero_of(net, id@, num as int, context), r@.len() >= num { unimplemented!() }
}
#[verifier::external_body]
pub async fn randbit<const W: u8>(id: ProtocolID, num: usize, context: RandBitContext<W>, net: Network) -> (r: Array1<GF<W>>) ensures r@ == bit_of(net, id@, num as int, context), r@.len() >= num { unimplemented!() }
//@include mult_stub.vrs
// The share of the errors made under leader p: how many, and how many come before.
pub open spec fn size(e: int, n: int, p: int) -> int { if p == n - 1 { e - (n - 1) * (e / n) } else { e / n } }
pub open spec fn before(e: int, n: int, p: int) -> int { p * (e / n) }
// The errors of that share: two bits multiplied, the product multiplied by a scalar.
pub open spec fn part<const W: u8>(net: Network, id: Seq<u8>, m: int, n: int, e: int, p: int, b: Seq<GF<W>>, r: Seq<GF<W>>, z: Seq<GF<W>>) -> Seq<GF<W>> {
    let (o, s) = (before(e, n, p), size(e, n, p));
    let prod = mult_of(net, child(id, m, 3 + 2 * p), Some(p as u16), pmul(b.subrange(2 * o, 2 * o + s), b.subrange(2 * o + s, 2 * o + 2 * s)), r.subrange(3 * o, 3 * o + s), z.subrange(2 * o, 2 * o + s));
    mult_of(net, child(id, m, 4 + 2 * p), Some(p as u16), pmul(prod, r.subrange(3 * o + s, 3 * o + 2 * s)), r.subrange(3 * o + 2 * s, 3 * o + 3 * s), z.subrange(2 * o + s, 2 * o + 2 * s))
}
pub open spec fn parts<const W: u8>(net: Network, id: Seq<u8>, m: int, n: int, e: int, k: int, b: Seq<GF<W>>, r: Seq<GF<W>>, z: Seq<GF<W>>) -> Seq<Seq<GF<W>>> { Seq::new(k as nat, |p: int| part(net, id, m, n, e, p, b, r, z)) }
proof fn sizes(e: int, n: int, p: int)
    requires 0 <= e, 1 <= n, 0 <= p < n
    ensures
        0 <= size(e, n, p), 0 <= before(e, n, p), before(e, n, p) + size(e, n, p) <= e,
        p < n - 1 ==> before(e, n, p) + size(e, n, p) == before(e, n, p + 1), p == n - 1 ==> before(e, n, p) + size(e, n, p) == e,
        (n - 1) * (e / n) <= e, 0 <= (n - 1) * (e / n), before(e, n, 0) == 0,
{
    let q = e / n;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(e, n);
    vstd::arithmetic::div_mod::lemma_mod_bound(e, n);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(e, n);
    assert(n * q <= e);
    assert((n - 1) * q == n * q - q) by (nonlinear_arith);
    assert(0 <= (n - 1) * q && 0 <= p * q) by (nonlinear_arith) requires 1 <= n, 0 <= q, 0 <= p;
    assert((p + 1) * q == p * q + q) by (nonlinear_arith);
    assert((p + 1) * q <= n * q) by (nonlinear_arith) requires p + 1 <= n, 0 <= q;
}

//@fn src/protocol/preproc.rs | - | preproc
//@rewrite \bcore::mult\( ==> core_mod::mult( # a module of the repository, not the library's core
//@rewrite \bzero\(\s*id_gen ==> zero_mod::zero(id_gen # the protocol is called zero, like the field's zero
//@contract
    requires
        context.ok(), context.lpn_tau == 2,
        desc.keys.0 * desc.keys.1 <= usize::MAX, desc.keys.0 * desc.keys.2 <= usize::MAX, desc.keys.1 * desc.keys.2 <= usize::MAX, desc.keys.0 * desc.keys.1 * desc.keys.2 + desc.randoms + 3 * desc.errors <= usize::MAX, desc.zeros + 2 * desc.errors <= usize::MAX, desc.masks + 2 * desc.errors <= usize::MAX,
    ensures
        exists|m: int| #[trigger] enough(m, context.n as int) && made(res, desc, id@, m, context.n as int, net, rcontext, zcontext, bcontext),
//@entry
    let ghost (n, e, id0, net0) = (context.n as int, desc.errors as int, id@, net);
    let ghost kk = desc.keys.0 * desc.keys.1 * desc.keys.2;
    proof {
        let (a, b, c) = (desc.keys.0 as int, desc.keys.1 as int, desc.keys.2 as int);
        assert(a * b * c == kk && a * c * b == kk && b * a * c == kk && b * c * a == kk && c * a * b == kk && c * b * a == kk) by (nonlinear_arith) requires kk == a * b * c;
    }
    let ghost mut m = 0int;
    let ghost mut er = Seq::<GF<W>>::empty();
    let ghost mut ez = er;
    let ghost mut eb = er;
    proof { sizes(e, n, 0); cuts::<GF<W>>(); }
//@preloop 0
    proof { m = id_gen.of().1; er = error_rand@; ez = error_zeros@; eb = error_rbits@; assert(enough(m, n)); }
//@loop 0
    invariant
        n == context.n, e == desc.errors, n <= u16::MAX, context.ok(), id_gen.of() == (id0, m, 3 + 2 * __k0), m >= 3 + 2 * n, net == net0,
        __s0@.len() == n, forall|p: int| 0 <= p < n ==> #[trigger] __s0@[p] == (p as usize, size(e, n, p) as usize),
        er.len() == 3 * e, ez.len() == 2 * e, eb.len() == 2 * e, 2 * e <= usize::MAX, 3 * e <= usize::MAX,
        vd(error_rbits) == eb.skip(2 * (if __k0 == n { e } else { before(e, n, __k0 as int) })), vd(error_rand) == er.skip(3 * (if __k0 == n { e } else { before(e, n, __k0 as int) })), vd(error_zeros) == ez.skip(2 * (if __k0 == n { e } else { before(e, n, __k0 as int) })),
        hv(handles).len() == __k0, forall|p: int| 0 <= p < __k0 ==> (#[trigger] hv(handles)[p]).v@ == part(net0, id0, m, n, e, p, eb, er, ez) && hv(handles)[p].v@.len() == size(e, n, p),
//@loopstart 0
    proof { sizes(e, n, __k0 as int); swaps::<W>(); cuts::<GF<W>>(); }
//@loop 1
    invariant
        n == context.n, e == desc.errors, __s1@.len() == n, forall|p: int| 0 <= p < n ==> (#[trigger] __s1@[p]).v@ == part(net0, id0, m, n, e, p, eb, er, ez) && __s1@[p].v@.len() == size(e, n, p),
        errors@ == cat(parts(net0, id0, m, n, e, __k1 as int, eb, er, ez)), errors@.len() == (if __k1 == n { e } else { before(e, n, __k1 as int) }),
//@loopend 1
    proof { sizes(e, n, __k1 - 1); assert(parts(net0, id0, m, n, e, __k1 as int, eb, er, ez).drop_last() =~= parts(net0, id0, m, n, e, __k1 - 1, eb, er, ez)); }
//@end
// so many identifiers are announced to the builder
pub open spec fn enough(m: int, n: int) -> bool { m >= 3 + 2 * n }
spec fn hv<const W: u8>(h: Vec<Ready<Array1<GF<W>>>>) -> Seq<Ready<Array1<GF<W>>>> { h@ }
spec fn vd<T>(v: VecDeque<T>) -> Seq<T> { v@ }
// What a party ends up with.
pub open spec fn made<const W: u8>(res: PreProc<W>, desc: PreProcCount, id: Seq<u8>, m: int, n: int, net: Network, rc: RandContext<W>, zc: ZeroContext<W>, bc: RandBitContext<W>) -> bool {
    let (e, kk) = (desc.errors as int, desc.keys.0 * desc.keys.1 * desc.keys.2);
    let r = rand_of(net, child(id, m, 0), kk + desc.randoms + 3 * e, rc);
    let z = zero_of(net, child(id, m, 1), desc.zeros + 2 * e, zc);
    let b = bit_of(net, child(id, m, 2), desc.masks + 2 * e, bc);
    &&& res.masks@ == b.subrange(2 * e, 2 * e + desc.masks)
    &&& res.keys@ == r.subrange(3 * e, 3 * e + kk) && res.keys.dims() == (desc.keys.0 as int, desc.keys.1 as int, desc.keys.2 as int)
    &&& res.randoms@ == r.skip(3 * e + kk) && res.randoms@.len() >= desc.randoms
    &&& res.zeros@ == z.skip(2 * e) && res.zeros@.len() >= desc.zeros
    &&& res.errors@ == cat(parts(net, id, m, n, e, n, b.take(2 * e), r.take(3 * e), z.take(2 * e))) && res.errors@.len() == e
}

// Which bits and which scalar the i-th error of share p is made of.
pub open spec fn bit0(e: int, n: int, p: int, i: int) -> int { 2 * before(e, n, p) + i }
pub open spec fn bit1(e: int, n: int, p: int, i: int) -> int { 2 * before(e, n, p) + size(e, n, p) + i }
pub open spec fn scalar(e: int, n: int, p: int, i: int) -> int { 3 * before(e, n, p) + size(e, n, p) + i }
pub open spec fn at(e: int, n: int, p: int, i: int) -> bool { 0 <= p < n && 0 <= i < size(e, n, p) }
proof fn earlier(e: int, n: int, p: int, q: int)
    requires 0 <= e, 0 <= p < q < n
    ensures before(e, n, p) + size(e, n, p) <= before(e, n, q)
{
    sizes(e, n, p);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(e, n);
    assert((p + 1) * (e / n) <= q * (e / n)) by (nonlinear_arith) requires p + 1 <= q, 0 <= e / n;
}
// No bit and no scalar serves two errors, the two bits of an error are different ones, and none of them is a mask or key.
pub proof fn fresh_parts(e: int, n: int, p: int, i: int, q: int, j: int)
    requires 0 <= e, 1 <= n, at(e, n, p, i), at(e, n, q, j)
    ensures
        0 <= bit0(e, n, p, i) < bit1(e, n, p, i) < 2 * e, 0 <= scalar(e, n, p, i) < 3 * e,
        bit0(e, n, p, i) != bit1(e, n, q, j),
        (p, i) != (q, j) ==> bit0(e, n, p, i) != bit0(e, n, q, j) && bit1(e, n, p, i) != bit1(e, n, q, j) && scalar(e, n, p, i) != scalar(e, n, q, j),
{
    sizes(e, n, p); sizes(e, n, q);
    if p < q { earlier(e, n, p, q); }
    if q < p { earlier(e, n, q, p); }
}
// The i-th error of share p is element before(p) + i of the errors.
pub proof fn placed<const W: u8>(s: Seq<Seq<GF<W>>>, e: int, n: int, k: int, p: int, i: int)
    requires 0 <= e, 1 <= n, 0 <= p < k <= n, s.len() == k, forall|q: int| 0 <= q < k ==> (#[trigger] s[q]).len() == size(e, n, q), 0 <= i < size(e, n, p)
    ensures cat(s).len() == before(e, n, k - 1) + size(e, n, k - 1), cat(s)[before(e, n, p) + i] == s[p][i]
    decreases k
{
    let d = s.drop_last();
    sizes(e, n, p); sizes(e, n, k - 1);
    assert(s[k - 1].len() == size(e, n, k - 1));
    assert forall|q: int| 0 <= q < k - 1 implies (#[trigger] d[q]).len() == size(e, n, q) by { assert(s[q].len() == size(e, n, q)); }
    if k == 1 {
        assert(d =~= seq![]);
        assert(cat(d).len() == 0);
    } else if p < k - 1 {
        placed(d, e, n, k - 1, p, i);
        sizes(e, n, k - 2);
        earlier(e, n, p, k - 1);
    } else {
        length(d, e, n, k - 1);
        sizes(e, n, k - 2);
    }
}
proof fn length<const W: u8>(s: Seq<Seq<GF<W>>>, e: int, n: int, k: int)
    requires 0 <= e, 1 <= k <= n, s.len() == k, forall|q: int| 0 <= q < k ==> (#[trigger] s[q]).len() == size(e, n, q)
    ensures cat(s).len() == before(e, n, k - 1) + size(e, n, k - 1)
    decreases k
{
    let d = s.drop_last();
    sizes(e, n, k - 1);
    assert(s[k - 1].len() == size(e, n, k - 1));
    assert forall|q: int| 0 <= q < k - 1 implies (#[trigger] d[q]).len() == size(e, n, q) by { assert(s[q].len() == size(e, n, q)); }
    if k > 1 { length(d, e, n, k - 1); sizes(e, n, k - 2); } else { assert(d =~= seq![]); assert(cat(d).len() == 0); }
}
// What an error is worth: nothing unless both bits are one, the scalar otherwise. (Bits and scalars are uniform and
// independent, C23, so a quarter of the errors are random and the others zero.)
pub proof fn bias<const W: u8>(b0: GF<W>, b1: GF<W>, s: GF<W>)
    requires b0 == zero::<W>() || b0 == one::<W>(), b1 == zero::<W>() || b1 == one::<W>()
    ensures mul(mul(b0, b1), s) == (if b0 == one::<W>() && b1 == one::<W>() { s } else { zero::<W>() })
{
    a_one::<W>();
    a_mul_one(b0); a_mul_one(b1); a_mul_one(s); l_mul_zero(b0); l_mul_zero(b1); l_mul_zero(s);
    a_mul_comm(b0, b1); a_mul_comm(mul(b0, b1), s);
}
}
