// The operators of GF<W> (C01): src/math/galois/mod.rs, all widths 1..=29.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include gf_elem.vrs
proof fn bits(a: u32, b: u32) ensures a ^ b == b ^ a { assert(a ^ b == b ^ a) by (bit_vector); }
proof fn range<const W: u8>(a: u32, b: u32)
    ensures a ^ b == b ^ a,
        usable::<W>() && a <= nwm1_s(W as int) && b <= nwm1_s(W as int) ==> {
            &&& nwm1_s(W as int) < 0x2000_0000
            &&& 0 <= fmul(W as int, a as i32, b as i32) <= nwm1_s(W as int)
            &&& b != 0 ==> 0 <= fmul(W as int, a as i32, finv(W as int, b as i32)) <= nwm1_s(W as int)
        }
{
    bits(a, b);
    if usable::<W>() && a <= nwm1_s(W as int) && b <= nwm1_s(W as int) {
        tables(W as int);
        set_up_means(W as int);
        f_closed(W as int, a as i32, b as i32);
        f_closed(W as int, b as i32, b as i32);
        f_closed(W as int, a as i32, finv(W as int, b as i32));
    }
}
proof fn commute<const W: u8>()
    ensures forall|a: GF<W>, b: GF<W>| #[trigger] fadd(a, b) == fadd(b, a), forall|a: GF<W>, b: GF<W>| #[trigger] fprod(a, b) == fprod(b, a)
{
    assert forall|a: GF<W>, b: GF<W>| #[trigger] fadd(a, b) == fadd(b, a) by { bits(a.0, b.0); }
}
//@include gf_ops.vrs
// The field laws on the elements as the operators compute them.
proof fn laws<const W: u8>(a: GF<W>, b: GF<W>, c: GF<W>)
    requires usable::<W>(), ok(a), ok(b), ok(c)
    ensures
        ok(fadd(a, b)), ok(fprod(a, b)), b.0 != 0 ==> ok(fquot(a, b)), ok(GF::<W>(0)), ok(GF::<W>(1)),
        fadd(a, b) == fadd(b, a), fadd(fadd(a, b), c) == fadd(a, fadd(b, c)), fadd(a, GF::<W>(0)) == a, fadd(a, a) == GF::<W>(0),
        fprod(a, b) == fprod(b, a), fprod(fprod(a, b), c) == fprod(a, fprod(b, c)), fprod(a, GF::<W>(1)) == a, fprod(a, GF::<W>(0)) == GF::<W>(0),
        fprod(a, fadd(b, c)) == fadd(fprod(a, b), fprod(a, c)),
        b.0 != 0 ==> fprod(fquot(a, b), b) == a,
        fprod(a, b).0 == 0 ==> a.0 == 0 || b.0 == 0,
{
    let w = W as int;
    tables(w);
    set_up_means(w);
    let (x, y, z) = (a.0 as i32, b.0 as i32, c.0 as i32);
    let (p, q, r) = (a.0, b.0, c.0);
    assert(p ^ q == q ^ p && (p ^ q) ^ r == p ^ (q ^ r) && p ^ 0 == p && p ^ p == 0) by (bit_vector);
    f_closed(w, x, y); f_closed(w, y, z); f_closed(w, x, z); f_closed(w, y, y); f_closed(w, x, finv(w, y));
    xor_cast(p, q); xor_cast(q, r);
    f_mul_assoc(w, x, y, z);
    f_one(w, x);
    f_dist(w, x, y, z);
    xor_cast(fprod(a, b).0, fprod(a, c).0);
    if b.0 != 0 {
        f_inv(w, y);
        f_mul_assoc(w, x, finv(w, y), y);
        f_one(w, x);
    }
}
proof fn xor_cast(p: u32, q: u32)
    requires p < 0x2000_0000, q < 0x2000_0000
    ensures (p ^ q) as i32 == (p as i32) ^ (q as i32), p ^ q < 0x2000_0000
{
    let (x, y) = (p as i32, q as i32);
    assert((p ^ q) as i32 == x ^ y && p ^ q < 0x2000_0000) by (bit_vector) requires p < 0x2000_0000, q < 0x2000_0000, x == p as i32, y == q as i32;
}
// The axioms the other units assume of the field (gf.vrs), copied from there and proved of the elements the operators
// work on: for every usable width and all elements below 2^W, which the functions below do not leave.
mod model {
use super::*;
verus! {
pub open spec fn add<const W: u8>(a: GF<W>, b: GF<W>) -> GF<W> { fadd(a, b) }
pub open spec fn mul<const W: u8>(a: GF<W>, b: GF<W>) -> GF<W> { fprod(a, b) }
pub open spec fn inv<const W: u8>(a: GF<W>) -> GF<W> { fquot(GF(1), a) }
pub open spec fn zero<const W: u8>() -> GF<W> { GF(0) }
pub open spec fn one<const W: u8>() -> GF<W> { GF(1) }
pub open spec fn gf<const W: u8>(x: u32) -> GF<W> { GF(x & (nwm1_s(W as int) as u32)) }
pub open spec fn num<const W: u8>(a: GF<W>) -> u32 { a.0 }
//@spec gf.vrs | pow2w
//@spec gf.vrs | div
proof fn closed<const W: u8>(a: GF<W>, b: GF<W>, x: u32)
    requires usable::<W>(), ok(a), ok(b)
    ensures ok(add(a, b)), ok(mul(a, b)), b != zero::<W>() ==> ok(inv(b)), ok(zero::<W>()), ok(one::<W>()), ok(gf::<W>(x)),
        // what the operator `/` computes
        b != zero::<W>() ==> div(a, b) == fquot(a, b),
{
    laws(a, b, b);
    laws(GF::<W>(1), b, b);
    masks::<W>(x);
    if b.0 != 0 {
        laws(GF::<W>(1), b, b);
        tables(W as int); set_up_means(W as int);
        f_closed(W as int, b.0 as i32, b.0 as i32);
        f_one(W as int, finv(W as int, b.0 as i32));
    }
}
proof fn masks<const W: u8>(x: u32)
    requires 1 <= W <= 29
    ensures x & (nwm1_s(W as int) as u32) <= nwm1_s(W as int), x <= nwm1_s(W as int) ==> x & (nwm1_s(W as int) as u32) == x, pow2w(W) == nwm1_s(W as int) + 1
{
    tables(W as int);
    let (k, s) = (W as u32, nw_s(W as int));
    let n = s as u32;
    assert(n == 1u32 << k) by (bit_vector) requires s == 1i32 << k, 1 <= k <= 29, n == s as u32;
    assert(x & sub(n, 1) < n && (x < n ==> x & sub(n, 1) == x)) by (bit_vector) requires n == 1u32 << k, 1 <= k <= 29;
    vstd::arithmetic::power2::lemma2_to64();
    if k < 29 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(k as nat, 29); }
    vstd::bits::lemma_u32_shl_is_mul(1, k);
}
//@axiom gf.vrs | a_add_comm | usable::<W>()
 laws(a, b, a);
//@end
//@axiom gf.vrs | a_add_assoc | usable::<W>()
 laws(a, b, c);
//@end
//@axiom gf.vrs | a_add_zero | usable::<W>()
 laws(a, a, a);
//@end
//@axiom gf.vrs | a_add_self | usable::<W>()
 laws(a, a, a);
//@end
//@axiom gf.vrs | a_mul_comm | usable::<W>()
 laws(a, b, a);
//@end
//@axiom gf.vrs | a_mul_assoc | usable::<W>()
 laws(a, b, c);
//@end
//@axiom gf.vrs | a_mul_one | usable::<W>()
 laws(a, a, a);
//@end
//@axiom gf.vrs | a_dist | usable::<W>()
 laws(a, b, c);
//@end
//@axiom gf.vrs | a_inv | usable::<W>()
 tables(W as int); laws(GF::<W>(0), a, a); laws(GF::<W>(1), a, a); laws(a, fquot(GF::<W>(1), a), a);
//@end
//@axiom gf.vrs | a_one | usable::<W>()
//@end
//@axiom gf.vrs | a_gf | usable::<W>()
 masks::<W>(x);
//@end
//@axiom gf.vrs | a_num | usable::<W>()
 masks::<W>(a.0);
//@end
//@axiom gf.vrs | a_consts | usable::<W>()
 tables(W as int); masks::<W>(0); masks::<W>(1);
//@end
}
}
}
