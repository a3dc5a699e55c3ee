// Conversions and sampling (C03): src/math/galois/mod.rs, all widths 1..=29.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include gf_elem.vrs
//@include gf_const.vrs
// r is a uniform sample of lo..hi
uninterp spec fn drawn(r: u32, lo: u32, hi: u32) -> bool;
pub struct Uniform { pub lo: u32, pub hi: u32 }
pub trait Rng { }
impl Uniform {
    #[verifier::external_body]
    fn new(lo: u32, hi: u32) -> (r: Uniform) requires lo < hi ensures r.lo == lo, r.hi == hi { unimplemented!() }
    #[verifier::external_body]
    fn sample<R: Rng>(&self, rng: &mut R) -> (r: u32) ensures self.lo <= r < self.hi, drawn(r, self.lo, self.hi) { unimplemented!() }
}
//@note rand::Uniform::new(lo, hi).sample gives a number of lo..hi (that every number is equally likely is the rand crate's contract; the range handed to it is 0..2^W).
impl<const W: u8> GF<W> {
//@fn src/math/galois/mod.rs | ^impl<const W: u8> GF<W>$ | rand
//@contract
    requires 1 <= W <= 29
    ensures ok(res), drawn(res.0, 0, (nwm1_s(W as int) + 1) as u32)
//@entry
    proof { tables(W as int); }
//@end
//@fn src/math/galois/mod.rs | ^impl<const W: u8> From<u32> for GF<W>$ | from
//@rename from_u32
//@contract
    requires 1 <= W <= 29
    ensures ok(res), value <= nwm1_s(W as int) ==> res.0 == value, res.0 == value & (nwm1_s(W as int) as u32)
//@entry
    proof {
        tables(W as int);
        let (k, n) = (W as u32, nw_s(W as int) as u32);
        let s = nw_s(W as int);
        assert(n == 1u32 << k) by (bit_vector) requires s == 1i32 << k, 1 <= k <= 29, n == s as u32;
        assert(value % n == value & sub(n, 1)) by (bit_vector) requires n == 1u32 << k, 1 <= k <= 29;
        assert(value & sub(n, 1) < n && (value < n ==> value & sub(n, 1) == value)) by (bit_vector) requires n == 1u32 << k, 1 <= k <= 29;
    }
//@end
//@fn src/math/galois/mod.rs | ^impl<const W: u8> Zero for GF<W>$ | zero
//@contract
    ensures res.0 == 0
//@end
//@fn src/math/galois/mod.rs | ^impl<const W: u8> Zero for GF<W>$ | is_zero
//@contract
    ensures res == (self.0 == 0)
//@end
//@fn src/math/galois/mod.rs | ^impl<const W: u8> One for GF<W>$ | one
//@contract
    ensures res.0 == 1
//@end
}
//@fn src/math/galois/mod.rs | ^impl<const W: u8> From<GF<W>> for u32$ | from
//@head fn from ==> fn from_gf<const W: u8> # free function
//@contract
    ensures res == value.0
//@end

}
