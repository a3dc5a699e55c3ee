//@note W is below 30, as the documentation of GF requires.
//@ctable extern/galois/galois.c | prim_poly
//@ctable extern/galois/galois.c | nw
//@ctable extern/galois/galois.c | nwm1
//@include field.vrs
// ---- Rust side: src/math/galois/mod.rs
//@std width
//@note galois_create_log_tables(w), galois_logtable_multiply and galois_logtable_divide called from Rust obey the contracts proved for their C text in unit galois_c, which copies these contracts from here; the tables stay as built (`set_up`) once galois_create_log_tables returned 0.
pub uninterp spec fn set_up(w: int) -> bool;
pub axiom fn set_up_means(w: int) requires 1 <= w <= 29 ensures set_up(w) ==> primitive(w);
mod bindings {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub fn galois_logtable_multiply(x: i32, y: i32, w: i32) -> (r: i32)
        requires 1 <= w <= 29, super::set_up(w as int), super::el(w as int, x), super::el(w as int, y)
        ensures r == super::fmul(w as int, x, y) { unimplemented!() }
    #[verifier::external_body]
    pub fn galois_logtable_divide(x: i32, y: i32, w: i32) -> (r: i32)
        requires 1 <= w <= 29, super::set_up(w as int), super::el(w as int, x), super::el(w as int, y), y != 0
        ensures r == super::fmul(w as int, x, super::finv(w as int, y)) { unimplemented!() }
    }
}
#[derive(Clone, Copy)]
pub struct GF<const W: u8>(pub u32);
pub open spec fn ok<const W: u8>(a: GF<W>) -> bool { a.0 <= nwm1_s(W as int) }
pub open spec fn usable<const W: u8>() -> bool { 1 <= W <= 29 && set_up(W as int) }
pub open spec fn fadd<const W: u8>(a: GF<W>, b: GF<W>) -> GF<W> { GF(a.0 ^ b.0) }
pub open spec fn fprod<const W: u8>(a: GF<W>, b: GF<W>) -> GF<W> { GF(fmul(W as int, a.0 as i32, b.0 as i32) as u32) }
pub open spec fn fquot<const W: u8>(a: GF<W>, b: GF<W>) -> GF<W> { GF(fmul(W as int, a.0 as i32, finv(W as int, b.0 as i32)) as u32) }
