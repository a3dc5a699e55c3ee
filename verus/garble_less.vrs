// Garbling with other amounts (C24): garble in src/protocol/garble.rs completes only if there is enough of everything it takes.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include mpc.vrs
//@include nd3.vrs
//@include vd_less.vrs
//@include garble_main.vrs
//@note std: unwrap of None or Err panics, that is does not return.
pub trait Sure<T>: Sized {
    spec fn there(&self) -> Option<T>;
    fn sure(self) -> (r: T)  ensures self.there() == Some(r);
}
impl<T> Sure<T> for Option<T> { open spec fn there(&self) -> Option<T> { *self } #[verifier::external_body] fn sure(self) -> (r: T) { unimplemented!() } }
impl<T> Sure<T> for Result<T, ()> { open spec fn there(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } } #[verifier::external_body] fn sure(self) -> (r: T) { unimplemented!() } }
pub open spec fn given<const W: u8>(pp: PreProc<W>, c: Dim, gs: Seq<PackedGate>) -> bool { 1 <= c.k && pp.keys.dims() == (2int, c.k, pp.keys.dims().2) }
pub open spec fn plenty<T>(rr: Seq<T>, rz: Seq<T>, es: Seq<T>, gs: Seq<PackedGate>, k: int, m: int) -> bool { true }
proof fn plenty_left<const W: u8>(pp: PreProc<W>, c: GarbleContext<W>) { }
// a table of keys of the wrong size for the blocks cannot be reshaped
proof fn wide(k: int, b: int, x: int) ensures 1 <= k && x * (2 * k) == b * (2 * k) ==> x == b {
    if 1 <= k && x * (2 * k) == b * (2 * k) { assert(x == b) by (nonlinear_arith) requires 1 <= k, x * (2 * k) == b * (2 * k); }
}
}
