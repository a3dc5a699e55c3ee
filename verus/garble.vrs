// Garbling with the announced material (C24, C27): garble in src/protocol/garble.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include std_vec.vrs
//@include mpc.vrs
//@include nd3.vrs
//@include vd.vrs
//@include garble_main.vrs
pub trait Sure<T>: Sized {
    spec fn there(&self) -> Option<T>;
    fn sure(self) -> (r: T) requires self.there().is_some() ensures self.there() == Some(r);
}
impl<T> Sure<T> for Option<T> { open spec fn there(&self) -> Option<T> { *self } #[verifier::external_body] fn sure(self) -> (r: T) { unimplemented!() } }
impl<T> Sure<T> for Result<T, ()> { open spec fn there(&self) -> Option<T> { match *self { Ok(x) => Some(x), Err(_) => None } } #[verifier::external_body] fn sure(self) -> (r: T) { unimplemented!() } }
// With the announced amounts garbling completes and uses all of them.
pub open spec fn given<const W: u8>(pp: PreProc<W>, c: Dim, gs: Seq<PackedGate>) -> bool {
    pp.masks@.len() == c.nin + gs.len() && pp.keys.dims() == (2int, c.k, c.nin + gs.len()) && pp.randoms@.len() == need_r(c.nin, gs, c.n, c.t, c.l, c.k) && pp.zeros@.len() == need_z(c.nin, gs, c.n, c.l, c.k) && pp.errors@.len() == errs(gs, c.m)
}
// so much is left for the gates
pub open spec fn plenty<T>(rr: Seq<T>, rz: Seq<T>, es: Seq<T>, gs: Seq<PackedGate>, k: int, m: int) -> bool { rr.len() == mults(gs, k) && rz.len() == mults(gs, k) && es.len() == errs(gs, m) }
proof fn plenty_left<const W: u8>(pp: PreProc<W>, c: GarbleContext<W>)
    requires built(c), given(pp, dim(c), c.circ.gs())
    ensures plenty(rest_r(pp, c), rest_z(pp, c), pp.errors@, c.circ.gs(), dim(c).k, dim(c).m)
{
    let (d, gs) = (dim(c), c.circ.gs());
    let (u, v) = (runs(d.nin + gs.len(), d.l, d.k), runs(ins(gs), d.l, d.k));
    let (n, t) = (d.n, d.t);
    sums_up(gs, d.k, d.m);
    whole_blocks(d.nin + gs.len(), d.l);
    whole_blocks(ins(gs), d.l);
    assert(0 <= u && 0 <= v) by (nonlinear_arith) requires u == nblk(d.nin + gs.len(), d.l) * (2 * d.k + 1), v == nblk(ins(gs), d.l) * (2 * d.k + 1), 0 <= nblk(d.nin + gs.len(), d.l), 0 <= nblk(ins(gs), d.l), 0 <= d.k;
    assert((u + v) * (n + t) == u * (n + t) + v * (n + t) && (u + v) * 2 * n == u * 2 * n + v * 2 * n) by (nonlinear_arith);
    assert(0 <= u * (n + t) && 0 <= v * (n + t) && 0 <= u * 2 * n && 0 <= v * 2 * n) by (nonlinear_arith) requires 0 <= u, 0 <= v, 1 <= n, 0 <= t;
}
proof fn wide(k: int, b: int, x: int) { }
}
