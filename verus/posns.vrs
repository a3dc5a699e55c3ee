// Positions and interpolation as the protocols use them.
//@note lagrange_coeffs has the contract proved in unit lagrange (C06); share_pos and default_pos the ones proved in unit positions (C29).
impl<const W: u8> PackedSharing<W> {
    #[verifier::external_body]
    pub fn share_pos(n: u32) -> (r: Vec<GF<W>>) ensures r@ == shp::<W>(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn default_pos(n: u32, l: u32) -> (r: Vec<GF<W>>) requires n + l <= u32::MAX ensures r@ == defpos::<W>(n as int, l as int) { unimplemented!() }
}
pub mod sizes {
    use super::*;
    pub open spec fn countable(a: int, b: int) -> bool { a * b <= usize::MAX }
    pub broadcast proof fn small_ok(a: int, b: int)
        requires 0 <= a <= u32::MAX, 0 <= b <= u32::MAX
        ensures #[trigger] countable(a, b)
    {
        assert(a * b <= u32::MAX * u32::MAX) by (nonlinear_arith) requires 0 <= a <= u32::MAX, 0 <= b <= u32::MAX;
    }
}
use sizes::countable;
broadcast use sizes::small_ok;
pub mod math {
    use super::*;
    #[verifier::external_body]
    pub fn lagrange_coeffs<const W: u8>(cpos: &[GF<W>], npos: &[GF<W>]) -> (r: Array2<GF<W>>)
        requires distinct(cpos@), countable(npos@.len() as int, cpos@.len() as int)
        ensures takes(r, cpos@, npos@)
    { unimplemented!() }
}
impl<T> Array2<T> {
    #[verifier::external_body]
    pub fn remove_axis(self, a: Axis) -> (r: Array1<T>)
        requires a.0 < 2, (if a.0 == 0 { self.rows() } else { self.cols() }) >= 1
        ensures r@ == if a.0 == 0 { self.row_s(0) } else { self.col_s(0) }
    { unimplemented!() }
}
pub proof fn lag_dot<const W: u8>(row: Seq<GF<W>>, c: Seq<GF<W>>, x: GF<W>, y: Seq<GF<W>>)
    requires row.len() == c.len(), y.len() == c.len(), forall|j: int| 0 <= j < c.len() ==> #[trigger] row[j] == lag(c, j, x)
    ensures dot(row, y) == ev(through(c, y), x)
{
    dot_lsum(row, c, y, x, c.len() as int);
    assert(row.take(c.len() as int) =~= row);
    assert(y.take(c.len() as int) =~= y);
    ev_lpoly(c, y, x, c.len() as int);
}
pub proof fn pos_distinct<const W: u8>(pos: Seq<GF<W>>, n: int)
    requires distinct(allp(pos, n))
    ensures distinct(pos)
{ assert forall|i: int, j: int| 0 <= i < pos.len() && 0 <= j < pos.len() && i != j implies pos[i] != pos[j] by { assert(allp(pos, n)[i] == pos[i] && allp(pos, n)[j] == pos[j]); } }
