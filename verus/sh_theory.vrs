// Polynomials behind packed shares.
// Positions of the shares, and of secrets followed by shares.
pub open spec fn shp<const W: u8>(n: int) -> Seq<GF<W>> { Seq::new(n as nat, |i: int| gf::<W>(i as u32)) }
pub open spec fn allp<const W: u8>(pos: Seq<GF<W>>, n: int) -> Seq<GF<W>> { pos + shp::<W>(n) }

// m takes values at the points c to values at the points p.
pub open spec fn takes<const W: u8>(m: Array2<GF<W>>, c: Seq<GF<W>>, p: Seq<GF<W>>) -> bool {
    m.rows() == p.len() && m.cols() == c.len() && forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < c.len() ==> #[trigger] m.at(i, j) == lag(c, j, p[i])
}
pub proof fn dot_lsum<const W: u8>(row: Seq<GF<W>>, c: Seq<GF<W>>, y: Seq<GF<W>>, x: GF<W>, k: int)
    requires row.len() == c.len(), y.len() == c.len(), 0 <= k <= c.len(), forall|j: int| 0 <= j < c.len() ==> #[trigger] row[j] == lag(c, j, x)
    ensures dot(row.take(k), y.take(k)) == lsum(c, y, x, k)
    decreases k
{
    if k > 0 {
        dot_lsum(row, c, y, x, k - 1);
        assert(row.take(k).drop_last() =~= row.take(k - 1));
        assert(y.take(k).drop_last() =~= y.take(k - 1));
    }
}
// The polynomial taking the values y at c, and its value at every point a matrix leads to.
pub open spec fn through<const W: u8>(c: Seq<GF<W>>, y: Seq<GF<W>>) -> Seq<GF<W>> { lpoly(c, y, c.len() as int) }
pub proof fn takes_ev<const W: u8>(m: Array2<GF<W>>, c: Seq<GF<W>>, p: Seq<GF<W>>, y: Seq<GF<W>>)
    requires takes(m, c, p), y.len() == c.len()
    ensures forall|i: int| 0 <= i < p.len() ==> dot(#[trigger] m.row_s(i), y) == ev(through(c, y), p[i])
{
    assert forall|i: int| 0 <= i < p.len() implies dot(#[trigger] m.row_s(i), y) == ev(through(c, y), p[i]) by {
        let row = m.row_s(i);
        dot_lsum(row, c, y, p[i], c.len() as int);
        assert(row.take(c.len() as int) =~= row);
        assert(y.take(c.len() as int) =~= y);
        ev_lpoly(c, y, p[i], c.len() as int);
    }
}
pub proof fn through_at<const W: u8>(c: Seq<GF<W>>, y: Seq<GF<W>>)
    requires distinct(c), y.len() == c.len()
    ensures through(c, y).len() == c.len(), forall|i: int| 0 <= i < c.len() ==> ev(through(c, y), #[trigger] c[i]) == y[i]
{
    ev_lpoly(c, y, zero(), c.len() as int);
    assert forall|i: int| 0 <= i < c.len() implies ev(through(c, y), #[trigger] c[i]) == y[i] by {
        ev_lpoly(c, y, c[i], c.len() as int);
        lsum_self(c, y, i, c.len() as int);
    }
}
// The shares of the polynomial p.
pub open spec fn shares_of<const W: u8>(p: Seq<GF<W>>, n: int) -> Seq<GF<W>> { Seq::new(n as nat, |i: int| ev(p, gf::<W>(i as u32))) }
pub open spec fn fits<const W: u8>(pos: Seq<GF<W>>, n: int, np: int) -> bool {
    pos.len() <= np <= n && n + pos.len() <= u32::MAX && distinct(allp(pos, n)) && (n + pos.len()) * (n + pos.len()) <= usize::MAX
}
pub proof fn cut_distinct<T>(s: Seq<T>, a: int, b: int)
    requires distinct(s), 0 <= a <= b <= s.len()
    ensures distinct(s.subrange(a, b)), distinct(s.take(b)), distinct(s.skip(a)),
{ }
pub proof fn area(n: int, a: int, b: int)
    requires 0 <= a <= n, 0 <= b <= n, n * n <= usize::MAX
    ensures a * b <= usize::MAX
{ assert(a * b <= n * n) by (nonlinear_arith) requires 0 <= a <= n, 0 <= b <= n; }
