// All shares lie on one polynomial with np coefficients.
pub open spec fn consistent<const W: u8>(shares: Seq<GF<W>>, n: int, np: int) -> bool {
    exists|p: Seq<GF<W>>| p.len() == np && shares == #[trigger] shares_of(p, n)
}
pub open spec fn last_poly<const W: u8>(shares: Seq<GF<W>>, n: int, np: int) -> Seq<GF<W>> { through(shp::<W>(n).skip(n - np), shares.skip(n - np)) }
pub open spec fn agrees<const W: u8>(shares: Seq<GF<W>>, n: int, np: int) -> bool {
    forall|i: int| 0 <= i < n - np ==> #[trigger] shares[i] == ev(last_poly(shares, n, np), gf::<W>(i as u32))
}
// The polynomial through the last np shares takes the other shares exactly if the shares are consistent, and then it is that polynomial.
pub proof fn agrees_iff<const W: u8>(shares: Seq<GF<W>>, n: int, np: int)
    requires shares.len() == n, 0 <= np <= n, n <= u32::MAX, distinct(shp::<W>(n))
    ensures
        agrees(shares, n, np) == consistent(shares, n, np),
        forall|p: Seq<GF<W>>, x: GF<W>| p.len() == np && shares == #[trigger] shares_of(p, n) ==> #[trigger] ev(p, x) == ev(last_poly(shares, n, np), x),
{
    let c = shp::<W>(n).skip(n - np);
    let q = last_poly(shares, n, np);
    cut_distinct(shp::<W>(n), n - np, n);
    through_at(c, shares.skip(n - np));
    assert forall|p: Seq<GF<W>>, x: GF<W>| p.len() == np && shares == #[trigger] shares_of(p, n) implies #[trigger] ev(p, x) == ev(q, x) by {
        assert forall|i: int| 0 <= i < p.len() implies ev(p, #[trigger] c[i]) == ev(q, c[i]) by {
            assert(shares[n - np + i] == ev(p, gf::<W>((n - np + i) as u32)));
            assert(ev(q, c[i]) == shares.skip(n - np)[i]);
        }
        agree(p, q, c, x);
    }
    if agrees(shares, n, np) {
        assert forall|i: int| 0 <= i < n implies shares[i] == #[trigger] shares_of(q, n)[i] by {
            if i >= n - np { assert(ev(q, c[i - (n - np)]) == shares.skip(n - np)[i - (n - np)]); }
        }
        assert(shares =~= shares_of(q, n));
    }
    if consistent(shares, n, np) {
        let p = choose|p: Seq<GF<W>>| p.len() == np && shares == #[trigger] shares_of(p, n);
        assert forall|i: int| 0 <= i < n - np implies #[trigger] shares[i] == ev(q, gf::<W>(i as u32)) by {
            assert(ev(p, gf::<W>(i as u32)) == ev(q, gf::<W>(i as u32)));
        }
    }
}
