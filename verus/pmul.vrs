// Products of polynomials.
pub open spec fn pprod<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>) -> Seq<GF<W>> decreases a.len() {
    if a.len() == 0 { zeros(b.len()) } else { padd(pscale(a[0], b) + zeros::<W>(a.len()), seq![zero::<W>()] + pprod(a.drop_first(), b)) }
}
pub proof fn ev_more<const W: u8>(a: Seq<GF<W>>, k: nat, x: GF<W>)
    ensures ev(a + zeros::<W>(k), x) == ev(a, x)
    decreases k
{
    if k == 0 { assert(a + zeros::<W>(0) =~= a); }
    else {
        ev_more(a, (k - 1) as nat, x);
        assert(a + zeros::<W>(k) =~= (a + zeros::<W>((k - 1) as nat)).push(zero()));
        ev_ext(a + zeros::<W>((k - 1) as nat), x);
    }
}
pub proof fn ev_pprod<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>, x: GF<W>)
    ensures pprod(a, b).len() == a.len() + b.len(), ev(pprod(a, b), x) == mul(ev(a, x), ev(b, x))
    decreases a.len()
{
    if a.len() == 0 { ev_zeros::<W>(b.len(), x); l_mul_zero(ev(b, x)); }
    else {
        let d = a.drop_first();
        ev_pprod(d, b, x);
        let u = pscale(a[0], b) + zeros::<W>(a.len());
        let v = seq![zero::<W>()] + pprod(d, b);
        ev_padd(u, v, x);
        ev_more(pscale(a[0], b), a.len(), x);
        ev_pscale(a[0], b, x);
        assert(v.drop_first() =~= pprod(d, b));
        let (e, f) = (ev(d, x), ev(b, x));
        l_zero_add(mul(x, mul(e, f)));
        a_mul_assoc(x, e, f);
        l_dist2(a[0], mul(x, e), f);
    }
}
// The product as a polynomial with n coefficients.
pub proof fn mulpoly<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>, n: int) -> (p: Seq<GF<W>>)
    requires a.len() >= 1, b.len() >= 1, a.len() + b.len() <= n + 1
    ensures p.len() == n, forall|x: GF<W>| #[trigger] ev(p, x) == mul(ev(a, x), ev(b, x))
{
    let q = pprod(a, b);
    let m = (a.len() + b.len() - 1) as nat;
    top_zero(a, b);
    let c = q.take(m as int);
    let p = c + zeros::<W>((n - m) as nat);
    assert forall|x: GF<W>| #[trigger] ev(p, x) == mul(ev(a, x), ev(b, x)) by {
        ev_pprod(a, b, x);
        ev_more(c, (n - m) as nat, x);
        assert(q =~= c.push(zero()));
        ev_ext(c, x);
    }
    p
}
proof fn top_zero<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>)
    requires a.len() + b.len() >= 1
    ensures pprod(a, b).len() == a.len() + b.len(), pprod(a, b).last() == zero::<W>()
    decreases a.len()
{
    if a.len() > 0 {
        let d = a.drop_first();
        a_add_zero(zero::<W>());
        if d.len() + b.len() >= 1 { top_zero(d, b); }
    }
}
