// Polynomials over the field: evaluation, root counting, interpolation. No code here, only theorems.
pub open spec fn ev<const W: u8>(c: Seq<GF<W>>, x: GF<W>) -> GF<W> decreases c.len() {
    if c.len() == 0 { zero() } else { add(c[0], mul(x, ev(c.drop_first(), x))) }
}
pub open spec fn zeros<const W: u8>(n: nat) -> Seq<GF<W>> { Seq::new(n, |i: int| zero()) }
pub open spec fn padd<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>) -> Seq<GF<W>> { Seq::new(a.len(), |i: int| add(a[i], b[i])) }
pub open spec fn pscale<const W: u8>(s: GF<W>, a: Seq<GF<W>>) -> Seq<GF<W>> { Seq::new(a.len(), |i: int| mul(s, a[i])) }
pub open spec fn lin<const W: u8>(c: Seq<GF<W>>, r: GF<W>) -> Seq<GF<W>> { padd(seq![zero::<W>()] + c, pscale(r, c.push(zero()))) }
pub open spec fn distinct<T>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> s[i] != s[j] }

pub proof fn ev_zeros<const W: u8>(n: nat, x: GF<W>) ensures ev(zeros::<W>(n), x) == zero::<W>() decreases n {
    if n > 0 {
        assert(zeros::<W>(n).drop_first() =~= zeros::<W>((n - 1) as nat));
        ev_zeros::<W>((n - 1) as nat, x);
        l_mul_zero(x); a_add_zero(zero::<W>());
    }
}
pub proof fn ev_padd<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>, x: GF<W>)
    requires a.len() == b.len()
    ensures ev(padd(a, b), x) == add(ev(a, x), ev(b, x))
    decreases a.len()
{
    if a.len() == 0 { a_add_zero(zero::<W>()); } else {
        let a1 = a.drop_first(); let b1 = b.drop_first();
        assert(padd(a, b).drop_first() =~= padd(a1, b1));
        ev_padd(a1, b1, x);
        a_dist(x, ev(a1, x), ev(b1, x));
        l_swap(a[0], mul(x, ev(a1, x)), b[0], mul(x, ev(b1, x)));
    }
}
pub proof fn ev_pscale<const W: u8>(s: GF<W>, a: Seq<GF<W>>, x: GF<W>)
    ensures ev(pscale(s, a), x) == mul(s, ev(a, x))
    decreases a.len()
{
    if a.len() == 0 { l_mul_zero(s); } else {
        let a1 = a.drop_first();
        assert(pscale(s, a).drop_first() =~= pscale(s, a1));
        ev_pscale(s, a1, x);
        l_mswap(x, s, ev(a1, x));
        a_dist(s, a[0], mul(x, ev(a1, x)));
    }
}
pub proof fn ev_ext<const W: u8>(a: Seq<GF<W>>, x: GF<W>)
    ensures ev(a.push(zero()), x) == ev(a, x)
    decreases a.len()
{
    let b = a.push(zero());
    if a.len() == 0 {
        assert(b.drop_first() =~= Seq::<GF<W>>::empty());
        assert(ev(b.drop_first(), x) == zero::<W>());
        l_mul_zero(x); a_add_zero(zero::<W>());
    } else {
        assert(b.drop_first() =~= a.drop_first().push(zero()));
        ev_ext(a.drop_first(), x);
    }
}
pub proof fn ev_lin<const W: u8>(c: Seq<GF<W>>, r: GF<W>, x: GF<W>)
    ensures ev(lin(c, r), x) == mul(add(x, r), ev(c, x)), lin(c, r).len() == c.len() + 1
{
    let s = seq![zero::<W>()] + c;
    let e = c.push(zero());
    ev_padd(s, pscale(r, e), x);
    ev_pscale(r, e, x);
    ev_ext(c, x);
    assert(s.drop_first() =~= c);
    l_zero_add(mul(x, ev(c, x)));
    l_dist2(x, r, ev(c, x));
}
// Division by X - r.
pub open spec fn quot<const W: u8>(c: Seq<GF<W>>, r: GF<W>) -> Seq<GF<W>> decreases c.len() {
    if c.len() <= 1 { seq![] } else { seq![ev(c.drop_first(), r)] + quot(c.drop_first(), r) }
}
pub proof fn ev_quot<const W: u8>(c: Seq<GF<W>>, r: GF<W>, x: GF<W>)
    requires c.len() >= 1
    ensures quot(c, r).len() == c.len() - 1, ev(c, x) == add(ev(c, r), mul(add(x, r), ev(quot(c, r), x)))
    decreases c.len()
{
    let d = c.drop_first();
    if c.len() == 1 {
        l_mul_zero(add(x, r)); l_mul_zero(x); l_mul_zero(r); a_add_zero(c[0]); a_add_zero(ev(c, r));
        assert(d =~= Seq::<GF<W>>::empty());
    } else {
        ev_quot(d, r, x);
        let q = quot(d, r);
        let e = ev(d, r);
        let k = ev(q, x);
        let u = add(x, r);
        assert(quot(c, r).drop_first() =~= q);
        // c(x) = c0 + x (e + u k),  c(r) = c0 + r e,  quot(x) = e + x k
        a_dist(x, e, mul(u, k));
        a_dist(u, e, mul(x, k));
        l_mswap(x, u, k);
        l_dist2(x, r, e);
        // c0 + (x e + u (x k)) = (c0 + r e) + ((x e + r e) + u (x k))
        let c0 = c[0]; let xe = mul(x, e); let re = mul(r, e); let t = mul(u, mul(x, k));
        a_add_assoc(c0, re, add(add(xe, re), t));
        a_add_comm(xe, re);
        a_add_assoc(re, xe, t);
        l_cancel(re, add(xe, t));
    }
}
// A polynomial with as many distinct roots as coefficients is zero everywhere.
pub proof fn roots<const W: u8>(c: Seq<GF<W>>, s: Seq<GF<W>>, x: GF<W>)
    requires s.len() >= c.len(), distinct(s), forall|i: int| 0 <= i < c.len() ==> ev(c, #[trigger] s[i]) == zero::<W>()
    ensures ev(c, x) == zero::<W>()
    decreases c.len()
{
    if c.len() > 0 {
        let r = s[0];
        let q = quot(c, r);
        ev_quot(c, r, x);
        let s1 = s.drop_first();
        assert forall|i: int| 0 <= i < q.len() implies ev(q, #[trigger] s1[i]) == zero::<W>() by {
            let y = s[i + 1];
            assert(ev(c, y) == zero::<W>());
            ev_quot(c, r, y);
            l_zero_add(mul(add(y, r), ev(q, y)));
            l_nozero(add(y, r), ev(q, y));
            l_eq(y, r);
        }
        roots(q, s1, x);
        l_mul_zero(add(x, r));
        a_add_zero(zero::<W>());
    }
}
// Two polynomials with n coefficients that agree at n points agree everywhere.
pub proof fn agree<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>, s: Seq<GF<W>>, x: GF<W>)
    requires a.len() == b.len(), s.len() >= a.len(), distinct(s), forall|i: int| 0 <= i < a.len() ==> ev(a, #[trigger] s[i]) == ev(b, s[i])
    ensures ev(a, x) == ev(b, x)
{
    let c = padd(a, b);
    assert forall|i: int| 0 <= i < c.len() implies ev(c, #[trigger] s[i]) == zero::<W>() by {
        ev_padd(a, b, s[i]);
        a_add_self(ev(a, s[i]));
    }
    roots(c, s, x);
    ev_padd(a, b, x);
    l_eq(ev(a, x), ev(b, x));
}

// Products.
pub open spec fn prod<const W: u8>(s: Seq<GF<W>>) -> GF<W> decreases s.len() {
    if s.len() == 0 { one() } else { mul(prod(s.drop_last()), s.last()) }
}
pub proof fn prod_split<const W: u8>(s: Seq<GF<W>>, j: int)
    requires 0 <= j < s.len()
    ensures prod(s) == mul(s[j], prod(s.update(j, one())))
    decreases s.len()
{
    let t = s.update(j, one());
    if j == s.len() - 1 {
        assert(t.drop_last() =~= s.drop_last());
        a_mul_one(prod(s.drop_last()));
        a_mul_comm(prod(s.drop_last()), s.last());
    } else {
        assert(t.drop_last() =~= s.drop_last().update(j, one()));
        prod_split(s.drop_last(), j);
        a_mul_assoc(s[j], prod(t.drop_last()), s.last());
    }
}
pub proof fn prod_zero<const W: u8>(s: Seq<GF<W>>)
    ensures (prod(s) == zero::<W>()) == (exists|k: int| 0 <= k < s.len() && s[k] == zero::<W>())
    decreases s.len()
{
    if s.len() == 0 { a_one::<W>(); } else {
        prod_zero(s.drop_last());
        l_nozero(prod(s.drop_last()), s.last());
        if prod(s) == zero::<W>() {
            if s.last() == zero::<W>() { assert(s[s.len() - 1] == zero::<W>()); }
            else { let k = choose|k: int| 0 <= k < s.len() - 1 && s.drop_last()[k] == zero::<W>(); assert(s[k] == zero::<W>()); }
        }
        if exists|k: int| 0 <= k < s.len() && s[k] == zero::<W>() {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == zero::<W>();
            if k < s.len() - 1 { assert(s.drop_last()[k] == zero::<W>()); }
        }
    }
}

// Lagrange coefficients.
pub open spec fn factors<const W: u8>(c: Seq<GF<W>>, j: int, x: GF<W>) -> Seq<GF<W>> { Seq::new(c.len(), |k: int| if k == j { one() } else { add(x, c[k]) }) }
pub open spec fn lag<const W: u8>(c: Seq<GF<W>>, j: int, x: GF<W>) -> GF<W> {
    mul(prod(factors(c, j, x)), inv(prod(factors(c, j, c[j]))))
}
pub proof fn den_nonzero<const W: u8>(c: Seq<GF<W>>, j: int)
    requires distinct(c), 0 <= j < c.len()
    ensures prod(factors(c, j, c[j])) != zero::<W>()
{
    let s = factors(c, j, c[j]);
    prod_zero(s);
    if prod(s) == zero::<W>() {
        let k = choose|k: int| 0 <= k < s.len() && s[k] == zero::<W>();
        a_one::<W>();
        l_eq(c[j], c[k]);
    }
}
pub proof fn lag_self<const W: u8>(c: Seq<GF<W>>, i: int, j: int)
    requires distinct(c), 0 <= i < c.len(), 0 <= j < c.len()
    ensures lag(c, j, c[i]) == if i == j { one::<W>() } else { zero::<W>() }
{
    den_nonzero(c, j);
    if i == j { a_inv(prod(factors(c, j, c[j]))); }
    else {
        let s = factors(c, j, c[i]);
        a_add_self(c[i]);
        assert(s[i] == zero::<W>());
        prod_zero(s);
        l_mul_zero(inv(prod(factors(c, j, c[j]))));
    }
}
// factors(c, j, .) as a polynomial, over the first k points.
pub open spec fn nep<const W: u8>(c: Seq<GF<W>>, j: int, k: int) -> Seq<GF<W>> decreases k {
    if k <= 0 { seq![one::<W>()] } else if k - 1 == j { nep(c, j, k - 1) } else { lin(nep(c, j, k - 1), c[k - 1]) }
}
pub proof fn ev_nep<const W: u8>(c: Seq<GF<W>>, j: int, k: int, x: GF<W>)
    requires 0 <= k <= c.len(), 0 <= j < c.len()
    ensures nep(c, j, k).len() == 1 + k - (if j < k { 1int } else { 0 }), ev(nep(c, j, k), x) == prod(factors(c, j, x).take(k))
    decreases k
{
    let f = factors(c, j, x);
    if k == 0 {
        assert(nep(c, j, k).drop_first() =~= Seq::<GF<W>>::empty());
        assert(ev(nep(c, j, k).drop_first(), x) == zero::<W>());
        assert(f.take(0) =~= Seq::<GF<W>>::empty());
        l_mul_zero(x); a_add_zero(one::<W>());
    } else {
        ev_nep(c, j, k - 1, x);
        assert(f.take(k).drop_last() =~= f.take(k - 1));
        if k - 1 == j { a_mul_one(prod(f.take(k - 1))); }
        else {
            ev_lin(nep(c, j, k - 1), c[k - 1], x);
            a_mul_comm(add(x, c[k - 1]), prod(f.take(k - 1)));
        }
    }
}
// Sum of y_j lag_j, and its polynomial.
pub open spec fn lsum<const W: u8>(c: Seq<GF<W>>, y: Seq<GF<W>>, x: GF<W>, m: int) -> GF<W> decreases m {
    if m <= 0 { zero() } else { add(lsum(c, y, x, m - 1), mul(lag(c, m - 1, x), y[m - 1])) }
}
pub open spec fn lpoly<const W: u8>(c: Seq<GF<W>>, y: Seq<GF<W>>, m: int) -> Seq<GF<W>> decreases m {
    if m <= 0 { zeros(c.len()) } else { padd(lpoly(c, y, m - 1), pscale(mul(inv(prod(factors(c, m - 1, c[m - 1]))), y[m - 1]), nep(c, m - 1, c.len() as int))) }
}
pub proof fn ev_lpoly<const W: u8>(c: Seq<GF<W>>, y: Seq<GF<W>>, x: GF<W>, m: int)
    requires 0 <= m <= c.len()
    ensures lpoly(c, y, m).len() == c.len(), ev(lpoly(c, y, m), x) == lsum(c, y, x, m)
    decreases m
{
    if m == 0 { ev_zeros::<W>(c.len(), x); } else {
        ev_lpoly(c, y, x, m - 1);
        let p = nep(c, m - 1, c.len() as int);
        let d = inv(prod(factors(c, m - 1, c[m - 1])));
        let s = mul(d, y[m - 1]);
        ev_nep(c, m - 1, c.len() as int, x);
        assert(factors(c, m - 1, x).take(c.len() as int) =~= factors(c, m - 1, x));
        ev_padd(lpoly(c, y, m - 1), pscale(s, p), x);
        ev_pscale(s, p, x);
        let f = prod(factors(c, m - 1, x));
        a_mul_comm(s, f);
        a_mul_assoc(f, d, y[m - 1]);
    }
}
pub proof fn lsum_self<const W: u8>(c: Seq<GF<W>>, y: Seq<GF<W>>, i: int, m: int)
    requires distinct(c), 0 <= i < c.len(), 0 <= m <= c.len()
    ensures lsum(c, y, c[i], m) == if i < m { y[i] } else { zero::<W>() }
    decreases m
{
    if m > 0 {
        lsum_self(c, y, i, m - 1);
        lag_self(c, i, m - 1);
        l_one_mul(y[m - 1]); l_mul_zero(y[m - 1]);
        l_zero_add(y[m - 1]);
        a_add_zero(lsum(c, y, c[i], m - 1));
    }
}
// Interpolation: the values of a polynomial with n coefficients at n distinct points determine its value anywhere.
pub proof fn interpolate<const W: u8>(p: Seq<GF<W>>, c: Seq<GF<W>>, y: Seq<GF<W>>, x: GF<W>)
    requires distinct(c), p.len() == c.len(), y.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] y[i] == ev(p, c[i])
    ensures lsum(c, y, x, c.len() as int) == ev(p, x)
{
    let n = c.len() as int;
    let g = lpoly(c, y, n);
    ev_lpoly(c, y, x, n);
    assert forall|i: int| 0 <= i < p.len() implies ev(p, #[trigger] c[i]) == ev(g, c[i]) by {
        ev_lpoly(c, y, c[i], n);
        lsum_self(c, y, i, n);
        assert(y[i] == ev(p, c[i]));
    }
    agree(p, g, c, x);
}
// Any values at n distinct points come from a polynomial with n coefficients.
pub proof fn exists_poly<const W: u8>(c: Seq<GF<W>>, y: Seq<GF<W>>) -> (p: Seq<GF<W>>)
    requires distinct(c), y.len() == c.len()
    ensures p.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> ev(p, #[trigger] c[i]) == y[i]
{
    let n = c.len() as int;
    let g = lpoly(c, y, n);
    ev_lpoly(c, y, zero(), n);
    assert forall|i: int| 0 <= i < c.len() implies ev(g, #[trigger] c[i]) == y[i] by {
        ev_lpoly(c, y, c[i], n);
        lsum_self(c, y, i, n);
    }
    g
}
// A polynomial with as many distinct roots as coefficients has only zero coefficients.
pub proof fn quot_zero<const W: u8>(c: Seq<GF<W>>, r: GF<W>)
    requires c.len() >= 1, ev(c, r) == zero::<W>(), forall|i: int| 0 <= i < quot(c, r).len() ==> #[trigger] quot(c, r)[i] == zero::<W>()
    ensures forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == zero::<W>()
    decreases c.len()
{
    let d = c.drop_first();
    l_mul_zero(r);
    a_add_zero(c[0]);
    if c.len() == 1 {
        assert(d =~= Seq::<GF<W>>::empty());
        assert(ev(d, r) == zero::<W>());
    } else {
        let q = quot(c, r);
        ev_quot(c, r, r); ev_quot(d, r, r);
        assert(q[0] == ev(d, r));
        assert forall|i: int| 0 <= i < quot(d, r).len() implies #[trigger] quot(d, r)[i] == zero::<W>() by { assert(q[i + 1] == quot(d, r)[i]); }
        quot_zero(d, r);
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] == zero::<W>() by { if i > 0 { assert(c[i] == d[i - 1]); } }
    }
}
pub proof fn coeffs_zero<const W: u8>(c: Seq<GF<W>>, s: Seq<GF<W>>)
    requires s.len() >= c.len(), distinct(s), forall|i: int| 0 <= i < c.len() ==> ev(c, #[trigger] s[i]) == zero::<W>()
    ensures forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == zero::<W>()
    decreases c.len()
{
    if c.len() > 0 {
        let r = s[0];
        let q = quot(c, r);
        ev_quot(c, r, r);
        let s1 = s.drop_first();
        assert forall|i: int| 0 <= i < q.len() implies ev(q, #[trigger] s1[i]) == zero::<W>() by {
            let y = s[i + 1];
            assert(ev(c, y) == zero::<W>());
            ev_quot(c, r, y);
            l_zero_add(mul(add(y, r), ev(q, y)));
            l_nozero(add(y, r), ev(q, y));
            l_eq(y, r);
        }
        coeffs_zero(q, s1);
        assert(ev(c, s[0]) == zero::<W>());
        quot_zero(c, r);
    }
}
// Polynomials with n coefficients that agree at n points have the same coefficients.
pub proof fn coeffs_agree<const W: u8>(a: Seq<GF<W>>, b: Seq<GF<W>>, s: Seq<GF<W>>)
    requires a.len() == b.len(), s.len() >= a.len(), distinct(s), forall|i: int| 0 <= i < a.len() ==> ev(a, #[trigger] s[i]) == ev(b, s[i])
    ensures a == b
{
    let c = padd(a, b);
    assert forall|i: int| 0 <= i < c.len() implies ev(c, #[trigger] s[i]) == zero::<W>() by {
        ev_padd(a, b, s[i]);
        a_add_self(ev(a, s[i]));
    }
    coeffs_zero(c, s);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(c[i] == zero::<W>()); l_eq(a[i], b[i]); }
    assert(a =~= b);
}
