// Interpolation (C06): lagrange_coeffs in src/math/mod.rs
use vstd::prelude::*;
verus! {
//@std gf
//@include gf.vrs
//@include iter.vrs
//@include nd.vrs
//@include poly.vrs
//@note The positions cpos are distinct (checked by the debug assertions of the code, which are left out here).

impl<const W: u8> It<GF<W>> {
    // Multiplying everything together.
    #[verifier::external_body]
    pub fn reduce<Z: Fn() -> GF<W>, F: Fn(GF<W>, GF<W>) -> GF<W>>(self, z: Z, f: F) -> (r: GF<W>)
        requires z.requires(()), forall|a: GF<W>, b: GF<W>| f.requires((a, b)),
        ensures
            (forall|e: GF<W>| z.ensures((), e) ==> e == one::<W>())
            && (forall|a: GF<W>, b: GF<W>, c: GF<W>| f.ensures((a, b), c) ==> c == mul(a, b))
            ==> forall|s: Seq<GF<W>>| s =~= self@ ==> r == #[trigger] prod(s)
    { unimplemented!() }
}

impl<T> It<T> {
    #[verifier::external_body]
    pub fn collect_into_vec(self, v: &mut Vec<T>) ensures final(v)@ == self@ { unimplemented!() }

    #[verifier::external_body]
    pub fn position_any<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],))
        ensures match r {
            Some(i) => i < self@.len() && f.ensures((self@[i as int],), true),
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
        }
    { unimplemented!() }

    // every closure result has `w` elements: element i * w + j of the chain is element j of result i
    #[verifier::external_body]
    pub fn flat_map<U, F: Fn(T) -> Vec<U>>(self, f: F, Ghost(w): Ghost<nat>) -> (r: It<U>)
        requires
            forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            forall|i: int, o: Vec<U>| 0 <= i < self@.len() && #[trigger] f.ensures((self@[i],), o) ==> o@.len() == w,
        ensures
            r@.len() == self@.len() * w,
            forall|i: int| 0 <= i < self@.len() ==> exists|o: Vec<U>| #[trigger] f.ensures((#[trigger] self@[i],), o) && forall|j: int| 0 <= j < w ==> #[trigger] cell(r@, w as int, i, j) == o@[j],
    { unimplemented!() }
}

// The row for value v.
spec fn vw<const W: u8>(v: Vec<GF<W>>) -> Seq<GF<W>> { v@ }
spec fn lagrow<const W: u8>(c: Seq<GF<W>>, v: GF<W>) -> Seq<GF<W>> { Seq::new(c.len(), |j: int| lag(c, j, v)) }

proof fn denom_ok<const W: u8>(c: Seq<GF<W>>, i: int, s: Seq<GF<W>>)
    requires distinct(c), 0 <= i < c.len(), s.len() == c.len(), forall|k: int| 0 <= k < c.len() ==> #[trigger] s[k] == if c[i] == c[k] { one::<W>() } else { add(c[i], c[k]) }
    ensures s == factors(c, i, c[i])
{ assert(s =~= factors(c, i, c[i])); }

// numerator / ((v - c_j) d_j) is the coefficient.
proof fn quotient_ok<const W: u8>(c: Seq<GF<W>>, v: GF<W>, j: int, s: Seq<GF<W>>)
    requires distinct(c), 0 <= j < c.len(), s.len() == c.len(), forall|k: int| 0 <= k < c.len() ==> #[trigger] s[k] == add(v, c[k]), v != c[j],
    ensures
        mul(add(v, c[j]), prod(factors(c, j, c[j]))) != zero::<W>(),
        div(prod(s), mul(add(v, c[j]), prod(factors(c, j, c[j])))) == lag(c, j, v)
{
    let a = add(v, c[j]);
    let d = prod(factors(c, j, c[j]));
    let f = prod(factors(c, j, v));
    assert(s.update(j, one()) =~= factors(c, j, v));
    prod_split(s, j);
    l_eq(v, c[j]);
    den_nonzero(c, j);
    l_nozero(a, d);
    a_inv(a); a_inv(d); a_inv(mul(a, d));
    // inv(a d) = inv(a) inv(d)
    let u = mul(inv(a), inv(d));
    a_mul_assoc(a, d, u);
    l_mswap(d, inv(a), inv(d));
    a_mul_one(inv(a));
    l_inv_unique(mul(a, d), u);
    // (a f) (inv(a) inv(d)) = f inv(d)
    a_mul_comm(a, f);
    a_mul_assoc(f, a, u);
    a_mul_assoc(a, inv(a), inv(d));
    l_one_mul(inv(d));
}

proof fn same_row<const W: u8>(c: Seq<GF<W>>, i: int, r: Seq<GF<W>>)
    requires distinct(c), 0 <= i < c.len(), r.len() == c.len(), forall|k: int| 0 <= k < c.len() ==> #[trigger] r[k] == if k == i { one::<W>() } else { zero::<W>() }
    ensures r == lagrow(c, c[i])
{
    assert forall|j: int| 0 <= j < c.len() implies r[j] == #[trigger] lagrow(c, c[i])[j] by { lag_self(c, i, j); }
    assert(r =~= lagrow(c, c[i]));
}

//@fn src/math/mod.rs | - | lagrange_coeffs
//@dropblock #\[cfg\(debug_assertions\)\] # debug assertions
//@rewrite \}\)\s*\.collect\(\);\s*Array2 ==> }, Ghost(cpos@.len())).collect(); Array2 # ghost argument of flat_map
//@contract
    requires
        distinct(cpos@),
        npos@.len() * cpos@.len() <= usize::MAX,
    ensures
        res.rows() == npos@.len(), res.cols() == cpos@.len(),
        forall|i: int, j: int| 0 <= i < npos@.len() && 0 <= j < cpos@.len() ==> #[trigger] res.at(i, j) == lag(cpos@, j, npos@[i]),
//@before cpos\.it\(\)\s*\.zip
                proof {
                    let s = Seq::new(cpos@.len(), |k: int| add(*v, cpos@[k]));
                    assert(numerator == prod(s));
                    assert forall|j: int| 0 <= j < cpos@.len() implies
                        mul(add(*v, cpos@[j]), #[trigger] denom@[j]) != zero::<W>() && div(numerator, mul(add(*v, cpos@[j]), denom@[j])) == lag(cpos@, j, *v) by {
                        assert(*v != *refs(cpos@)[j]);
                        quotient_ok(cpos@, *v, j, s);
                    }
                }
//@after row\[i\] =
                proof { same_row(cpos@, i as int, row@); }
//@before let coeffs
    proof {
        assert forall|j: int| 0 <= j < cpos@.len() implies #[trigger] denom@[j] == prod(factors(cpos@, j, cpos@[j])) by {
            assert(*refs(cpos@)[j] == cpos@[j]);
        }
    }
//@before Array2::from_shape_vec
    proof {
        let cv = vw(coeffs);
        assert forall|i: int, j: int| 0 <= i < npos@.len() && 0 <= j < cpos@.len() implies #[trigger] cell(cv, cpos@.len() as int, i, j) == lag(cpos@, j, npos@[i]) by {
            assert(*refs(npos@)[i] == npos@[i]);
        }
    }
//@entry
    proof { algebra::<W>(); }
//@closure 0
    |v: &GF<W>| -> (r: GF<W>) ensures forall|i: int| 0 <= i < cpos@.len() && *v == #[trigger] cpos@[i] ==> r == prod(factors(cpos@, i, *v))
//@closure 1
    |x: &GF<W>| -> (r: GF<W>) ensures r == if *v == *x { one::<W>() } else { add(*v, *x) }
//@closure 2
    || -> (r: GF<W>) ensures r == one::<W>()
//@closure 3
    |acc: GF<W>, x: GF<W>| -> (r: GF<W>) ensures r == mul(acc, x)
//@closure 4
    |v: &GF<W>| -> (r: Vec<GF<W>>) ensures r@ =~= lagrow(cpos@, *v)
//@closure 5
    |x: &GF<W>| -> (r: bool) ensures r == (*x == *v)
//@closure 6
    |x: &GF<W>| -> (r: GF<W>) ensures r == add(*v, *x)
//@closure 7
    || -> (r: GF<W>) ensures r == one::<W>()
//@closure 8
    |acc: GF<W>, x: GF<W>| -> (r: GF<W>) ensures r == mul(acc, x)
//@closure 9
    |p: (&GF<W>, &GF<W>)| -> (r: GF<W>) requires mul(add(*v, *p.0), *p.1) != zero::<W>() ensures r == div(numerator, mul(add(*v, *p.0), *p.1))
//@end

// What other units assume of it.
//@spec sh_theory.vrs | takes
//@spec posns.vrs | countable
//@stub sh_base.vrs | - | lagrange_coeffs
    lagrange_coeffs(cpos, npos)
//@end
//@stub posns.vrs | - | lagrange_coeffs
    lagrange_coeffs(cpos, npos)
//@end
} // verus!
