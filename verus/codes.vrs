// Code and extraction matrices (C07): rs_gen_mat and super_inv_matrix in src/math/mod.rs
use vstd::prelude::*;
verus! {
//@std gf for arr
//@include gf.vrs
//@include iter.vrs
//@include nda.vrs
//@include nda_ops.vrs
//@include poly.vrs

// x^(j+1)
pub open spec fn power<const W: u8>(x: GF<W>, j: int) -> GF<W> decreases j { if j <= 0 { x } else { mul(x, power(x, j - 1)) } }
pub open spec fn symbol<const W: u8>(i: int) -> GF<W> { gf::<W>((i + 1) as u32) }

//@fn src/math/mod.rs | - | rs_gen_mat
//@contract
    requires 1 <= mssg_len, code_len + 1 <= u32::MAX
    ensures res.rows() == code_len, res.cols() == mssg_len, forall|i: int, j: int| 0 <= i < code_len && 0 <= j < mssg_len ==> #[trigger] res.at(i, j) == power(symbol::<W>(i), j)
//@loop 0
    invariant
        matrix.rows() == code_len, matrix.cols() == __k0 + 1, col@.len() == code_len, __s0@.len() == mssg_len - 1, forall|k: int| 0 <= k < __s0@.len() ==> (#[trigger] __s0@[k]) == k,
        code_len + 1 <= u32::MAX, forall|i: int| 0 <= i < code_len ==> #[trigger] col@[i] == symbol::<W>(i),
        forall|i: int, j: int| 0 <= i < code_len && 0 <= j < matrix.cols() ==> #[trigger] matrix.at(i, j) == power(symbol::<W>(i), j),
//@loopstart 0
    proof { algebra::<W>(); }
//@end
//@fn src/math/mod.rs | - | super_inv_matrix
//@rewrite ?debug_assert!\([^;]*\); ==> <nothing> # debug assertion of the precondition
//@contract
    requires 1 <= num_out <= num_inp, num_inp + 1 <= u32::MAX
    ensures res.rows() == num_out, res.cols() == num_inp, forall|i: int, j: int| 0 <= i < num_out && 0 <= j < num_inp ==> #[trigger] res.at(i, j) == power(symbol::<W>(j), i)
//@end

// Combination of the powers x^1 .. x^k with coefficients m.
pub open spec fn comb<const W: u8>(m: Seq<GF<W>>, x: GF<W>, k: int) -> GF<W> decreases k {
    if k <= 0 { zero() } else { add(comb(m, x, k - 1), mul(m[k - 1], power(x, k - 1))) }
}
pub proof fn power_shift<const W: u8>(x: GF<W>, j: int) ensures j >= 0 ==> power(x, j + 1) == mul(x, power(x, j)) { }
// m_0 x + m_1 x^2 + ... = x m(x)
pub proof fn comb_ev<const W: u8>(m: Seq<GF<W>>, x: GF<W>)
    ensures comb(m, x, m.len() as int) == mul(x, ev(m, x))
    decreases m.len()
{
    if m.len() == 0 { l_mul_zero(x); } else {
        let d = m.drop_first();
        comb_ev(d, x);
        comb_first(m, x, m.len() as int);
        a_dist(x, m[0], mul(x, ev(d, x)));
        a_mul_comm(m[0], x);
    }
}
pub proof fn comb_first<const W: u8>(m: Seq<GF<W>>, x: GF<W>, k: int)
    requires 1 <= k <= m.len()
    ensures comb(m, x, k) == add(mul(m[0], x), mul(x, comb(m.drop_first(), x, k - 1)))
    decreases k
{
    let d = m.drop_first();
    if k == 1 {
        l_mul_zero(x); a_add_zero(mul(m[0], x)); l_zero_add(mul(m[0], x));
        assert(comb(m, x, 0) == zero::<W>());
        assert(comb(d, x, 0) == zero::<W>());
        assert(power(x, 0) == x);
    } else {
        comb_first(m, x, k - 1);
        let t = mul(m[k - 1], power(x, k - 1));
        let p = power(x, k - 2);
        l_mswap(m[k - 1], x, p);
        a_dist(x, comb(d, x, k - 2), mul(d[k - 2], p));
        a_add_assoc(mul(m[0], x), mul(x, comb(d, x, k - 2)), t);
    }
}
// The symbols of places below the field size are distinct and not zero.
pub proof fn symbols_apart<const W: u8>(n: int)
    requires 1 <= W <= 31, n < pow2w(W)
    ensures forall|i: int| 0 <= i < n ==> #[trigger] symbol::<W>(i) != zero::<W>(), forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j ==> #[trigger] symbol::<W>(i) != #[trigger] symbol::<W>(j)
{
    if W < 31 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(W as nat, 31); }
    vstd::arithmetic::power2::lemma2_to64();
    a_consts::<W>();
    assert forall|i: int| 0 <= i < n implies #[trigger] symbol::<W>(i) != zero::<W>() by { a_gf::<W>((i + 1) as u32); a_gf::<W>(0); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && i != j implies #[trigger] symbol::<W>(i) != #[trigger] symbol::<W>(j) by { a_gf::<W>((i + 1) as u32); a_gf::<W>((j + 1) as u32); }
}
// A message is determined by any set of as many code symbols as it is long: sel are their places, and row r of the
// generator gives the symbol comb(m, symbol(r)).
pub proof fn decodable<const W: u8>(m1: Seq<GF<W>>, m2: Seq<GF<W>>, sel: Seq<int>, n: int)
    requires
        1 <= W <= 31, n < pow2w(W), m1.len() == m2.len(), sel.len() >= m1.len(), distinct(sel), forall|k: int| 0 <= k < sel.len() ==> 0 <= #[trigger] sel[k] < n,
        forall|k: int| 0 <= k < m1.len() ==> comb(m1, symbol::<W>(#[trigger] sel[k]), m1.len() as int) == comb(m2, symbol::<W>(sel[k]), m2.len() as int),
    ensures m1 == m2
{
    symbols_apart::<W>(n);
    let s = Seq::new(sel.len(), |k: int| symbol::<W>(sel[k]));
    assert forall|i: int| 0 <= i < m1.len() implies ev(m1, #[trigger] s[i]) == ev(m2, s[i]) by {
        let x = s[i];
        assert(x == symbol::<W>(sel[i]));
        comb_ev(m1, x); comb_ev(m2, x);
        let (a, b) = (ev(m1, x), ev(m2, x));
        // x a = x b and x is not zero
        a_dist(x, a, b);
        a_add_self(mul(x, a));
        l_nozero(x, add(a, b));
        l_eq(a, b);
    }
    assert(distinct(s)) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(sel[i] != sel[j]); }
    }
    coeffs_agree(m1, m2, s);
}
// And any symbols at as many places as the message is long belong to a message: together with decodable, the square
// matrix of any such rows of the generator (columns of the extraction matrix) maps messages to symbols one to one and onto.
pub proof fn attainable<const W: u8>(y: Seq<GF<W>>, sel: Seq<int>, n: int) -> (m: Seq<GF<W>>)
    requires 1 <= W <= 31, n < pow2w(W), sel.len() == y.len(), distinct(sel), forall|k: int| 0 <= k < sel.len() ==> 0 <= #[trigger] sel[k] < n
    ensures m.len() == y.len(), forall|k: int| 0 <= k < y.len() ==> comb(m, symbol::<W>(#[trigger] sel[k]), m.len() as int) == y[k]
{
    symbols_apart::<W>(n);
    let s = Seq::new(sel.len(), |k: int| symbol::<W>(sel[k]));
    let v = Seq::new(sel.len(), |k: int| div(y[k], s[k]));
    assert(distinct(s)) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(sel[i] != sel[j]); }
    }
    let m = exists_poly(s, v);
    assert forall|k: int| 0 <= k < y.len() implies comb(m, symbol::<W>(#[trigger] sel[k]), m.len() as int) == y[k] by {
        let x = s[k];
        comb_ev(m, x);
        assert(ev(m, s[k]) == v[k]);
        a_mul_comm(y[k], inv(x));
        a_mul_assoc(x, inv(x), y[k]);
        a_inv(x);
        l_one_mul(y[k]);
    }
    m
}
// comb is the dot product with a row of the generator.
pub proof fn comb_dot<const W: u8>(m: Seq<GF<W>>, row: Seq<GF<W>>, x: GF<W>, k: int)
    requires 0 <= k <= m.len(), row.len() == m.len(), forall|j: int| 0 <= j < row.len() ==> #[trigger] row[j] == power(x, j)
    ensures comb(m, x, k) == dot(m.take(k), row.take(k))
    decreases k
{
    if k > 0 {
        comb_dot(m, row, x, k - 1);
        assert(m.take(k).drop_last() =~= m.take(k - 1));
        assert(row.take(k).drop_last() =~= row.take(k - 1));
    }
}
// What the garbling assumes of it.
//@spec wires.vrs | is_code
//@stub wires.vrs | - | rs_gen_mat
    rs_gen_mat(mssg_len, code_len)
//@end
} // verus!
