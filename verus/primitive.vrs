// The polynomials are primitive: 2 has order 2^w - 1 for every width 1..=29 (computed by the verifier from the table in the source).
pub open spec fn stepc(nw: i32, m: i32, p: i32, x: i32) -> i32 {
    if (x << 1) & nw != 0 { ((x << 1) ^ p) & m } else { x << 1 }
}
// Shift-and-add multiplication, and powers of 2 by squaring.
pub open spec fn mulc(nw: i32, m: i32, p: i32, x: i32, y: int) -> i32 decreases y {
    if y <= 0 { 0 } else { (if y % 2 == 1 { x } else { 0 }) ^ stepc(nw, m, p, mulc(nw, m, p, x, y / 2)) }
}
pub open spec fn fastc(nw: i32, m: i32, p: i32, e: int) -> i32 decreases e {
    if e <= 0 { 1 } else { let h = fastc(nw, m, p, e / 2); let s = mulc(nw, m, p, h, h as int); if e % 2 == 1 { stepc(nw, m, p, s) } else { s } }
}
spec fn mulw(w: int, x: i32, y: int) -> i32 { mulc(nw_s(w), nwm1_s(w), prim_poly_s(w), x, y) }
spec fn fastw(w: int, e: int) -> i32 { fastc(nw_s(w), nwm1_s(w), prim_poly_s(w), e) }
proof fn mulw_step(w: int, x: i32, y: int)
    requires 1 <= w <= 29, el(w, x)
    ensures el(w, mulw(w, x, y)), mulw(w, step(w, x), y) == step(w, mulw(w, x, y)), el(w, step(w, x))
    decreases y
{
    tables(w);
    step_facts(w, x);
    step_facts(w, 0);
    if y > 0 {
        mulw_step(w, x, y / 2);
        let r = mulw(w, x, y / 2);
        step_facts(w, r);
        let a = if y % 2 == 1 { x } else { 0 };
        step_lin(w, a, step(w, r));
        assert(mulw(w, x, y) == a ^ step(w, r));
        let b = if y % 2 == 1 { step(w, x) } else { 0 };
        assert(mulw(w, step(w, x), y) == b ^ step(w, mulw(w, step(w, x), y / 2)));
    }
}
proof fn mulw_one(w: int, y: i32)
    requires 1 <= w <= 29, el(w, y)
    ensures mulw(w, 1, y as int) == y
    decreases y
{
    tables(w);
    if y > 0 {
        let h = (y / 2) as i32;
        mulw_one(w, h);
        let (k, nw) = (w as u32, nw_s(w));
        let a = if y % 2 == 1 { 1i32 } else { 0 };
        assert((h << 1) & nw == 0 && a ^ (h << 1) == y) by (bit_vector)
            requires 1 <= k <= 29, nw == 1i32 << k, 0 < y < nw, h == y / 2, a == (if y % 2 == 1 { 1i32 } else { 0i32 });
        assert(mulw(w, 1, y as int) == a ^ step(w, mulw(w, 1, h as int)));
    }
}
proof fn mulw_pw(w: int, a: int, b: int)
    requires 1 <= w <= 29, 0 <= a, 0 <= b
    ensures mulw(w, pw(w, a), pw(w, b) as int) == pw(w, a + b)
    decreases a
{
    pw_range(w, b);
    if a == 0 { mulw_one(w, pw(w, b)); } else { pw_range(w, a - 1); mulw_pw(w, a - 1, b); mulw_step(w, pw(w, a - 1), pw(w, b) as int); }
}
proof fn fastw_pw(w: int, e: int)
    requires 1 <= w <= 29, 0 <= e
    ensures fastw(w, e) == pw(w, e)
    decreases e
{
    if e > 0 {
        fastw_pw(w, e / 2);
        mulw_pw(w, e / 2, e / 2);
        if e % 2 == 1 { assert(e == e / 2 + e / 2 + 1); } else { assert(e == e / 2 + e / 2); }
    }
}
// Prime numbers.
pub open spec fn prime(p: int) -> bool { p >= 2 && forall|a: int| 2 <= a < p ==> #[trigger] (p % a) != 0 }
pub open spec fn no_div(p: int, a: int) -> bool decreases p - a { if a < 2 || a >= p || a * a > p { true } else { p % a != 0 && no_div(p, a + 1) } }
proof fn no_div_at(p: int, a: int, b: int)
    requires 2 <= a <= b < p, b * b <= p, no_div(p, a)
    ensures p % b != 0
    decreases b - a
{
    assert(a * a <= p) by (nonlinear_arith) requires a <= b, 2 <= a, b * b <= p;
    if a < b { no_div_at(p, a + 1, b); }
}
proof fn no_div_prime(p: int)
    requires p >= 2, no_div(p, 2)
    ensures prime(p)
{
    assert forall|a: int| 2 <= a < p implies #[trigger] (p % a) != 0 by {
        if p % a == 0 {
            let b = p / a;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, a);
            assert(2 <= b < p) by (nonlinear_arith) requires p == a * b, 2 <= a < p;
            vstd::arithmetic::div_mod::lemma_mod_multiples_basic(a, b);
            if a * a <= p { no_div_at(p, 2, a); } else {
                assert(b * b <= p) by (nonlinear_arith) requires p == a * b, a * a > p, 2 <= b, 2 <= a;
                no_div_at(p, 2, b);
            }
        }
    }
}
// p divides a product only if it divides a factor.
proof fn euclid(p: int, a: int, q: int)
    requires prime(p), 0 < a < p, (a * q) % p == 0
    ensures q % p == 0
    decreases a
{
    if a > 1 {
        let (k, r) = (p / a, p % a);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p, a);
        vstd::arithmetic::div_mod::lemma_mod_bound(p, a);
        let c = (a * q) / p;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a * q, p);
        assert(r * q == (q - k * c) * p) by (nonlinear_arith) requires p == a * k + r, a * q == p * c;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q - k * c, p);
        euclid(p, r, q);
    } else {
        assert(a * q == q) by (nonlinear_arith) requires a == 1;
    }
}
pub open spec fn prod(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 1 } else { s[0] * prod(s.subrange(1, s.len() as int)) } }
// A divisor other than 1 of a product of primes is divided by one of them.
proof fn factor(s: Seq<int>, m: int) -> (i: int)
    requires m >= 2, prod(s) % m == 0, forall|i: int| 0 <= i < s.len() ==> prime(#[trigger] s[i])
    ensures 0 <= i < s.len(), m % s[i] == 0
    decreases s.len()
{
    if s.len() == 0 {
        vstd::arithmetic::div_mod::lemma_small_mod(1, m as nat);
        0
    } else {
        let p = s[0];
        assert(prime(p));
        if m % p == 0 { 0 } else {
            let t = s.subrange(1, s.len() as int);
            let r = prod(t);
            let q = (p * r) / m;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(p * r, m);
            let (a, k) = (m % p, m / p);
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, p);
            vstd::arithmetic::div_mod::lemma_mod_bound(m, p);
            assert(a * q == (r - k * q) * p) by (nonlinear_arith) requires m == p * k + a, p * r == m * q;
            vstd::arithmetic::div_mod::lemma_mod_multiples_basic(r - k * q, p);
            euclid(p, a, q);
            let c = q / p;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, p);
            assert(r == c * m) by (nonlinear_arith) requires p * r == m * q, q == p * c, p >= 2;
            vstd::arithmetic::div_mod::lemma_mod_multiples_basic(c, m);
            assert forall|i: int| 0 <= i < t.len() implies prime(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); }
            let i = factor(t, m);
            assert(t[i] == s[i + 1]);
            i + 1
        }
    }
}
// Every prime of the list is one, their product is n, and 2^(n / q) is not 1.
pub open spec fn good(nw: i32, m: i32, p: i32, s: Seq<int>, i: int) -> bool decreases s.len() - i {
    if i < 0 || i >= s.len() { true } else { s[i] >= 2 && no_div(s[i], 2) && (m as int) % s[i] == 0 && fastc(nw, m, p, (m as int) / s[i]) != 1 && good(nw, m, p, s, i + 1) }
}
pub open spec fn order(nw: i32, m: i32, p: i32, s: Seq<int>) -> bool {
    prod(s) == m as int && fastc(nw, m, p, m as int) == 1 && good(nw, m, p, s, 0)
}
proof fn good_at(nw: i32, m: i32, p: i32, s: Seq<int>, i: int, j: int)
    requires 0 <= i <= j < s.len(), good(nw, m, p, s, i)
    ensures prime(s[j]), (m as int) % s[j] == 0, fastc(nw, m, p, (m as int) / s[j]) != 1
    decreases j - i
{
    if i < j { good_at(nw, m, p, s, i + 1, j); } else { no_div_prime(s[i]); }
}
proof fn back(w: int, i: int, j: int)
    requires 1 <= w <= 29, 0 <= i < j, pw(w, i) == pw(w, j)
    ensures pw(w, j - i) == 1
    decreases i
{
    if i > 0 {
        pw_range(w, i - 1);
        pw_range(w, j - 1);
        step_inj(w, pw(w, i - 1), pw(w, j - 1));
        back(w, i - 1, j - 1);
    }
}
proof fn turn(w: int, d: int, k: int, r: int)
    requires 1 <= w <= 29, 0 < d, pw(w, d) == 1, 0 <= k, 0 <= r
    ensures pw(w, d * k + r) == pw(w, r)
    decreases k
{
    if k > 0 {
        turn(w, d, k - 1, r);
        steps_pw(w, d * (k - 1) + r, d);
        steps_pw(w, d * (k - 1) + r, 0);
        assert(d * (k - 1) + r >= 0 && d * k + r == d * (k - 1) + r + d) by (nonlinear_arith) requires d > 0, k > 0, r >= 0;
    } else {
        assert(d * 0 == 0);
    }
}
proof fn not_one(w: int, s: Seq<int>, d: int)
    requires 1 <= w <= 29, order(nw_s(w), nwm1_s(w), prim_poly_s(w), s), 0 < d < nwm1_s(w)
    ensures pw(w, d) != 1
    decreases d
{
    tables(w);
    let n = nwm1_s(w) as int;
    fastw_pw(w, n);
    if pw(w, d) == 1 {
        let (m, r) = (n / d, n % d);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
        vstd::arithmetic::div_mod::lemma_mod_bound(n, d);
        assert(m >= 1) by (nonlinear_arith) requires n == d * m + r, r < d, d < n, d > 0;
        turn(w, d, m, r);
        if r > 0 { not_one(w, s, r); }
        assert(m >= 2) by (nonlinear_arith) requires n == d * m, d < n, d > 0, m >= 1;
        vstd::arithmetic::div_mod::lemma_mod_multiples_basic(d, m);
        assert forall|i: int| 0 <= i < s.len() implies prime(#[trigger] s[i]) by { good_at(nw_s(w), nwm1_s(w), prim_poly_s(w), s, 0, i); }
        let i = factor(s, m);
        let (q, c) = (s[i], m / s[i]);
        good_at(nw_s(w), nwm1_s(w), prim_poly_s(w), s, 0, i);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, q);
        assert(n == q * (d * c)) by (nonlinear_arith) requires n == d * m, m == q * c;
        assert(c >= 0) by (nonlinear_arith) requires m == q * c, m >= 2, q >= 2;
        vstd::arithmetic::div_mod::lemma_div_multiples_vanish(d * c, q);
        assert(n / q == d * c);
        assert(d * c >= 0) by (nonlinear_arith) requires d > 0, c >= 0;
        turn(w, d, c, 0);
        fastw_pw(w, n / q);
    }
}
proof fn order_prim(w: int, s: Seq<int>)
    requires 1 <= w <= 29, order(nw_s(w), nwm1_s(w), prim_poly_s(w), s)
    ensures primitive(w)
{
    assert forall|i: int, j: int| 0 <= i < j < nwm1_s(w) implies #[trigger] pw(w, i) != #[trigger] pw(w, j) by {
        if pw(w, i) == pw(w, j) { back(w, i, j); not_one(w, s, j - i); }
    }
}
proof fn prim1() ensures primitive(1) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(1), nwm1_s(1), prim_poly_s(1), Seq::<int>::empty())) by (compute_only);
    order_prim(1, Seq::<int>::empty());
}
proof fn prim2() ensures primitive(2) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(2), nwm1_s(2), prim_poly_s(2), seq![3int])) by (compute_only);
    order_prim(2, seq![3int]);
}
proof fn prim3() ensures primitive(3) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(3), nwm1_s(3), prim_poly_s(3), seq![7int])) by (compute_only);
    order_prim(3, seq![7int]);
}
proof fn prim4() ensures primitive(4) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(4), nwm1_s(4), prim_poly_s(4), seq![3int, 5int])) by (compute_only);
    order_prim(4, seq![3int, 5int]);
}
proof fn prim5() ensures primitive(5) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(5), nwm1_s(5), prim_poly_s(5), seq![31int])) by (compute_only);
    order_prim(5, seq![31int]);
}
proof fn prim6() ensures primitive(6) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(6), nwm1_s(6), prim_poly_s(6), seq![3int, 3int, 7int])) by (compute_only);
    order_prim(6, seq![3int, 3int, 7int]);
}
proof fn prim7() ensures primitive(7) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(7), nwm1_s(7), prim_poly_s(7), seq![127int])) by (compute_only);
    order_prim(7, seq![127int]);
}
proof fn prim8() ensures primitive(8) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(8), nwm1_s(8), prim_poly_s(8), seq![3int, 5int, 17int])) by (compute_only);
    order_prim(8, seq![3int, 5int, 17int]);
}
proof fn prim9() ensures primitive(9) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(9), nwm1_s(9), prim_poly_s(9), seq![7int, 73int])) by (compute_only);
    order_prim(9, seq![7int, 73int]);
}
proof fn prim10() ensures primitive(10) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(10), nwm1_s(10), prim_poly_s(10), seq![3int, 11int, 31int])) by (compute_only);
    order_prim(10, seq![3int, 11int, 31int]);
}
proof fn prim11() ensures primitive(11) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(11), nwm1_s(11), prim_poly_s(11), seq![23int, 89int])) by (compute_only);
    order_prim(11, seq![23int, 89int]);
}
proof fn prim12() ensures primitive(12) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(12), nwm1_s(12), prim_poly_s(12), seq![3int, 3int, 5int, 7int, 13int])) by (compute_only);
    order_prim(12, seq![3int, 3int, 5int, 7int, 13int]);
}
proof fn prim13() ensures primitive(13) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(13), nwm1_s(13), prim_poly_s(13), seq![8191int])) by (compute_only);
    order_prim(13, seq![8191int]);
}
proof fn prim14() ensures primitive(14) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(14), nwm1_s(14), prim_poly_s(14), seq![3int, 43int, 127int])) by (compute_only);
    order_prim(14, seq![3int, 43int, 127int]);
}
proof fn prim15() ensures primitive(15) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(15), nwm1_s(15), prim_poly_s(15), seq![7int, 31int, 151int])) by (compute_only);
    order_prim(15, seq![7int, 31int, 151int]);
}
proof fn prim16() ensures primitive(16) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(16), nwm1_s(16), prim_poly_s(16), seq![3int, 5int, 17int, 257int])) by (compute_only);
    order_prim(16, seq![3int, 5int, 17int, 257int]);
}
proof fn prim17() ensures primitive(17) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(17), nwm1_s(17), prim_poly_s(17), seq![131071int])) by (compute_only);
    order_prim(17, seq![131071int]);
}
proof fn prim18() ensures primitive(18) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(18), nwm1_s(18), prim_poly_s(18), seq![3int, 3int, 3int, 7int, 19int, 73int])) by (compute_only);
    order_prim(18, seq![3int, 3int, 3int, 7int, 19int, 73int]);
}
proof fn prim19() ensures primitive(19) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(19), nwm1_s(19), prim_poly_s(19), seq![524287int])) by (compute_only);
    order_prim(19, seq![524287int]);
}
proof fn prim20() ensures primitive(20) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(20), nwm1_s(20), prim_poly_s(20), seq![3int, 5int, 5int, 11int, 31int, 41int])) by (compute_only);
    order_prim(20, seq![3int, 5int, 5int, 11int, 31int, 41int]);
}
proof fn prim21() ensures primitive(21) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(21), nwm1_s(21), prim_poly_s(21), seq![7int, 7int, 127int, 337int])) by (compute_only);
    order_prim(21, seq![7int, 7int, 127int, 337int]);
}
proof fn prim22() ensures primitive(22) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(22), nwm1_s(22), prim_poly_s(22), seq![3int, 23int, 89int, 683int])) by (compute_only);
    order_prim(22, seq![3int, 23int, 89int, 683int]);
}
proof fn prim23() ensures primitive(23) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(23), nwm1_s(23), prim_poly_s(23), seq![47int, 178481int])) by (compute_only);
    order_prim(23, seq![47int, 178481int]);
}
proof fn prim24() ensures primitive(24) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(24), nwm1_s(24), prim_poly_s(24), seq![3int, 3int, 5int, 7int, 13int, 17int, 241int])) by (compute_only);
    order_prim(24, seq![3int, 3int, 5int, 7int, 13int, 17int, 241int]);
}
proof fn prim25() ensures primitive(25) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(25), nwm1_s(25), prim_poly_s(25), seq![31int, 601int, 1801int])) by (compute_only);
    order_prim(25, seq![31int, 601int, 1801int]);
}
proof fn prim26() ensures primitive(26) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(26), nwm1_s(26), prim_poly_s(26), seq![3int, 2731int, 8191int])) by (compute_only);
    order_prim(26, seq![3int, 2731int, 8191int]);
}
proof fn prim27() ensures primitive(27) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(27), nwm1_s(27), prim_poly_s(27), seq![7int, 73int, 262657int])) by (compute_only);
    order_prim(27, seq![7int, 73int, 262657int]);
}
proof fn prim28() ensures primitive(28) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(28), nwm1_s(28), prim_poly_s(28), seq![3int, 5int, 29int, 43int, 113int, 127int])) by (compute_only);
    order_prim(28, seq![3int, 5int, 29int, 43int, 113int, 127int]);
}
proof fn prim29() ensures primitive(29) {
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(order(nw_s(29), nwm1_s(29), prim_poly_s(29), seq![233int, 1103int, 2089int])) by (compute_only);
    order_prim(29, seq![233int, 1103int, 2089int]);
}
pub proof fn prim(w: int)
    requires 1 <= w <= 29
    ensures primitive(w)
{
    if w == 1 { prim1(); }
    else if w == 2 { prim2(); }
    else if w == 3 { prim3(); }
    else if w == 4 { prim4(); }
    else if w == 5 { prim5(); }
    else if w == 6 { prim6(); }
    else if w == 7 { prim7(); }
    else if w == 8 { prim8(); }
    else if w == 9 { prim9(); }
    else if w == 10 { prim10(); }
    else if w == 11 { prim11(); }
    else if w == 12 { prim12(); }
    else if w == 13 { prim13(); }
    else if w == 14 { prim14(); }
    else if w == 15 { prim15(); }
    else if w == 16 { prim16(); }
    else if w == 17 { prim17(); }
    else if w == 18 { prim18(); }
    else if w == 19 { prim19(); }
    else if w == 20 { prim20(); }
    else if w == 21 { prim21(); }
    else if w == 22 { prim22(); }
    else if w == 23 { prim23(); }
    else if w == 24 { prim24(); }
    else if w == 25 { prim25(); }
    else if w == 26 { prim26(); }
    else if w == 27 { prim27(); }
    else if w == 28 { prim28(); }
    else if w == 29 { prim29(); }
}
