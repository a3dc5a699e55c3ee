// The field of the tables: x -> 2 x modulo the width's polynomial, the powers of 2, and the arithmetic they define.
pub open spec fn step(w: int, x: i32) -> i32 {
    if (x << 1) & nw_s(w) != 0 { ((x << 1) ^ prim_poly_s(w)) & nwm1_s(w) } else { x << 1 }
}
// 2^j
pub open spec fn pw(w: int, j: int) -> i32 decreases j { if j <= 0 { 1 } else { step(w, pw(w, j - 1)) } }
pub open spec fn distinct(w: int, k: int) -> bool { forall|i: int, j: int| 0 <= i < j < k ==> #[trigger] pw(w, i) != #[trigger] pw(w, j) }
pub open spec fn primitive(w: int) -> bool { distinct(w, nwm1_s(w) as int) }
pub open spec fn is_lg(w: int, x: i32, j: int) -> bool { 0 <= j < nwm1_s(w) && pw(w, j) == x }
pub open spec fn lg(w: int, x: i32) -> int { choose|j: int| is_lg(w, x, j) }
pub open spec fn el(w: int, x: i32) -> bool { 0 <= x <= nwm1_s(w) }
pub open spec fn fmul(w: int, x: i32, y: i32) -> i32 { if x == 0 || y == 0 { 0 } else { pw(w, lg(w, x) + lg(w, y)) } }
pub open spec fn finv(w: int, x: i32) -> i32 { pw(w, nwm1_s(w) - lg(w, x)) }

// What the constant tables must satisfy.
pub proof fn tables(w: int)
    requires 1 <= w <= 29
    ensures nw_s(w) == 1i32 << (w as u32), nwm1_s(w) == nw_s(w) - 1, prim_poly_s(w) & 1 == 1, nw_s(w) >= 2, nw_s(w) <= 0x2000_0000,
{
    reveal(nw_s); reveal(nwm1_s); reveal(prim_poly_s);
    assert(1i32 << 1u32 == 2 && 1i32 << 2u32 == 4 && 1i32 << 3u32 == 8 && 1i32 << 4u32 == 16 && 1i32 << 5u32 == 32 && 1i32 << 6u32 == 64 && 1i32 << 7u32 == 128 && 1i32 << 8u32 == 256 && 1i32 << 9u32 == 512 && 1i32 << 10u32 == 1024
        && 1i32 << 11u32 == 2048 && 1i32 << 12u32 == 4096 && 1i32 << 13u32 == 8192 && 1i32 << 14u32 == 16384 && 1i32 << 15u32 == 32768 && 1i32 << 16u32 == 65536 && 1i32 << 17u32 == 131072 && 1i32 << 18u32 == 262144 && 1i32 << 19u32 == 524288 && 1i32 << 20u32 == 1048576
        && 1i32 << 21u32 == 2097152 && 1i32 << 22u32 == 4194304 && 1i32 << 23u32 == 8388608 && 1i32 << 24u32 == 16777216 && 1i32 << 25u32 == 33554432 && 1i32 << 26u32 == 67108864 && 1i32 << 27u32 == 134217728 && 1i32 << 28u32 == 268435456 && 1i32 << 29u32 == 536870912) by (bit_vector);
    assert forall|p: i32| #![trigger p & 1] p % 2 == 1 && p > 0 implies p & 1 == 1 by { assert(p & 1 == 1) by (bit_vector) requires p % 2 == 1 && p > 0; }
}
pub proof fn step_facts(w: int, x: i32)
    requires 1 <= w <= 29, el(w, x)
    ensures el(w, step(w, x)), x != 0 ==> step(w, x) != 0, step(w, 0) == 0,
{
    tables(w);
    let (k, nw, m, p) = (w as u32, nw_s(w), nwm1_s(w), prim_poly_s(w));
    assert(0 <= (if (x << 1) & nw != 0 { ((x << 1) ^ p) & m } else { x << 1 }) < nw) by (bit_vector) requires 1 <= k <= 29, nw == 1i32 << k, 0 <= x < nw, m == sub(nw, 1);
    if x != 0 {
        assert((if (x << 1) & nw != 0 { ((x << 1) ^ p) & m } else { x << 1 }) != 0) by (bit_vector) requires 1 <= k <= 29, nw == 1i32 << k, 0 <= x < nw, m == sub(nw, 1), p & 1 == 1, x != 0;
    }
    assert((0i32 << 1) & nw == 0 && 0i32 << 1 == 0) by (bit_vector);
}
pub proof fn step_inj(w: int, x: i32, y: i32)
    requires 1 <= w <= 29, el(w, x), el(w, y), step(w, x) == step(w, y)
    ensures x == y
{
    tables(w);
    let (k, nw, m, p) = (w as u32, nw_s(w), nwm1_s(w), prim_poly_s(w));
    assert(x == y) by (bit_vector) requires 1 <= k <= 29, nw == 1i32 << k, 0 <= x < nw, 0 <= y < nw, m == sub(nw, 1), p & 1 == 1,
        (if (x << 1) & nw != 0 { ((x << 1) ^ p) & m } else { x << 1 }) == (if (y << 1) & nw != 0 { ((y << 1) ^ p) & m } else { y << 1 });
}
pub proof fn step_lin(w: int, x: i32, y: i32)
    requires 1 <= w <= 29, el(w, x), el(w, y)
    ensures el(w, x ^ y), step(w, x ^ y) == step(w, x) ^ step(w, y)
{
    tables(w);
    let (k, nw, m, p) = (w as u32, nw_s(w), nwm1_s(w), prim_poly_s(w));
    assert(0 <= x ^ y < nw) by (bit_vector) requires 1 <= k <= 29, nw == 1i32 << k, 0 <= x < nw, 0 <= y < nw;
    assert((if ((x ^ y) << 1) & nw != 0 { (((x ^ y) << 1) ^ p) & m } else { (x ^ y) << 1 })
        == (if (x << 1) & nw != 0 { ((x << 1) ^ p) & m } else { x << 1 }) ^ (if (y << 1) & nw != 0 { ((y << 1) ^ p) & m } else { y << 1 })) by (bit_vector)
        requires 1 <= k <= 29, nw == 1i32 << k, 0 <= x < nw, 0 <= y < nw, m == sub(nw, 1);
}
pub proof fn pw_range(w: int, j: int)
    requires 1 <= w <= 29
    ensures el(w, pw(w, j)), pw(w, j) != 0
    decreases j
{
    tables(w);
    if j > 0 { pw_range(w, j - 1); step_facts(w, pw(w, j - 1)); }
}
// Every element other than zero is a power: n different powers among n elements.
pub proof fn onto(w: int, x: i32)
    requires 1 <= w <= 29, primitive(w), el(w, x), x != 0
    ensures is_lg(w, x, lg(w, x))
{
    tables(w);
    let n = nwm1_s(w) as int;
    let s = Seq::new(n as nat, |j: int| pw(w, j) as int);
    assert(s.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { } else { } }
    }
    s.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(1, n + 1);
    let r = vstd::set_lib::set_int_range(1, n + 1);
    assert forall|y: int| s.to_set().contains(y) implies r.contains(y) by {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == y;
        pw_range(w, j);
    }
    vstd::set_lib::lemma_subset_equality(s.to_set(), r);
    assert(r.contains(x as int));
    assert(s.contains(x as int));
    let j = choose|j: int| 0 <= j < s.len() && s[j] == x as int;
    assert(is_lg(w, x, j));
}
pub proof fn lg_is(w: int, x: i32, j: int)
    requires 1 <= w <= 29, primitive(w), is_lg(w, x, j)
    ensures lg(w, x) == j
{
    assert(is_lg(w, x, lg(w, x)));
    let k = lg(w, x);
    if j < k { assert(pw(w, j) != pw(w, k)); }
    if k < j { assert(pw(w, k) != pw(w, j)); }
}
pub proof fn cycle(w: int)
    requires 1 <= w <= 29, primitive(w)
    ensures pw(w, nwm1_s(w) as int) == 1
{
    tables(w);
    let n = nwm1_s(w) as int;
    pw_range(w, n);
    onto(w, pw(w, n));
    let i = lg(w, pw(w, n));
    if i > 0 {
        pw_range(w, i - 1);
        pw_range(w, n - 1);
        step_inj(w, pw(w, i - 1), pw(w, n - 1));
        assert(pw(w, i - 1) != pw(w, n - 1));
    }
}
pub proof fn period(w: int, j: int)
    requires 1 <= w <= 29, primitive(w), j >= 0
    ensures pw(w, j + nwm1_s(w)) == pw(w, j)
    decreases j
{
    tables(w);
    cycle(w);
    if j > 0 { period(w, j - 1); }
}
pub proof fn reduce(w: int, j: int)
    requires 1 <= w <= 29, primitive(w), j >= 0
    ensures pw(w, j) == pw(w, j % (nwm1_s(w) as int)), lg(w, pw(w, j)) == j % (nwm1_s(w) as int)
    decreases j
{
    tables(w);
    let n = nwm1_s(w) as int;
    if j >= n {
        reduce(w, j - n);
        period(w, j - n);
        vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(j, n);
    } else {
        vstd::arithmetic::div_mod::lemma_small_mod(j as nat, n as nat);
        assert(is_lg(w, pw(w, j), j));
        lg_is(w, pw(w, j), j);
    }
}
// Multiplication by 2^i is i steps, for every element.
pub open spec fn steps(w: int, i: int, x: i32) -> i32 decreases i { if i <= 0 { x } else { step(w, steps(w, i - 1, x)) } }
pub proof fn steps_pw(w: int, i: int, j: int)
    requires 1 <= w <= 29, 0 <= i, 0 <= j
    ensures steps(w, i, pw(w, j)) == pw(w, i + j)
    decreases i
{
    if i > 0 { steps_pw(w, i - 1, j); }
}
pub proof fn steps_lin(w: int, i: int, x: i32, y: i32)
    requires 1 <= w <= 29, el(w, x), el(w, y)
    ensures steps(w, i, x ^ y) == steps(w, i, x) ^ steps(w, i, y), el(w, steps(w, i, x)), el(w, steps(w, i, y)), steps(w, i, 0) == 0
    decreases i
{
    step_lin(w, x, y);
    if i > 0 {
        steps_lin(w, i - 1, x, y);
        step_lin(w, steps(w, i - 1, x), steps(w, i - 1, y));
        step_facts(w, steps(w, i - 1, x));
        step_facts(w, steps(w, i - 1, y));
    }
}
pub proof fn mul_steps(w: int, x: i32, y: i32)
    requires 1 <= w <= 29, primitive(w), el(w, x), el(w, y), x != 0
    ensures fmul(w, x, y) == steps(w, lg(w, x), y)
{
    onto(w, x);
    if y == 0 { steps_lin(w, lg(w, x), 0, 0); } else { onto(w, y); steps_pw(w, lg(w, x), lg(w, y)); }
}
// The field laws, for every width and all elements.
pub proof fn f_closed(w: int, x: i32, y: i32)
    requires 1 <= w <= 29, primitive(w), el(w, x), el(w, y)
    ensures el(w, x ^ y), el(w, fmul(w, x, y)), fmul(w, x, y) == 0 ==> x == 0 || y == 0, el(w, finv(w, x)), el(w, 0), el(w, 1),
{
    tables(w);
    step_lin(w, x, y);
    pw_range(w, lg(w, x) + lg(w, y));
    pw_range(w, nwm1_s(w) - lg(w, x));
}
pub proof fn f_add(w: int, x: i32, y: i32, z: i32)
    ensures x ^ y == y ^ x, (x ^ y) ^ z == x ^ (y ^ z), x ^ 0 == x, x ^ x == 0
{
    assert(x ^ y == y ^ x && (x ^ y) ^ z == x ^ (y ^ z) && x ^ 0 == x && x ^ x == 0) by (bit_vector);
}
pub proof fn f_mul_comm(w: int, x: i32, y: i32) ensures fmul(w, x, y) == fmul(w, y, x) { }
pub proof fn f_mul_assoc(w: int, x: i32, y: i32, z: i32)
    requires 1 <= w <= 29, primitive(w), el(w, x), el(w, y), el(w, z)
    ensures fmul(w, fmul(w, x, y), z) == fmul(w, x, fmul(w, y, z))
{
    tables(w);
    f_closed(w, x, y);
    f_closed(w, y, z);
    if x != 0 && y != 0 && z != 0 {
        onto(w, x); onto(w, y); onto(w, z);
        let (a, b, c, n) = (lg(w, x), lg(w, y), lg(w, z), nwm1_s(w) as int);
        reduce(w, a + b);
        reduce(w, b + c);
        reduce(w, (a + b) % n + c);
        reduce(w, a + (b + c) % n);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(a + b, c, n);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b + c, n);
        vstd::arithmetic::div_mod::lemma_add_mod_noop((a + b) % n, c, n);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(a, (b + c) % n, n);
        vstd::arithmetic::div_mod::lemma_mod_twice(a + b, n);
        vstd::arithmetic::div_mod::lemma_mod_twice(b + c, n);
    }
}
pub proof fn f_one(w: int, x: i32)
    requires 1 <= w <= 29, primitive(w), el(w, x)
    ensures fmul(w, x, 1) == x
{
    tables(w);
    if x != 0 {
        onto(w, x);
        assert(is_lg(w, 1, 0));
        lg_is(w, 1, 0);
    }
}
pub proof fn f_inv(w: int, x: i32)
    requires 1 <= w <= 29, primitive(w), el(w, x), x != 0
    ensures fmul(w, x, finv(w, x)) == 1
{
    tables(w);
    onto(w, x);
    let (a, n) = (lg(w, x), nwm1_s(w) as int);
    reduce(w, n - a);
    pw_range(w, n - a);
    cycle(w);
    if a > 0 {
        vstd::arithmetic::div_mod::lemma_small_mod((n - a) as nat, n as nat);
    } else {
        vstd::arithmetic::div_mod::lemma_mod_self_0(n);
    }
}
pub proof fn f_dist(w: int, x: i32, y: i32, z: i32)
    requires 1 <= w <= 29, primitive(w), el(w, x), el(w, y), el(w, z)
    ensures fmul(w, x, y ^ z) == fmul(w, x, y) ^ fmul(w, x, z)
{
    step_lin(w, y, z);
    if x != 0 {
        mul_steps(w, x, y); mul_steps(w, x, z); mul_steps(w, x, y ^ z);
        steps_lin(w, lg(w, x), y, z);
    } else {
        assert(0i32 ^ 0i32 == 0) by (bit_vector);
    }
}
