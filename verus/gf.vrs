// The field as the rest of the code uses it: opaque elements, field laws as axioms.
//@note Field laws of GF<W> (axioms a_*) and the meaning of its operators: property C01 proves them from src/math/galois/mod.rs and extern/galois/galois.c; every element is below 2^W (C03).
#[verifier::external_body]
pub struct GF<const W: u8> { v: u32 }
impl<const W: u8> Clone for GF<W> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<const W: u8> Copy for GF<W> {}

pub uninterp spec fn add<const W: u8>(a: GF<W>, b: GF<W>) -> GF<W>;
pub uninterp spec fn mul<const W: u8>(a: GF<W>, b: GF<W>) -> GF<W>;
pub uninterp spec fn inv<const W: u8>(a: GF<W>) -> GF<W>;
pub uninterp spec fn zero<const W: u8>() -> GF<W>;
pub uninterp spec fn one<const W: u8>() -> GF<W>;
// The element of a u32 (the low W bits) and back.
pub uninterp spec fn gf<const W: u8>(x: u32) -> GF<W>;
pub uninterp spec fn num<const W: u8>(a: GF<W>) -> u32;

pub axiom fn a_add_comm<const W: u8>(a: GF<W>, b: GF<W>) ensures add(a, b) == add(b, a);
pub axiom fn a_add_assoc<const W: u8>(a: GF<W>, b: GF<W>, c: GF<W>) ensures add(add(a, b), c) == add(a, add(b, c));
pub axiom fn a_add_zero<const W: u8>(a: GF<W>) ensures add(a, zero()) == a;
pub axiom fn a_add_self<const W: u8>(a: GF<W>) ensures add(a, a) == zero::<W>();
pub axiom fn a_mul_comm<const W: u8>(a: GF<W>, b: GF<W>) ensures mul(a, b) == mul(b, a);
pub axiom fn a_mul_assoc<const W: u8>(a: GF<W>, b: GF<W>, c: GF<W>) ensures mul(mul(a, b), c) == mul(a, mul(b, c));
pub axiom fn a_mul_one<const W: u8>(a: GF<W>) ensures mul(a, one()) == a;
pub axiom fn a_dist<const W: u8>(a: GF<W>, b: GF<W>, c: GF<W>) ensures mul(a, add(b, c)) == add(mul(a, b), mul(a, c));
pub axiom fn a_inv<const W: u8>(a: GF<W>) requires a != zero::<W>() ensures mul(a, inv(a)) == one::<W>();
pub axiom fn a_one<const W: u8>() ensures one::<W>() != zero::<W>();
// Distinct numbers below 2^W are distinct elements.
pub axiom fn a_gf<const W: u8>(x: u32) requires W <= 31, (x as int) < pow2w(W) ensures num::<W>(gf::<W>(x)) == x;
pub axiom fn a_num<const W: u8>(a: GF<W>) requires 1 <= W ensures (num(a) as int) < pow2w(W), gf::<W>(num(a)) == a;
pub axiom fn a_consts<const W: u8>() ensures gf::<W>(0) == zero::<W>(), gf::<W>(1) == one::<W>();

pub open spec fn pow2w(w: u8) -> int { vstd::arithmetic::power2::pow2(w as nat) as int }

// Consequences.
pub proof fn l_zero_add<const W: u8>(a: GF<W>) ensures add(zero(), a) == a { a_add_comm(zero(), a); a_add_zero(a); }
pub proof fn l_one_mul<const W: u8>(a: GF<W>) ensures mul(one(), a) == a { a_mul_comm(one(), a); a_mul_one(a); }
pub proof fn l_cancel<const W: u8>(a: GF<W>, b: GF<W>) ensures add(add(a, b), b) == a, add(a, add(a, b)) == b {
    a_add_assoc(a, b, b); a_add_self(b); a_add_zero(a);
    a_add_assoc(a, a, b); a_add_self(a); l_zero_add(b);
}
pub proof fn l_eq<const W: u8>(a: GF<W>, b: GF<W>) ensures (add(a, b) == zero::<W>()) == (a == b) {
    a_add_self(a);
    if add(a, b) == zero::<W>() { l_cancel(a, b); l_zero_add(b); a_add_self(b); }
}
pub proof fn l_mul_zero<const W: u8>(a: GF<W>) ensures mul(a, zero()) == zero::<W>(), mul(zero(), a) == zero::<W>() {
    a_add_self(one::<W>());
    a_dist(a, one(), one());
    a_add_self(mul(a, one()));
    a_mul_comm(a, zero());
}
pub proof fn l_dist2<const W: u8>(a: GF<W>, b: GF<W>, c: GF<W>) ensures mul(add(a, b), c) == add(mul(a, c), mul(b, c)) {
    a_mul_comm(add(a, b), c); a_dist(c, a, b); a_mul_comm(c, a); a_mul_comm(c, b);
}
// A product is zero only if a factor is.
pub proof fn l_nozero<const W: u8>(a: GF<W>, b: GF<W>) ensures (mul(a, b) == zero::<W>()) == (a == zero::<W>() || b == zero::<W>()) {
    l_mul_zero(a); l_mul_zero(b);
    if a != zero::<W>() && mul(a, b) == zero::<W>() {
        a_inv(a);
        a_mul_comm(a, inv(a));
        a_mul_assoc(inv(a), a, b);
        l_mul_zero(inv(a));
        l_one_mul(b);
    }
}
// (a + b) + (c + d) = (a + c) + (b + d)
pub proof fn l_swap<const W: u8>(a: GF<W>, b: GF<W>, c: GF<W>, d: GF<W>) ensures add(add(a, b), add(c, d)) == add(add(a, c), add(b, d)) {
    a_add_assoc(a, b, add(c, d));
    a_add_assoc(b, c, d); a_add_comm(b, c); a_add_assoc(c, b, d);
    a_add_assoc(a, c, add(b, d));
}
// a (b c) = b (a c)
pub proof fn l_mswap<const W: u8>(a: GF<W>, b: GF<W>, c: GF<W>) ensures mul(a, mul(b, c)) == mul(b, mul(a, c)) {
    a_mul_assoc(a, b, c); a_mul_comm(a, b); a_mul_assoc(b, a, c);
}
pub proof fn l_inv_unique<const W: u8>(a: GF<W>, b: GF<W>) requires mul(a, b) == one::<W>() ensures a != zero::<W>(), b == inv(a) {
    a_one::<W>(); l_mul_zero(b);
    a_inv(a);
    a_mul_comm(a, inv(a));
    a_mul_assoc(inv(a), a, b);
    l_one_mul(b);
    a_mul_one(inv(a));
}
pub open spec fn div<const W: u8>(a: GF<W>, b: GF<W>) -> GF<W> { mul(a, inv(b)) }

// The operators.
impl<const W: u8> vstd::std_specs::ops::AddSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: GF<W>) -> bool { true }
    open spec fn add_spec(self, rhs: GF<W>) -> GF<W> { add(self, rhs) }
}
impl<const W: u8> core::ops::Add<GF<W>> for GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn add(self, rhs: GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::AddSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &GF<W>) -> bool { true }
    open spec fn add_spec(self, rhs: &GF<W>) -> GF<W> { add(self, *rhs) }
}
impl<const W: u8> core::ops::Add<&GF<W>> for GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn add(self, rhs: &GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::AddSpecImpl<GF<W>> for &GF<W> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: GF<W>) -> bool { true }
    open spec fn add_spec(self, rhs: GF<W>) -> GF<W> { add(*self, rhs) }
}
impl<const W: u8> core::ops::Add<GF<W>> for &GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn add(self, rhs: GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::AddSpecImpl<&GF<W>> for &GF<W> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &GF<W>) -> bool { true }
    open spec fn add_spec(self, rhs: &GF<W>) -> GF<W> { add(*self, *rhs) }
}
impl<const W: u8> core::ops::Add<&GF<W>> for &GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn add(self, rhs: &GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::SubSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: GF<W>) -> bool { true }
    open spec fn sub_spec(self, rhs: GF<W>) -> GF<W> { add(self, rhs) }
}
impl<const W: u8> core::ops::Sub<GF<W>> for GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn sub(self, rhs: GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::SubSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &GF<W>) -> bool { true }
    open spec fn sub_spec(self, rhs: &GF<W>) -> GF<W> { add(self, *rhs) }
}
impl<const W: u8> core::ops::Sub<&GF<W>> for GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn sub(self, rhs: &GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::SubSpecImpl<GF<W>> for &GF<W> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: GF<W>) -> bool { true }
    open spec fn sub_spec(self, rhs: GF<W>) -> GF<W> { add(*self, rhs) }
}
impl<const W: u8> core::ops::Sub<GF<W>> for &GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn sub(self, rhs: GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::SubSpecImpl<&GF<W>> for &GF<W> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &GF<W>) -> bool { true }
    open spec fn sub_spec(self, rhs: &GF<W>) -> GF<W> { add(*self, *rhs) }
}
impl<const W: u8> core::ops::Sub<&GF<W>> for &GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn sub(self, rhs: &GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::MulSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: GF<W>) -> bool { true }
    open spec fn mul_spec(self, rhs: GF<W>) -> GF<W> { mul(self, rhs) }
}
impl<const W: u8> core::ops::Mul<GF<W>> for GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn mul(self, rhs: GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::MulSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &GF<W>) -> bool { true }
    open spec fn mul_spec(self, rhs: &GF<W>) -> GF<W> { mul(self, *rhs) }
}
impl<const W: u8> core::ops::Mul<&GF<W>> for GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn mul(self, rhs: &GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::MulSpecImpl<GF<W>> for &GF<W> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: GF<W>) -> bool { true }
    open spec fn mul_spec(self, rhs: GF<W>) -> GF<W> { mul(*self, rhs) }
}
impl<const W: u8> core::ops::Mul<GF<W>> for &GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn mul(self, rhs: GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::MulSpecImpl<&GF<W>> for &GF<W> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &GF<W>) -> bool { true }
    open spec fn mul_spec(self, rhs: &GF<W>) -> GF<W> { mul(*self, *rhs) }
}
impl<const W: u8> core::ops::Mul<&GF<W>> for &GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn mul(self, rhs: &GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::DivSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: GF<W>) -> bool { rhs != zero::<W>() }
    open spec fn div_spec(self, rhs: GF<W>) -> GF<W> { div(self, rhs) }
}
impl<const W: u8> core::ops::Div<GF<W>> for GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn div(self, rhs: GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::DivSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: &GF<W>) -> bool { *rhs != zero::<W>() }
    open spec fn div_spec(self, rhs: &GF<W>) -> GF<W> { div(self, *rhs) }
}
impl<const W: u8> core::ops::Div<&GF<W>> for GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn div(self, rhs: &GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::DivSpecImpl<GF<W>> for &GF<W> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: GF<W>) -> bool { rhs != zero::<W>() }
    open spec fn div_spec(self, rhs: GF<W>) -> GF<W> { div(*self, rhs) }
}
impl<const W: u8> core::ops::Div<GF<W>> for &GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn div(self, rhs: GF<W>) -> GF<W> { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::DivSpecImpl<&GF<W>> for &GF<W> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: &GF<W>) -> bool { *rhs != zero::<W>() }
    open spec fn div_spec(self, rhs: &GF<W>) -> GF<W> { div(*self, *rhs) }
}
impl<const W: u8> core::ops::Div<&GF<W>> for &GF<W> {
    type Output = GF<W>;
    #[verifier::external_body]
    fn div(self, rhs: &GF<W>) -> GF<W> { unimplemented!() }
}

impl<const W: u8> vstd::std_specs::cmp::PartialEqSpecImpl for GF<W> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, rhs: &GF<W>) -> bool { *self == *rhs }
}
impl<const W: u8> core::cmp::PartialEq for GF<W> {
    #[verifier::external_body]
    fn eq(&self, rhs: &GF<W>) -> bool { unimplemented!() }
}
#[verifier::external_body]
pub fn gf_zero<const W: u8>() -> (r: GF<W>) ensures r == zero::<W>() { unimplemented!() }
#[verifier::external_body]
pub fn gf_one<const W: u8>() -> (r: GF<W>) ensures r == one::<W>() { unimplemented!() }
#[verifier::external_body]
pub fn gf_from<const W: u8>(x: u32) -> (r: GF<W>) ensures r == gf::<W>(x) { unimplemented!() }
// Facts that keep proofs independent of how the code orders its factors and terms.
pub proof fn algebra<const W: u8>()
    ensures
        forall|a: GF<W>, b: GF<W>| #[trigger] add(a, b) == add(b, a),
        forall|a: GF<W>, b: GF<W>| #[trigger] mul(a, b) == mul(b, a),
        forall|a: GF<W>, b: GF<W>| #![trigger mul(a, b)] mul(a, b) != zero::<W>() ==> a != zero::<W>() && b != zero::<W>(),
        forall|a: GF<W>, b: GF<W>, c: GF<W>| b != zero::<W>() && c != zero::<W>() ==> #[trigger] div(div(a, b), c) == div(a, mul(b, c)),
{
    assert forall|a: GF<W>, b: GF<W>| #[trigger] add(a, b) == add(b, a) by { a_add_comm(a, b); }
    assert forall|a: GF<W>, b: GF<W>| #[trigger] mul(a, b) == mul(b, a) by { a_mul_comm(a, b); }
    assert forall|a: GF<W>, b: GF<W>| #![trigger mul(a, b)] mul(a, b) != zero::<W>() implies a != zero::<W>() && b != zero::<W>() by { l_nozero(a, b); }
    assert forall|a: GF<W>, b: GF<W>, c: GF<W>| b != zero::<W>() && c != zero::<W>() implies #[trigger] div(div(a, b), c) == div(a, mul(b, c)) by {
        l_inv_mul(b, c);
        a_mul_assoc(a, inv(b), inv(c));
    }
}
pub proof fn l_inv_mul<const W: u8>(b: GF<W>, c: GF<W>)
    requires b != zero::<W>(), c != zero::<W>()
    ensures inv(mul(b, c)) == mul(inv(b), inv(c))
{
    let u = mul(inv(b), inv(c));
    a_inv(b); a_inv(c);
    a_mul_assoc(b, c, u);
    l_mswap(c, inv(b), inv(c));
    a_mul_one(inv(b));
    l_inv_unique(mul(b, c), u);
}
// Sums do not depend on the order of their terms.
pub proof fn sums<const W: u8>()
    ensures
        forall|a: GF<W>, b: GF<W>| #[trigger] add(a, b) == add(b, a),
        forall|a: GF<W>, b: GF<W>, c: GF<W>| #[trigger] add(add(a, b), c) == add(add(a, c), b),
{
    assert forall|a: GF<W>, b: GF<W>| #[trigger] add(a, b) == add(b, a) by { a_add_comm(a, b); }
    assert forall|a: GF<W>, b: GF<W>, c: GF<W>| #[trigger] add(add(a, b), c) == add(add(a, c), b) by { a_add_assoc(a, b, c); a_add_comm(b, c); a_add_assoc(a, c, b); }
}
