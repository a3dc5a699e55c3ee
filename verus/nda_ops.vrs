// Element-wise operators of one-dimensional arrays of the same length (generated by operand form).
impl<'a, const W: u8> vstd::std_specs::ops::MulSpecImpl<&'a Array1<GF<W>>> for &'a Array1<GF<W>> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: &'a Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn mul_spec(self, rhs: &'a Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<'a, const W: u8> core::ops::Mul<&'a Array1<GF<W>>> for &'a Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn mul(self, rhs: &'a Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == pmul(self@, rhs@) { unimplemented!() }
}
impl<'a, const W: u8> vstd::std_specs::ops::MulSpecImpl<Array1<GF<W>>> for &'a Array1<GF<W>> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn mul_spec(self, rhs: Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<'a, const W: u8> core::ops::Mul<Array1<GF<W>>> for &'a Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn mul(self, rhs: Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == pmul(self@, rhs@) { unimplemented!() }
}
impl<'a, const W: u8> vstd::std_specs::ops::MulSpecImpl<&'a Array1<GF<W>>> for Array1<GF<W>> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: &'a Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn mul_spec(self, rhs: &'a Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<'a, const W: u8> core::ops::Mul<&'a Array1<GF<W>>> for Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn mul(self, rhs: &'a Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == pmul(self@, rhs@) { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::MulSpecImpl<Array1<GF<W>>> for Array1<GF<W>> {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn mul_spec(self, rhs: Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<const W: u8> core::ops::Mul<Array1<GF<W>>> for Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn mul(self, rhs: Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == pmul(self@, rhs@) { unimplemented!() }
}
impl<'a, const W: u8> vstd::std_specs::ops::AddSpecImpl<&'a Array1<GF<W>>> for &'a Array1<GF<W>> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: &'a Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn add_spec(self, rhs: &'a Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<'a, const W: u8> core::ops::Add<&'a Array1<GF<W>>> for &'a Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn add(self, rhs: &'a Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == paddv(self@, rhs@) { unimplemented!() }
}
impl<'a, const W: u8> vstd::std_specs::ops::AddSpecImpl<Array1<GF<W>>> for &'a Array1<GF<W>> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn add_spec(self, rhs: Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<'a, const W: u8> core::ops::Add<Array1<GF<W>>> for &'a Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn add(self, rhs: Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == paddv(self@, rhs@) { unimplemented!() }
}
impl<'a, const W: u8> vstd::std_specs::ops::AddSpecImpl<&'a Array1<GF<W>>> for Array1<GF<W>> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: &'a Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn add_spec(self, rhs: &'a Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<'a, const W: u8> core::ops::Add<&'a Array1<GF<W>>> for Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn add(self, rhs: &'a Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == paddv(self@, rhs@) { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::AddSpecImpl<Array1<GF<W>>> for Array1<GF<W>> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn add_spec(self, rhs: Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<const W: u8> core::ops::Add<Array1<GF<W>>> for Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn add(self, rhs: Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == paddv(self@, rhs@) { unimplemented!() }
}
impl<'a, const W: u8> vstd::std_specs::ops::SubSpecImpl<&'a Array1<GF<W>>> for &'a Array1<GF<W>> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: &'a Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn sub_spec(self, rhs: &'a Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<'a, const W: u8> core::ops::Sub<&'a Array1<GF<W>>> for &'a Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn sub(self, rhs: &'a Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == paddv(self@, rhs@) { unimplemented!() }
}
impl<'a, const W: u8> vstd::std_specs::ops::SubSpecImpl<Array1<GF<W>>> for &'a Array1<GF<W>> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn sub_spec(self, rhs: Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<'a, const W: u8> core::ops::Sub<Array1<GF<W>>> for &'a Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn sub(self, rhs: Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == paddv(self@, rhs@) { unimplemented!() }
}
impl<'a, const W: u8> vstd::std_specs::ops::SubSpecImpl<&'a Array1<GF<W>>> for Array1<GF<W>> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: &'a Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn sub_spec(self, rhs: &'a Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<'a, const W: u8> core::ops::Sub<&'a Array1<GF<W>>> for Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn sub(self, rhs: &'a Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == paddv(self@, rhs@) { unimplemented!() }
}
impl<const W: u8> vstd::std_specs::ops::SubSpecImpl<Array1<GF<W>>> for Array1<GF<W>> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Array1<GF<W>>) -> bool { self@.len() == rhs@.len() }
    open spec fn sub_spec(self, rhs: Array1<GF<W>>) -> Array1<GF<W>> { arbitrary() }
}
impl<const W: u8> core::ops::Sub<Array1<GF<W>>> for Array1<GF<W>> {
    type Output = Array1<GF<W>>;
    #[verifier::external_body]
    fn sub(self, rhs: Array1<GF<W>>) -> (r: Array1<GF<W>>) ensures r@ == paddv(self@, rhs@) { unimplemented!() }
}
