impl<const W: u8> vstd::std_specs::ops::AddAssignSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: GF<W>) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: GF<W>) -> &GF<W> { &fadd(*self, rhs) }
}
impl<const W: u8> core::ops::AddAssign<GF<W>> for GF<W> {
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?AddAssign(?:<GF<W>>|<Self>)? for GF<W>$ | add_assign
//@entry
    proof { range::<W>(self.0, rhs.0); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::AddAssignSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: &GF<W>) -> bool { true }
    open spec fn add_assign_spec(&self, rhs: &GF<W>) -> &GF<W> { &fadd(*self, *rhs) }
}
impl<const W: u8> core::ops::AddAssign<&GF<W>> for GF<W> {
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?AddAssign<&GF<W>> for GF<W>$ | add_assign
//@entry
    proof { range::<W>(self.0, rhs.0); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::AddSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: GF<W>) -> bool { true }
    open spec fn add_spec(self, rhs: GF<W>) -> GF<W> { fadd(self, rhs) }
}
impl<const W: u8> core::ops::Add<GF<W>> for GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Add(?:<GF<W>>|<Self>)? for GF<W>$ | add
//@entry
    proof { commute::<W>(); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::AddSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &GF<W>) -> bool { true }
    open spec fn add_spec(self, rhs: &GF<W>) -> GF<W> { fadd(self, *rhs) }
}
impl<const W: u8> core::ops::Add<&GF<W>> for GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Add<&GF<W>> for GF<W>$ | add
//@entry
    proof { commute::<W>(); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::AddSpecImpl<GF<W>> for &GF<W> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: GF<W>) -> bool { true }
    open spec fn add_spec(self, rhs: GF<W>) -> GF<W> { fadd(*self, rhs) }
}
impl<const W: u8> core::ops::Add<GF<W>> for &GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Add<GF<W>> for &GF<W>$ | add
//@entry
    proof { commute::<W>(); }
//@end
}
impl<'a, const W: u8> vstd::std_specs::ops::AddSpecImpl<&'a GF<W>> for &'a GF<W> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: &'a GF<W>) -> bool { true }
    open spec fn add_spec(self, rhs: &'a GF<W>) -> GF<W> { fadd(*self, *rhs) }
}
impl<'a, const W: u8> core::ops::Add<&'a GF<W>> for &'a GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Add(?:<&GF<W>>|<Self>)? for &GF<W>$ | add
//@entry
    proof { commute::<W>(); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::SubAssignSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: GF<W>) -> bool { true }
    open spec fn sub_assign_spec(&self, rhs: GF<W>) -> &GF<W> { &fadd(*self, rhs) }
}
impl<const W: u8> core::ops::SubAssign<GF<W>> for GF<W> {
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?SubAssign(?:<GF<W>>|<Self>)? for GF<W>$ | sub_assign
//@entry
    proof { range::<W>(self.0, rhs.0); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::SubAssignSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, rhs: &GF<W>) -> bool { true }
    open spec fn sub_assign_spec(&self, rhs: &GF<W>) -> &GF<W> { &fadd(*self, *rhs) }
}
impl<const W: u8> core::ops::SubAssign<&GF<W>> for GF<W> {
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?SubAssign<&GF<W>> for GF<W>$ | sub_assign
//@entry
    proof { range::<W>(self.0, rhs.0); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::SubSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: GF<W>) -> bool { true }
    open spec fn sub_spec(self, rhs: GF<W>) -> GF<W> { fadd(self, rhs) }
}
impl<const W: u8> core::ops::Sub<GF<W>> for GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Sub(?:<GF<W>>|<Self>)? for GF<W>$ | sub
//@entry
    proof { commute::<W>(); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::SubSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &GF<W>) -> bool { true }
    open spec fn sub_spec(self, rhs: &GF<W>) -> GF<W> { fadd(self, *rhs) }
}
impl<const W: u8> core::ops::Sub<&GF<W>> for GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Sub<&GF<W>> for GF<W>$ | sub
//@entry
    proof { commute::<W>(); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::SubSpecImpl<GF<W>> for &GF<W> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: GF<W>) -> bool { true }
    open spec fn sub_spec(self, rhs: GF<W>) -> GF<W> { fadd(*self, rhs) }
}
impl<const W: u8> core::ops::Sub<GF<W>> for &GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Sub<GF<W>> for &GF<W>$ | sub
//@entry
    proof { commute::<W>(); }
//@end
}
impl<'a, const W: u8> vstd::std_specs::ops::SubSpecImpl<&'a GF<W>> for &'a GF<W> {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: &'a GF<W>) -> bool { true }
    open spec fn sub_spec(self, rhs: &'a GF<W>) -> GF<W> { fadd(*self, *rhs) }
}
impl<'a, const W: u8> core::ops::Sub<&'a GF<W>> for &'a GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Sub(?:<&GF<W>>|<Self>)? for &GF<W>$ | sub
//@entry
    proof { commute::<W>(); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::MulAssignSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, rhs: GF<W>) -> bool { usable::<W>() && ok(*self) && ok(rhs) }
    open spec fn mul_assign_spec(&self, rhs: GF<W>) -> &GF<W> { &fprod(*self, rhs) }
}
impl<const W: u8> core::ops::MulAssign<GF<W>> for GF<W> {
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?MulAssign(?:<GF<W>>|<Self>)? for GF<W>$ | mul_assign
//@entry
    proof { range::<W>(self.0, rhs.0); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::MulAssignSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, rhs: &GF<W>) -> bool { usable::<W>() && ok(*self) && ok(*rhs) }
    open spec fn mul_assign_spec(&self, rhs: &GF<W>) -> &GF<W> { &fprod(*self, *rhs) }
}
impl<const W: u8> core::ops::MulAssign<&GF<W>> for GF<W> {
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?MulAssign<&GF<W>> for GF<W>$ | mul_assign
//@entry
    proof { range::<W>(self.0, rhs.0); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::MulSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: GF<W>) -> bool { usable::<W>() && ok(self) && ok(rhs) }
    open spec fn mul_spec(self, rhs: GF<W>) -> GF<W> { fprod(self, rhs) }
}
impl<const W: u8> core::ops::Mul<GF<W>> for GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Mul(?:<GF<W>>|<Self>)? for GF<W>$ | mul
//@entry
    proof { commute::<W>(); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::MulSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &GF<W>) -> bool { usable::<W>() && ok(self) && ok(*rhs) }
    open spec fn mul_spec(self, rhs: &GF<W>) -> GF<W> { fprod(self, *rhs) }
}
impl<const W: u8> core::ops::Mul<&GF<W>> for GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Mul<&GF<W>> for GF<W>$ | mul
//@entry
    proof { commute::<W>(); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::MulSpecImpl<GF<W>> for &GF<W> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: GF<W>) -> bool { usable::<W>() && ok(*self) && ok(rhs) }
    open spec fn mul_spec(self, rhs: GF<W>) -> GF<W> { fprod(*self, rhs) }
}
impl<const W: u8> core::ops::Mul<GF<W>> for &GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Mul<GF<W>> for &GF<W>$ | mul
//@entry
    proof { commute::<W>(); }
//@end
}
impl<'a, const W: u8> vstd::std_specs::ops::MulSpecImpl<&'a GF<W>> for &'a GF<W> {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, rhs: &'a GF<W>) -> bool { usable::<W>() && ok(*self) && ok(*rhs) }
    open spec fn mul_spec(self, rhs: &'a GF<W>) -> GF<W> { fprod(*self, *rhs) }
}
impl<'a, const W: u8> core::ops::Mul<&'a GF<W>> for &'a GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Mul(?:<&GF<W>>|<Self>)? for &GF<W>$ | mul
//@entry
    proof { commute::<W>(); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::DivAssignSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, rhs: GF<W>) -> bool { usable::<W>() && ok(*self) && ok(rhs) && (rhs).0 != 0 }
    open spec fn div_assign_spec(&self, rhs: GF<W>) -> &GF<W> { &fquot(*self, rhs) }
}
impl<const W: u8> core::ops::DivAssign<GF<W>> for GF<W> {
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?DivAssign(?:<GF<W>>|<Self>)? for GF<W>$ | div_assign
//@entry
    proof { range::<W>(self.0, rhs.0); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::DivAssignSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, rhs: &GF<W>) -> bool { usable::<W>() && ok(*self) && ok(*rhs) && (*rhs).0 != 0 }
    open spec fn div_assign_spec(&self, rhs: &GF<W>) -> &GF<W> { &fquot(*self, *rhs) }
}
impl<const W: u8> core::ops::DivAssign<&GF<W>> for GF<W> {
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?DivAssign<&GF<W>> for GF<W>$ | div_assign
//@entry
    proof { range::<W>(self.0, rhs.0); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::DivSpecImpl<GF<W>> for GF<W> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: GF<W>) -> bool { usable::<W>() && ok(self) && ok(rhs) && (rhs).0 != 0 }
    open spec fn div_spec(self, rhs: GF<W>) -> GF<W> { fquot(self, rhs) }
}
impl<const W: u8> core::ops::Div<GF<W>> for GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Div(?:<GF<W>>|<Self>)? for GF<W>$ | div
//@entry
    proof { commute::<W>(); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::DivSpecImpl<&GF<W>> for GF<W> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: &GF<W>) -> bool { usable::<W>() && ok(self) && ok(*rhs) && (*rhs).0 != 0 }
    open spec fn div_spec(self, rhs: &GF<W>) -> GF<W> { fquot(self, *rhs) }
}
impl<const W: u8> core::ops::Div<&GF<W>> for GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Div<&GF<W>> for GF<W>$ | div
//@entry
    proof { commute::<W>(); }
//@end
}
impl<const W: u8> vstd::std_specs::ops::DivSpecImpl<GF<W>> for &GF<W> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: GF<W>) -> bool { usable::<W>() && ok(*self) && ok(rhs) && (rhs).0 != 0 }
    open spec fn div_spec(self, rhs: GF<W>) -> GF<W> { fquot(*self, rhs) }
}
impl<const W: u8> core::ops::Div<GF<W>> for &GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Div<GF<W>> for &GF<W>$ | div
//@entry
    proof { commute::<W>(); }
//@end
}
impl<'a, const W: u8> vstd::std_specs::ops::DivSpecImpl<&'a GF<W>> for &'a GF<W> {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, rhs: &'a GF<W>) -> bool { usable::<W>() && ok(*self) && ok(*rhs) && (*rhs).0 != 0 }
    open spec fn div_spec(self, rhs: &'a GF<W>) -> GF<W> { fquot(*self, *rhs) }
}
impl<'a, const W: u8> core::ops::Div<&'a GF<W>> for &'a GF<W> {
    type Output = GF<W>;
//@fn src/math/galois/mod.rs | ^impl<const W: u8> (?:std::ops::)?Div(?:<&GF<W>>|<Self>)? for &GF<W>$ | div
//@entry
    proof { commute::<W>(); }
//@end
}
