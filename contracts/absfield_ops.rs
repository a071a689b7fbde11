impl vstd::std_specs::ops::AddSpecImpl<Fe> for Fe {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: Fe) -> bool { canon(self) && canon(rhs) }
    open spec fn add_spec(self, rhs: Fe) -> Fe { arbitrary() }
}
impl core::ops::Add<Fe> for Fe {
    type Output = Fe;
    #[verifier::external_body]
    fn add(self, rhs: Fe) -> (r: Fe) ensures canon(r), fv(r) == fadd(fv(self), fv(rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<Fe> for Fe {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: Fe) -> bool { canon(*self) && canon(rhs) }
    open spec fn add_assign_spec(&self, rhs: Fe) -> &Fe { arbitrary() }
}
impl core::ops::AddAssign<Fe> for Fe {
    #[verifier::external_body]
    fn add_assign(&mut self, rhs: Fe) ensures canon(*final(self)), fv(*final(self)) == fadd(fv(*old(self)), fv(rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<&Fe> for Fe {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, rhs: &Fe) -> bool { canon(self) && canon(*rhs) }
    open spec fn add_spec(self, rhs: &Fe) -> Fe { arbitrary() }
}
impl core::ops::Add<&Fe> for Fe {
    type Output = Fe;
    #[verifier::external_body]
    fn add(self, rhs: &Fe) -> (r: Fe) ensures canon(r), fv(r) == fadd(fv(self), fv(*rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::AddAssignSpecImpl<&Fe> for Fe {
    open spec fn obeys_add_assign_spec() -> bool { false }
    open spec fn add_assign_req(&self, rhs: &Fe) -> bool { canon(*self) && canon(*rhs) }
    open spec fn add_assign_spec(&self, rhs: &Fe) -> &Fe { arbitrary() }
}
impl core::ops::AddAssign<&Fe> for Fe {
    #[verifier::external_body]
    fn add_assign(&mut self, rhs: &Fe) ensures canon(*final(self)), fv(*final(self)) == fadd(fv(*old(self)), fv(*rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<Fe> for Fe {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: Fe) -> bool { canon(self) && canon(rhs) }
    open spec fn sub_spec(self, rhs: Fe) -> Fe { arbitrary() }
}
impl core::ops::Sub<Fe> for Fe {
    type Output = Fe;
    #[verifier::external_body]
    fn sub(self, rhs: Fe) -> (r: Fe) ensures canon(r), fv(r) == fsub(fv(self), fv(rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::SubAssignSpecImpl<Fe> for Fe {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: Fe) -> bool { canon(*self) && canon(rhs) }
    open spec fn sub_assign_spec(&self, rhs: Fe) -> &Fe { arbitrary() }
}
impl core::ops::SubAssign<Fe> for Fe {
    #[verifier::external_body]
    fn sub_assign(&mut self, rhs: Fe) ensures canon(*final(self)), fv(*final(self)) == fsub(fv(*old(self)), fv(rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::SubSpecImpl<&Fe> for Fe {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, rhs: &Fe) -> bool { canon(self) && canon(*rhs) }
    open spec fn sub_spec(self, rhs: &Fe) -> Fe { arbitrary() }
}
impl core::ops::Sub<&Fe> for Fe {
    type Output = Fe;
    #[verifier::external_body]
    fn sub(self, rhs: &Fe) -> (r: Fe) ensures canon(r), fv(r) == fsub(fv(self), fv(*rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::SubAssignSpecImpl<&Fe> for Fe {
    open spec fn obeys_sub_assign_spec() -> bool { false }
    open spec fn sub_assign_req(&self, rhs: &Fe) -> bool { canon(*self) && canon(*rhs) }
    open spec fn sub_assign_spec(&self, rhs: &Fe) -> &Fe { arbitrary() }
}
impl core::ops::SubAssign<&Fe> for Fe {
    #[verifier::external_body]
    fn sub_assign(&mut self, rhs: &Fe) ensures canon(*final(self)), fv(*final(self)) == fsub(fv(*old(self)), fv(*rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<Fe> for Fe {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: Fe) -> bool { canon(self) && canon(rhs) }
    open spec fn mul_spec(self, rhs: Fe) -> Fe { arbitrary() }
}
impl core::ops::Mul<Fe> for Fe {
    type Output = Fe;
    #[verifier::external_body]
    fn mul(self, rhs: Fe) -> (r: Fe) ensures canon(r), fv(r) == fmul(fv(self), fv(rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::MulAssignSpecImpl<Fe> for Fe {
    open spec fn obeys_mul_assign_spec() -> bool { false }
    open spec fn mul_assign_req(&self, rhs: Fe) -> bool { canon(*self) && canon(rhs) }
    open spec fn mul_assign_spec(&self, rhs: Fe) -> &Fe { arbitrary() }
}
impl core::ops::MulAssign<Fe> for Fe {
    #[verifier::external_body]
    fn mul_assign(&mut self, rhs: Fe) ensures canon(*final(self)), fv(*final(self)) == fmul(fv(*old(self)), fv(rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::MulSpecImpl<&Fe> for Fe {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, rhs: &Fe) -> bool { canon(self) && canon(*rhs) }
    open spec fn mul_spec(self, rhs: &Fe) -> Fe { arbitrary() }
}
impl core::ops::Mul<&Fe> for Fe {
    type Output = Fe;
    #[verifier::external_body]
    fn mul(self, rhs: &Fe) -> (r: Fe) ensures canon(r), fv(r) == fmul(fv(self), fv(*rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::MulAssignSpecImpl<&Fe> for Fe {
    open spec fn obeys_mul_assign_spec() -> bool { false }
    open spec fn mul_assign_req(&self, rhs: &Fe) -> bool { canon(*self) && canon(*rhs) }
    open spec fn mul_assign_spec(&self, rhs: &Fe) -> &Fe { arbitrary() }
}
impl core::ops::MulAssign<&Fe> for Fe {
    #[verifier::external_body]
    fn mul_assign(&mut self, rhs: &Fe) ensures canon(*final(self)), fv(*final(self)) == fmul(fv(*old(self)), fv(*rhs)), { unimplemented!() }
}
impl vstd::std_specs::ops::NegSpecImpl for Fe {
    open spec fn obeys_neg_spec() -> bool { false }
    open spec fn neg_req(self) -> bool { canon(self) }
    open spec fn neg_spec(self) -> Fe { arbitrary() }
}
impl core::ops::Neg for Fe {
    type Output = Fe;
    #[verifier::external_body]
    fn neg(self) -> (r: Fe) ensures canon(r), fv(r) == fneg(fv(self)), { unimplemented!() }
}
