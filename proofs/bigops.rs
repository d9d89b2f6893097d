// Comparison and arithmetic operators.
impl PartialEq for @SELF@ {
    #[verifier::external_body]
    fn eq(&self, rhs: &Self) -> (ret: bool) { unimplemented!() }
}

impl vstd::std_specs::cmp::PartialEqSpecImpl for @SELF@ {
    open spec fn obeys_eq_spec() -> bool { true }

    closed spec fn eq_spec(&self, rhs: &Self) -> bool { self.v() == rhs.v() }
}

impl PartialOrd for @SELF@ {
    #[verifier::external_body]
    fn partial_cmp(&self, rhs: &Self) -> (ret: Option<Ordering>) { unimplemented!() }
}

impl vstd::std_specs::cmp::PartialOrdSpecImpl for @SELF@ {
    open spec fn obeys_partial_cmp_spec() -> bool { true }

    closed spec fn partial_cmp_spec(&self, rhs: &Self) -> Option<Ordering> {
        if self.v() < rhs.v() {
            Some(Ordering::Less)
        } else if self.v() == rhs.v() {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
}

impl core::ops::Div for @SELF@ {
    type Output = @SELF@;

    #[verifier::external_body]
    fn div(self, rhs: Self) -> (ret: Self)
        ensures @SELF@::lo() == 0 ==> ret.v() == self.v() / rhs.v(),
    { unimplemented!() }
}

impl vstd::std_specs::ops::DivSpecImpl<@SELF@> for @SELF@ {
    open spec fn obeys_div_spec() -> bool { false }

    closed spec fn div_req(self, rhs: Self) -> bool { rhs.v() != 0 && @SELF@::lo() == 0 }

    closed spec fn div_spec(self, rhs: Self) -> Self { arbitrary() }
}

impl core::ops::Mul for @SELF@ {
    type Output = @SELF@;

    #[verifier::external_body]
    fn mul(self, rhs: Self) -> (ret: Self)
        ensures ret.v() == self.v() * rhs.v(),
    { unimplemented!() }
}

impl vstd::std_specs::ops::MulSpecImpl<@SELF@> for @SELF@ {
    open spec fn obeys_mul_spec() -> bool { false }

    closed spec fn mul_req(self, rhs: Self) -> bool { fits(self.v() * rhs.v(), @SELF@::lo()) }

    closed spec fn mul_spec(self, rhs: Self) -> Self { arbitrary() }
}

impl core::ops::MulAssign for @SELF@ {
    #[verifier::external_body]
    fn mul_assign(&mut self, rhs: Self)
        ensures final(self).v() == old(self).v() * rhs.v(),
    { unimplemented!() }
}

impl vstd::std_specs::ops::MulAssignSpecImpl<@SELF@> for @SELF@ {
    open spec fn obeys_mul_assign_spec() -> bool { false }

    closed spec fn mul_assign_req(&self, rhs: Self) -> bool { fits(self.v() * rhs.v(), @SELF@::lo()) }

    closed spec fn mul_assign_spec(&self, rhs: Self) -> &Self { arbitrary() }
}

impl @SELF@ {
    #[verifier::external_body]
    fn pow(self, exp: u32) -> (ret: Self)
        requires fits(power(self.v(), exp as int), @SELF@::lo()),
        ensures ret.v() == power(self.v(), exp as int),
    { unimplemented!() }

    #[verifier::external_body]
    fn ilog2(self) -> (ret: u32)
        requires self.v() > 0,
        ensures power(2, ret as int) <= self.v() < power(2, ret + 1), ret < @WIDTH@,
    { unimplemented!() }
}
