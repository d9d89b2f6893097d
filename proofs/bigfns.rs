impl @SELF@ {
    const BITS: u32 = @WIDTH@;

    #[verifier::external_body]
    fn from_u8(x: u8) -> (ret: Self)
        ensures ret.v() == x,
    { unimplemented!() }

    #[verifier::external_body]
    fn from_u32(x: u32) -> (ret: Self)
        ensures @SELF@::lo() <= x < @SELF@::lo() + modulus() ==> ret.v() == x,
    { unimplemented!() }

    #[verifier::external_body]
    fn from_u64(x: u64) -> (ret: Self)
        ensures ret.v() == x,
    { unimplemented!() }

    #[verifier::external_body]
    fn from_u128(x: u128) -> (ret: Self)
        ensures ret.v() == x,
    { unimplemented!() }

    #[verifier::external_body]
    fn from_i64(x: i64) -> (ret: Self)
        ensures @SELF@::lo() <= x < @SELF@::lo() + modulus() ==> ret.v() == x,
    { unimplemented!() }

    #[verifier::external_body]
    fn from_i128(x: i128) -> (ret: Self)
        ensures @SELF@::lo() <= x < @SELF@::lo() + modulus() ==> ret.v() == x,
    { unimplemented!() }

    #[verifier::external_body]
    fn wrapping_mul(self, rhs: Self) -> (ret: Self)
        ensures ret.v() == wrap(self.v() * rhs.v(), @SELF@::lo()),
    { unimplemented!() }

    #[verifier::external_body]
    fn overflowing_mul(self, rhs: Self) -> (ret: (Self, bool))
        ensures ret.0.v() == wrap(self.v() * rhs.v(), @SELF@::lo()), ret.1 == !fits(self.v() * rhs.v(), @SELF@::lo()),
    { unimplemented!() }

    #[verifier::external_body]
    fn checked_mul(self, rhs: Self) -> (ret: Option<Self>)
        ensures
            ret.is_some() == fits(self.v() * rhs.v(), @SELF@::lo()),
            ret matches Some(r) ==> r.v() == self.v() * rhs.v(),
    { unimplemented!() }

    #[verifier::external_body]
    fn wrapping_mul_ulimb(self, rhs: ULimb) -> (ret: Self)
        ensures ret.v() == wrap(self.v() * rhs, @SELF@::lo()),
    { unimplemented!() }

    #[verifier::external_body]
    fn checked_mul_ulimb(self, rhs: ULimb) -> (ret: Option<Self>)
        ensures
            ret.is_some() == fits(self.v() * rhs, @SELF@::lo()),
            ret matches Some(r) ==> r.v() == self.v() * rhs,
    { unimplemented!() }

    #[verifier::external_body]
    fn wrapping_add_ulimb(self, rhs: ULimb) -> (ret: Self)
        ensures ret.v() == wrap(self.v() + rhs, @SELF@::lo()),
    { unimplemented!() }

    #[verifier::external_body]
    fn wrapping_sub_ulimb(self, rhs: ULimb) -> (ret: Self)
        ensures ret.v() == wrap(self.v() - rhs, @SELF@::lo()),
    { unimplemented!() }

    #[verifier::external_body]
    fn checked_add_ulimb(self, rhs: ULimb) -> (ret: Option<Self>)
        ensures
            ret.is_some() == fits(self.v() + rhs, @SELF@::lo()),
            ret matches Some(r) ==> r.v() == self.v() + rhs,
    { unimplemented!() }

    #[verifier::external_body]
    fn checked_sub_ulimb(self, rhs: ULimb) -> (ret: Option<Self>)
        ensures
            ret.is_some() == fits(self.v() - rhs, @SELF@::lo()),
            ret matches Some(r) ==> r.v() == self.v() - rhs,
    { unimplemented!() }

    #[verifier::external_body]
    fn lt_const(self, rhs: Self) -> (ret: bool)
        ensures ret == (self.v() < rhs.v()),
    { unimplemented!() }

    #[verifier::external_body]
    fn le_const(self, rhs: Self) -> (ret: bool)
        ensures ret == (self.v() <= rhs.v()),
    { unimplemented!() }

    #[verifier::external_body]
    fn gt_const(self, rhs: Self) -> (ret: bool)
        ensures ret == (self.v() > rhs.v()),
    { unimplemented!() }

    #[verifier::external_body]
    fn ge_const(self, rhs: Self) -> (ret: bool)
        ensures ret == (self.v() >= rhs.v()),
    { unimplemented!() }

    #[verifier::external_body]
    fn eq_const(self, rhs: Self) -> (ret: bool)
        ensures ret == (self.v() == rhs.v()),
    { unimplemented!() }

    #[verifier::external_body]
    fn wrapping_neg(self) -> (ret: Self)
        ensures ret.v() == wrap(-self.v(), @SELF@::lo()),
    { unimplemented!() }

    #[verifier::external_body]
    fn as_unsigned(self) -> (ret: U@WIDTH@)
        ensures ret.v() == wrap(self.v(), 0),
    { unimplemented!() }

    #[verifier::external_body]
    fn as_signed(self) -> (ret: I@WIDTH@)
        ensures ret.v() == wrap(self.v(), -half()),
    { unimplemented!() }

    #[verifier::external_body]
    fn is_negative(self) -> (ret: bool)
        ensures ret == (self.v() < 0),
    { unimplemented!() }

    #[verifier::external_body]
    fn div_rem_ulimb(self, n: ULimb) -> (ret: (Self, ULimb))
        requires n != 0, @SELF@::lo() == 0,
        ensures ret.0.v() == self.v() / (n as int), ret.1 == self.v() % (n as int),
    { unimplemented!() }

    #[verifier::external_body]
    fn get_limb(self, index: usize) -> (ret: ULimb)
        requires index < @N@,
        ensures index == 0 && 0 <= self.v() < base() ==> ret == self.v(),
    { unimplemented!() }
}
