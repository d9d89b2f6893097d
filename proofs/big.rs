// The integers of one width as values, and the contracts of the methods that the loops call. Each of
// these contracts is proved with Kani on the real method in the same check.
spec fn modulus() -> int { pw(@N@) }

spec fn half() -> int { @HALF@ * pw(@N@ - 1) }

proof fn halves()
    ensures modulus() == 2 * half(), half() >= @HALF@,
{
    pw_pos(@N@ - 1);
    assert(pw(@N@) == base() * pw(@N@ - 1));
    assert(base() * pw(@N@ - 1) == 2 * (@HALF@ * pw(@N@ - 1))) by (nonlinear_arith) requires base() == 2 * @HALF@;
    assert(@HALF@ * pw(@N@ - 1) >= @HALF@) by (nonlinear_arith) requires pw(@N@ - 1) > 0;
}

// The values of a type are lo .. lo + modulus.
spec fn fits(x: int, lo: int) -> bool { lo <= x < lo + modulus() }

spec fn wrap(x: int, lo: int) -> int { (x - lo) % modulus() + lo }

// Equal modulo 2^BITS.
spec fn cong(a: int, b: int) -> bool { exists|k: int| a == b + #[trigger] times(k) }

spec fn times(k: int) -> int { k * modulus() }

proof fn cong_refl(a: int)
    ensures cong(a, a),
{
    assert(times(0) == 0) by (nonlinear_arith);
}

proof fn cong_trans(a: int, b: int, c: int)
    requires cong(a, b), cong(b, c),
    ensures cong(a, c),
{
    let k = choose|k: int| a == b + #[trigger] times(k);
    let l = choose|l: int| b == c + #[trigger] times(l);
    assert(a == c + times(k + l)) by (nonlinear_arith) requires a == b + times(k), b == c + times(l);
}

proof fn cong_mul(a: int, b: int, c: int, d: int)
    requires cong(a, b), cong(c, d),
    ensures cong(a * c, b * d),
{
    let k = choose|k: int| a == b + #[trigger] times(k);
    let l = choose|l: int| c == d + #[trigger] times(l);
    let m = modulus();
    assert(a * c == b * c + (k * m) * c) by (nonlinear_arith) requires a == b + k * m;
    assert(b * c == b * d + b * (l * m)) by (nonlinear_arith) requires c == d + l * m;
    assert((k * m) * c == (k * c) * m) by (nonlinear_arith);
    assert(b * (l * m) == (b * l) * m) by (nonlinear_arith);
    assert((k * c) * m + (b * l) * m == (k * c + b * l) * m) by (nonlinear_arith);
    assert(a * c == b * d + times(k * c + b * l));
}

proof fn cong_add(a: int, b: int, c: int, d: int)
    requires cong(a, b), cong(c, d),
    ensures cong(a + c, b + d), cong(a - c, b - d),
{
    let k = choose|k: int| a == b + #[trigger] times(k);
    let l = choose|l: int| c == d + #[trigger] times(l);
    let m = modulus();
    assert(a + c == b + d + times(k + l)) by (nonlinear_arith) requires a == b + times(k), c == d + times(l);
    assert(a - c == b - d + times(k - l)) by (nonlinear_arith) requires a == b + times(k), c == d + times(l);
}

proof fn wrap_facts(x: int, lo: int)
    ensures fits(wrap(x, lo), lo), cong(wrap(x, lo), x), fits(x, lo) ==> wrap(x, lo) == x,
{
    pw_pos(@N@);
    let m = modulus();
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x - lo, m);
    vstd::arithmetic::div_mod::lemma_mod_bound(x - lo, m);
    let q = (x - lo) / m;
    assert((-q) * m == -(m * q)) by (nonlinear_arith);
    assert(wrap(x, lo) == x + times(-q));
    if fits(x, lo) {
        vstd::arithmetic::div_mod::lemma_small_mod((x - lo) as nat, m as nat);
    }
}

// A value in range that is equal modulo 2^BITS is the wrapped value.
proof fn wrap_is(a: int, x: int, lo: int)
    requires fits(a, lo), cong(a, x),
    ensures a == wrap(x, lo),
{
    pw_pos(@N@);
    let m = modulus();
    let k = choose|k: int| a == x + #[trigger] times(k);
    assert(x - lo == (-k) * m + (a - lo)) by (nonlinear_arith) requires a == x + k * m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x - lo, m, -k, a - lo);
}

spec fn power(b: int, e: int) -> int
    decreases e,
{
    if e <= 0 { 1 } else { b * power(b, e - 1) }
}

proof fn power_add(b: int, i: int, j: int)
    requires i >= 0, j >= 0,
    ensures power(b, i + j) == power(b, i) * power(b, j),
    decreases i,
{
    if i > 0 {
        power_add(b, i - 1, j);
        assert(b * (power(b, i - 1) * power(b, j)) == (b * power(b, i - 1)) * power(b, j)) by (nonlinear_arith);
    }
}

proof fn power_mul(b: int, i: int, j: int)
    requires i >= 0, j >= 0,
    ensures power(b, i * j) == power(power(b, i), j),
    decreases j,
{
    if j > 0 {
        power_mul(b, i, j - 1);
        assert(i * j == i + i * (j - 1)) by (nonlinear_arith);
        assert(i * (j - 1) >= 0) by (nonlinear_arith) requires i >= 0, j >= 1;
        power_add(b, i, i * (j - 1));
    } else {
        assert(i * 0 == 0) by (nonlinear_arith);
    }
}

proof fn cong_power(a: int, b: int, e: int)
    requires cong(a, b), e >= 0,
    ensures cong(power(a, e), power(b, e)),
    decreases e,
{
    if e > 0 {
        cong_power(a, b, e - 1);
        cong_mul(a, b, power(a, e - 1), power(b, e - 1));
    } else {
        cong_refl(1);
    }
}

proof fn power_pos(b: int, e: int)
    requires b >= 1,
    ensures power(b, e) >= 1,
    decreases e,
{
    if e > 0 {
        power_pos(b, e - 1);
        assert(b * power(b, e - 1) >= 1) by (nonlinear_arith) requires b >= 1, power(b, e - 1) >= 1;
    }
}

// Larger bases and larger exponents have larger powers.
proof fn power_mono(a: int, b: int, i: int, j: int)
    requires 1 <= a <= b, 0 <= i <= j,
    ensures 1 <= power(a, i) <= power(b, j),
    decreases j,
{
    power_pos(a, i);
    power_pos(b, j - 1);
    if i < j {
        power_mono(a, b, i, j - 1);
        assert(b * power(b, j - 1) >= power(b, j - 1)) by (nonlinear_arith) requires b >= 1, power(b, j - 1) >= 1;
    } else if j > 0 {
        power_mono(a, b, i - 1, j - 1);
        assert(b * power(b, j - 1) >= a * power(a, i - 1)) by (nonlinear_arith)
            requires 1 <= a <= b, 1 <= power(a, i - 1) <= power(b, j - 1);
    }
}

// 2^BITS
proof fn power_base(k: int)
    requires k >= 0,
    ensures power(2, @BITS@ * k) == pw(k),
    decreases k,
{
    if k > 0 {
        power_base(k - 1);
        power_add(2, @BITS@, @BITS@ * (k - 1));
        assert(power(2, @BITS@) == base()) by (compute);
    }
}

// The types are wider than the primitive ones.
proof fn wide()
    ensures half() >= 0x8000_0000_0000_0000_0000_0000_0000_0000,
{
    power_base(@N@);
    power_mono(2, 2, 127, @WIDTH@ - 1);
    halves();
    assert(power(2, @WIDTH@) == 2 * power(2, @WIDTH@ - 1));
    assert(power(2, 127) == 0x8000_0000_0000_0000_0000_0000_0000_0000) by (compute);
}

type ULimb = @T@;
type UWide = @W@;

#[derive(Clone, Copy)]
pub struct U@WIDTH@ { limbs: [@T@; @N@] }

#[derive(Clone, Copy)]
pub struct I@WIDTH@ { limbs: [@T@; @N@] }

impl U@WIDTH@ {
    pub closed spec fn lo() -> int { 0 }

    #[verifier::opaque]
    pub closed spec fn v(self) -> int { val(self.limbs@, @N@) }

    proof fn range(self)
        ensures fits(self.v(), Self::lo()), 0 <= self.v() < modulus(), modulus() == 2 * half(), half() >= @HALF@,
    {
        reveal(U@WIDTH@::v);
        val_bound(self.limbs@, @N@);
        halves();
    }
}

impl I@WIDTH@ {
    pub closed spec fn lo() -> int { -half() }

    #[verifier::opaque]
    pub closed spec fn v(self) -> int {
        if val(self.limbs@, @N@) < half() { val(self.limbs@, @N@) } else { val(self.limbs@, @N@) - modulus() }
    }

    proof fn range(self)
        ensures fits(self.v(), Self::lo()), -half() <= self.v() < half(), modulus() == 2 * half(), half() >= @HALF@,
    {
        reveal(I@WIDTH@::v);
        val_bound(self.limbs@, @N@);
        halves();
    }
}
