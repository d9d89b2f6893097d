// Numerals: digits are 0-9, then A-Z or a-z.
spec fn digit_of(c: u8) -> int {
    if 48 <= c <= 57 { c - 48 } else if 65 <= c <= 90 { c - 55 } else if 97 <= c <= 122 { c - 87 } else { 255 }
}

spec fn is_numeral(s: Seq<u8>, i: int, k: int, radix: int) -> bool {
    forall|j: int| i <= j < k ==> digit_of(#[trigger] s[j]) < radix
}

spec fn value_of(s: Seq<u8>, i: int, k: int, radix: int) -> int
    decreases k - i,
{
    if k <= i { 0 } else { value_of(s, i, k - 1, radix) * radix + digit_of(s[k - 1]) }
}

proof fn value_range(s: Seq<u8>, i: int, k: int, radix: int)
    requires radix >= 2, i <= k, is_numeral(s, i, k, radix),
    ensures 0 <= value_of(s, i, k, radix) < power(radix, k - i),
    decreases k - i,
{
    if i < k {
        value_range(s, i, k - 1, radix);
        let (v, p) = (value_of(s, i, k - 1, radix), power(radix, k - 1 - i));
        assert(0 <= v * radix <= (p - 1) * radix) by (nonlinear_arith) requires 0 <= v <= p - 1, radix >= 2;
        assert((p - 1) * radix == radix * p - radix) by (nonlinear_arith);
        assert(digit_of(s[k - 1]) < radix);
    }
}

// A longer numeral is not smaller.
proof fn value_grows(s: Seq<u8>, i: int, k: int, n: int, radix: int)
    requires radix >= 2, i <= k <= n, is_numeral(s, i, n, radix),
    ensures value_of(s, i, k, radix) <= value_of(s, i, n, radix),
    decreases n - k,
{
    if k < n {
        value_grows(s, i, k, n - 1, radix);
        value_range(s, i, n - 1, radix);
        let v = value_of(s, i, n - 1, radix);
        assert(v * radix >= v) by (nonlinear_arith) requires v >= 0, radix >= 2;
    }
}

// So many digits cannot be out of range.
proof fn capacity(radix: int, n: int, signed: bool)
    requires 2 <= radix <= 36, n >= 0, (radix <= 16 && 4 * n <= @WIDTH@ - (if signed { 1int } else { 0 })) || 6 * n <= @WIDTH@ - (if signed { 1int } else { 0 }),
    ensures power(radix, n) <= (if signed { half() } else { modulus() }),
{
    halves();
    let w = if signed { @WIDTH@ - 1 } else { @WIDTH@int };
    power_base(@N@);
    assert(power(2, @WIDTH@) == 2 * power(2, @WIDTH@ - 1));
    assert(power(2, 4) == 16) by (compute);
    assert(power(2, 6) == 64) by (compute);
    if radix <= 16 && 4 * n <= w {
        power_mono(radix, 16, n, n);
        power_mul(2, 4, n);
        power_mono(2, 2, 4 * n, w);
    } else {
        power_mono(radix, 64, n, n);
        power_mul(2, 6, n);
        power_mono(2, 2, 6 * n, w);
    }
}

// Where the digits start.
spec fn first(s: Seq<u8>, signed: bool) -> int {
    if s.len() > 0 && (s[0] == 43 || (s[0] == 45 && signed)) { 1 } else { 0 }
}

spec fn minus(s: Seq<u8>, signed: bool) -> bool { s.len() > 0 && s[0] == 45 && signed }

spec fn number(s: Seq<u8>, k: int, radix: int, signed: bool) -> int {
    if minus(s, signed) { -value_of(s, first(s, signed), k, radix) } else { value_of(s, first(s, signed), k, radix) }
}

// One more digit.
proof fn next(s: Seq<u8>, k: int, radix: int, signed: bool)
    requires first(s, signed) <= k < s.len(), 2 <= radix <= 36, is_numeral(s, first(s, signed), k, radix),
    ensures
        !minus(s, signed) ==> number(s, k + 1, radix, signed) == number(s, k, radix, signed) * radix + digit_of(s[k]),
        minus(s, signed) ==> number(s, k + 1, radix, signed) == number(s, k, radix, signed) * radix - digit_of(s[k]),
        is_numeral(s, first(s, signed), k + 1, radix) == (digit_of(s[k]) < radix),
        minus(s, signed) ==> number(s, k, radix, signed) <= 0,
        !minus(s, signed) ==> number(s, k, radix, signed) >= 0,
{
    let v = value_of(s, first(s, signed), k, radix);
    value_range(s, first(s, signed), k, radix);
    assert(value_of(s, first(s, signed), k + 1, radix) == v * radix + digit_of(s[k]));
    assert((-v) * radix == -(v * radix)) by (nonlinear_arith);
}

// Out of the range lo .. hi from the k-th digit on.
spec fn beyond(s: Seq<u8>, k: int, radix: int, lo: int, hi: int) -> bool {
    first(s, lo < 0) <= k <= s.len() && is_numeral(s, first(s, lo < 0), k, radix) && !(lo <= number(s, k, radix, lo < 0) < hi)
}

proof fn beyond_stays(s: Seq<u8>, k: int, radix: int, lo: int, hi: int)
    requires beyond(s, k, radix, lo, hi), 2 <= radix <= 36, is_numeral(s, first(s, lo < 0), s.len() as int, radix), lo <= 0 < hi,
    ensures !(lo <= number(s, s.len() as int, radix, lo < 0) < hi),
{
    value_range(s, first(s, lo < 0), k, radix);
    value_grows(s, first(s, lo < 0), k, s.len() as int, radix);
}

pub enum Kind { Empty, InvalidDigit, PosOverflow, NegOverflow, Other }

// The result of parsing for a type with the values lo .. hi.
spec fn parsed(s: Seq<u8>, r: int, lo: int, hi: int, out: Result<int, Kind>) -> bool {
    let n = s.len() as int;
    let good = first(s, lo < 0) < n && is_numeral(s, first(s, lo < 0), n, r);
    &&& out matches Ok(x) ==> good && x == number(s, n, r, lo < 0)
    &&& good && lo <= number(s, n, r, lo < 0) < hi ==> out is Ok
    &&& out matches Err(e) ==> match e {
        Kind::Empty => n == 0,
        Kind::InvalidDigit => n > 0 && !good,
        Kind::PosOverflow => !minus(s, lo < 0) && exists|k: int| beyond(s, k, r, lo, hi),
        Kind::NegOverflow =>
            if minus(s, lo < 0) { exists|k: int| beyond(s, k, r, lo, hi) } else { n > 0 && s[0] == 45 },
        Kind::Other => false,
    }
    &&& n == 0 ==> out == Err::<int, Kind>(Kind::Empty)
}
