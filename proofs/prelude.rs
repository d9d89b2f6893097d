// The value of a little-endian array of limbs, and facts about it.
pub open spec fn base() -> int { @B@ }

spec fn pw(k: int) -> int
    decreases k,
{
    if k <= 0 { 1 } else { base() * pw(k - 1) }
}

spec fn val(s: Seq<@T@>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { val(s, n - 1) + s[n - 1] as int * pw(n - 1) }
}

spec fn whole(s: Seq<@T@>) -> int { val(s, s.len() as int) }

proof fn pw_pos(k: int)
    ensures pw(k) > 0,
    decreases k,
{
    if k > 0 {
        pw_pos(k - 1);
        assert(base() * pw(k - 1) > 0) by (nonlinear_arith) requires pw(k - 1) > 0, base() == @B@;
    }
}

proof fn pw_add(a: int, b: int)
    requires a >= 0, b >= 0,
    ensures pw(a + b) == pw(a) * pw(b),
    decreases a,
{
    if a > 0 {
        pw_add(a - 1, b);
        assert(base() * (pw(a - 1) * pw(b)) == (base() * pw(a - 1)) * pw(b)) by (nonlinear_arith);
    }
}

proof fn pw_mono(a: int, b: int)
    requires 0 <= a <= b,
    ensures pw(a) <= pw(b),
    decreases b,
{
    if a < b {
        pw_mono(a, b - 1);
        pw_pos(b - 1);
        assert(pw(b) == base() * pw(b - 1));
        assert(base() * pw(b - 1) >= pw(b - 1)) by (nonlinear_arith) requires pw(b - 1) > 0, base() == @B@;
    }
}

proof fn val_bound(s: Seq<@T@>, n: int)
    requires n <= s.len(),
    ensures 0 <= val(s, n) < pw(n),
    decreases n,
{
    pw_pos(n);
    if n > 0 {
        val_bound(s, n - 1);
        pw_pos(n - 1);
        let (p, d) = (pw(n - 1), s[n - 1] as int);
        assert(0 <= d * p && d * p + p <= base() * p) by (nonlinear_arith)
            requires 0 <= d < base(), p > 0;
    }
}

proof fn val_same(s: Seq<@T@>, t: Seq<@T@>, n: int)
    requires n <= s.len(), n <= t.len(), forall|k: int| 0 <= k < n ==> s[k] == t[k],
    ensures val(s, n) == val(t, n),
    decreases n,
{
    if n > 0 { val_same(s, t, n - 1); }
}

proof fn val_update(s: Seq<@T@>, i: int, v: @T@, n: int)
    requires 0 <= i < s.len(), n <= s.len(),
    ensures val(s.update(i, v), n) == if i < n { val(s, n) + (v - s[i]) * pw(i) } else { val(s, n) },
    decreases n,
{
    if n > 0 {
        val_update(s, i, v, n - 1);
        if i == n - 1 {
            assert((v - s[i]) * pw(i) == v as int * pw(i) - s[i] as int * pw(i)) by (nonlinear_arith);
        }
    }
}

// Nothing above m.
proof fn val_pad(s: Seq<@T@>, m: int, n: int)
    requires 0 <= m <= n <= s.len(), forall|k: int| m <= k < n ==> s[k] == 0,
    ensures val(s, n) == val(s, m),
    decreases n,
{
    if m < n { val_pad(s, m, n - 1); }
}

proof fn val_zero(s: Seq<@T@>, n: int)
    requires n <= s.len(), forall|k: int| 0 <= k < n ==> s[k] == 0,
    ensures val(s, n) == 0,
    decreases n,
{
    if n > 0 { val_zero(s, n - 1); }
}

proof fn val_some(s: Seq<@T@>, k: int, n: int)
    requires 0 <= k < n <= s.len(), s[k] != 0,
    ensures val(s, n) >= pw(k) > 0,
    decreases n,
{
    val_bound(s, n - 1);
    pw_pos(n - 1);
    pw_pos(k);
    let (p, d) = (pw(n - 1), s[n - 1] as int);
    if k == n - 1 {
        assert(d * p >= p) by (nonlinear_arith) requires d >= 1, p > 0;
    } else {
        val_some(s, k, n - 1);
        assert(d * p >= 0) by (nonlinear_arith) requires d >= 0, p > 0;
    }
}

// The limbs from k on, as a number.
spec fn part(s: Seq<@T@>, k: int, n: int) -> int
    decreases n - k,
{
    if n <= k { 0 } else { part(s, k, n - 1) + s[n - 1] as int * pw(n - 1 - k) }
}

proof fn val_split(s: Seq<@T@>, k: int, n: int)
    requires 0 <= k <= n <= s.len(),
    ensures val(s, n) == val(s, k) + pw(k) * part(s, k, n),
    decreases n,
{
    if k < n {
        val_split(s, k, n - 1);
        pw_add(k, n - 1 - k);
        let (p, q, d, a) = (pw(k), pw(n - 1 - k), s[n - 1] as int, part(s, k, n - 1));
        assert(d * (p * q) + p * a == p * (a + d * q)) by (nonlinear_arith);
    } else {
        assert(pw(k) * 0 == 0) by (nonlinear_arith);
    }
}

proof fn part_bound(s: Seq<@T@>, k: int, n: int)
    requires 0 <= k <= n <= s.len(),
    ensures 0 <= part(s, k, n) < pw(n - k),
    decreases n,
{
    pw_pos(n - k);
    if k < n {
        part_bound(s, k, n - 1);
        pw_pos(n - 1 - k);
        let (p, d) = (pw(n - 1 - k), s[n - 1] as int);
        assert(pw(n - k) == base() * p);
        assert(0 <= d * p && d * p + p <= base() * p) by (nonlinear_arith)
            requires 0 <= d < base(), p > 0;
    }
}

proof fn part_zero(s: Seq<@T@>, k: int, n: int)
    requires 0 <= k <= n <= s.len(), forall|i: int| k <= i < n ==> s[i] == 0,
    ensures part(s, k, n) == 0,
    decreases n,
{
    if k < n { part_zero(s, k, n - 1); }
}

proof fn part_some(s: Seq<@T@>, k: int, i: int, n: int)
    requires 0 <= k <= i < n <= s.len(), s[i] != 0,
    ensures part(s, k, n) > 0,
    decreases n,
{
    part_bound(s, k, n - 1);
    pw_pos(n - 1 - k);
    let (p, d) = (pw(n - 1 - k), s[n - 1] as int);
    if i == n - 1 {
        assert(d * p > 0) by (nonlinear_arith) requires d >= 1, p > 0;
    } else {
        part_some(s, k, i, n - 1);
        assert(d * p >= 0) by (nonlinear_arith) requires d >= 0, p > 0;
    }
}

proof fn part_all(s: Seq<@T@>, n: int)
    requires n <= s.len(),
    ensures part(s, 0, n) == val(s, n),
    decreases n,
{
    if n > 0 { part_all(s, n - 1); }
}

proof fn part_update(s: Seq<@T@>, i: int, v: @T@, k: int, n: int)
    requires 0 <= i < s.len(), 0 <= k <= n <= s.len(),
    ensures part(s.update(i, v), k, n) == if k <= i < n { part(s, k, n) + (v - s[i]) * pw(i - k) } else { part(s, k, n) },
    decreases n,
{
    if k < n {
        part_update(s, i, v, k, n - 1);
        if i == n - 1 {
            assert((v - s[i]) * pw(i - k) == v as int * pw(i - k) - s[i] as int * pw(i - k)) by (nonlinear_arith);
        }
    }
}

proof fn mod_unique(a: int, v: int, h: int, p: int)
    requires a == v + h * p, 0 <= v < p, h >= 0,
    ensures a % p == v, a / p == h, a >= p <==> h > 0,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, p, h, v);
    assert(h > 0 ==> h * p >= p) by (nonlinear_arith) requires p > 0;
    assert(h * p == p * h) by (nonlinear_arith);
}

#[verifier::external_body]
fn vpanic() -> !
    requires false,
{
    panic!()
}
