//! Contracts of the multiplication and division kernels, as used in the proofs of their callers.
//!
//! The kernels themselves are proved with Verus, for every array length, to return the exact product
//! and the exact quotient and remainder. In the proof of a caller the product is an arbitrary but
//! fixed function of the magnitudes of the factors about which only a few facts are known, and
//! likewise for the quotient and remainder. Natively both are computed, independently of the crate.

/// The kernels for the limbs of this configuration.
#[cfg(all(kani, not(feature = "limb32"), not(feature = "nostub")))]
pub mod kernel {
    pub use ::i256::math::mul::{overflowing_u64 as overflowing, widening_u64 as widening, wrapping_u64 as wrapping};
}

#[cfg(all(kani, feature = "limb32", not(feature = "nostub")))]
pub mod kernel {
    pub use ::i256::math::mul::{overflowing_u32 as overflowing, widening_u32 as widening, wrapping_u32 as wrapping};
}

/// The exact product of unsigned values.
pub fn product<const K: usize, const D: usize>(a: [u64; K], b: [u64; K]) -> [u64; D] {
    let mut r = [0u64; D];
    let mut i = 0;
    while i < K {
        let mut c = 0u128;
        let mut j = 0;
        while j < K {
            let t = (a[i] as u128) * (b[j] as u128) + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
            j += 1;
        }
        r[i + K] = c as u64;
        i += 1;
    }
    r
}

/// The exact quotient and remainder of unsigned values, bit by bit.
pub fn quotient<const K: usize>(n: [u64; K], d: [u64; K]) -> ([u64; K], [u64; K]) {
    use crate::spec::*;
    let (mut q, mut r) = ([0u64; K], [0u64; K]);
    let mut i = 64 * K;
    while i > 0 {
        i -= 1;
        let top = is_neg(r);
        r = shl(r, 1);
        r[0] |= (n[i / 64] >> (i % 64)) & 1;
        if top || !ult(r, d) {
            r = sub(r, d);
            q[i / 64] |= 1 << (i % 64);
        }
    }
    (q, r)
}

/// The limbs passed to and from the kernels.
#[macro_export]
macro_rules! kernels {
    () => {
        /// The words of the limbs, zero-extended.
        pub fn ext<const M: usize>(l: &[::i256::ULimb; M]) -> W {
            let mut r = [0; LIMBS];
            let mut i = 0;
            while i < M {
                r[i] = l[i];
                i += 1;
            }
            words(r)
        }

        /// The low limbs of the words.
        pub fn cut<const M: usize>(w: W) -> [::i256::ULimb; M] {
            let l = limbs(w);
            let mut r = [0; M];
            let mut i = 0;
            while i < M {
                r[i] = l[i];
                i += 1;
            }
            r
        }
    };
}

/// The exact products of the values of one width, and the contracts of the multiplication kernels.
#[macro_export]
macro_rules! products {
    () => {
        pub const KD: usize = 2 * K;
        /// Twice as many words.
        pub type D = [u64; KD];

        /// The product of magnitudes: any function with these properties.
        #[cfg(all(kani, not(feature = "nostub")))]
        fn magnitudes(a: W, b: W) -> D {
            static mut MEMO: Option<(W, W, D)> = None;
            unsafe {
                if let Some((x, y, p)) = MEMO {
                    if (eq(x, a) && eq(y, b)) || (eq(x, b) && eq(y, a)) {
                        return p;
                    }
                }
            }
            let p: D = Src::new().big();
            let (l, h): (W, W) = (low(p), high(p));
            // Magnitudes are at most 2^(BITS - 1).
            kani::assume(!ult(shr(smin(), 1), p));
            if is_zero(a) || is_zero(b) {
                kani::assume(is_zero(p));
            } else {
                kani::assume(!is_zero(p));
            }
            if eq(a, small(1)) {
                kani::assume(eq(l, b) && is_zero(h));
            }
            if eq(b, small(1)) {
                kani::assume(eq(l, a) && is_zero(h));
            }
            if eq(a, smin()) {
                kani::assume(eq(p, shl(zext(b), BITS - 1)));
            }
            if eq(b, smin()) {
                kani::assume(eq(p, shl(zext(a), BITS - 1)));
            }
            unsafe {
                if MEMO.is_none() {
                    MEMO = Some((a, b, p));
                }
            }
            p
        }

        pub fn low(p: D) -> W {
            zext(p)
        }

        pub fn high(p: D) -> W {
            zext(shr(p, BITS))
        }

        /// The exact product of signed values.
        #[cfg(all(kani, not(feature = "nostub")))]
        pub fn sprod(a: W, b: W) -> D {
            let p = magnitudes(abs(a), abs(b));
            if is_neg(a) != is_neg(b) {
                neg(p)
            } else {
                p
            }
        }

        #[cfg(not(all(kani, not(feature = "nostub"))))]
        pub fn sprod(a: W, b: W) -> D {
            let p: D = $crate::callee::product(abs(a), abs(b));
            if is_neg(a) != is_neg(b) {
                neg(p)
            } else {
                p
            }
        }

        /// The exact product of unsigned values.
        #[cfg(all(kani, not(feature = "nostub")))]
        pub fn uprod(a: W, b: W) -> D {
            // a and b are their signed values plus 2^BITS if these are negative.
            let p = sprod(a, b);
            let mut h = high(p);
            if is_neg(a) {
                h = add(h, b);
            }
            if is_neg(b) {
                h = add(h, a);
            }
            let n = 2 * BITS - leading_zeros(a) - leading_zeros(b);
            if n <= BITS {
                kani::assume(is_zero(h));
            }
            if n >= BITS + 2 {
                kani::assume(!is_zero(h));
            }
            let mut r: D = zext(p);
            let mut i = 0;
            while i < K {
                r[K + i] = h[i];
                i += 1;
            }
            r
        }

        #[cfg(not(all(kani, not(feature = "nostub"))))]
        pub fn uprod(a: W, b: W) -> D {
            $crate::callee::product(a, b)
        }

        /// Whether the exact product is in the range of the unsigned type.
        pub fn pfits_u(p: D) -> bool {
            is_zero(high(p))
        }

        /// Whether the exact product is in the range of the signed type.
        pub fn pfits_s(p: D) -> bool {
            eq(high(p), [if is_neg(low(p)) { u64::MAX } else { 0 }; K])
        }

        #[cfg(kani)]
        pub fn k_wrapping<const M: usize, const N: usize>(x: &[::i256::ULimb; M], y: &[::i256::ULimb; N]) -> [::i256::ULimb; M] {
            kani::assert(M >= N && M <= LIMBS, "requires lengths");
            cut(low(uprod(ext(x), ext(y))))
        }

        #[cfg(kani)]
        pub fn k_overflowing<const M: usize, const N: usize>(x: &[::i256::ULimb; M], y: &[::i256::ULimb; N]) -> ([::i256::ULimb; M], bool) {
            kani::assert(M >= N && M == LIMBS, "requires lengths");
            let p = uprod(ext(x), ext(y));
            (cut(low(p)), !pfits_u(p))
        }

        #[cfg(kani)]
        pub fn k_widening<const M: usize>(x: &[::i256::ULimb; M], y: &[::i256::ULimb; M]) -> ([::i256::ULimb; M], [::i256::ULimb; M]) {
            kani::assert(M == LIMBS, "requires lengths");
            let p = uprod(ext(x), ext(y));
            (cut(low(p)), cut(high(p)))
        }
    };
}

/// The exact quotients of the values of one width, and the contracts of the division kernels.
#[macro_export]
macro_rules! quotients {
    () => {
        /// What the proofs of the division kernels assume of the standard library.
        pub fn c_words(s: &mut Src) {
            use ::core::cmp::Ordering;
            let (a, b) = (s.u64() as ::i256::ULimb, s.u64() as ::i256::ULimb);
            let bits = ::i256::ULimb::BITS;
            let sum = a as u128 + b as u128;
            let (r, o) = a.overflowing_add(b);
            ens!(o == (sum >> bits != 0) && r as u128 == if o { sum - (1 << bits) } else { sum }, "overflowing_add of limbs");
            let (r, o) = a.overflowing_sub(b);
            ens!(o == (a < b) && r as u128 + b as u128 == a as u128 + ((o as u128) << bits), "overflowing_sub of limbs");
            let z = a.leading_zeros();
            ens!(z <= bits && (z == bits) == (a == 0), "leading_zeros of a limb in range");
            ens!(a == 0 || a >> (bits - 1 - z) == 1, "leading_zeros of a limb");
            ens!(Ordering::Less.reverse() == Ordering::Greater, "reverse of less");
            ens!(Ordering::Equal.reverse() == Ordering::Equal, "reverse of equal");
            ens!(Ordering::Greater.reverse() == Ordering::Less, "reverse of greater");
        }

        /// The quotient and remainder: any functions with these properties.
        #[cfg(all(kani, not(feature = "nostub")))]
        pub fn uquo(n: W, d: W) -> (W, W) {
            static mut MEMO: Option<(W, W, W, W)> = None;
            unsafe {
                if let Some((x, y, q, r)) = MEMO {
                    if eq(x, n) && eq(y, d) {
                        return (q, r);
                    }
                }
            }
            let (q, r): (W, W) = (Src::new().big(), Src::new().big());
            kani::assume(ult(r, d));
            if ult(n, d) {
                kani::assume(is_zero(q) && eq(r, n));
            } else {
                kani::assume(!is_zero(q));
            }
            if eq(n, d) {
                kani::assume(eq(q, small(1)) && is_zero(r));
            }
            if eq(d, small(1)) {
                kani::assume(eq(q, n) && is_zero(r));
            } else {
                kani::assume(!ult(shr(n, 1), q));
            }
            unsafe {
                if MEMO.is_none() {
                    MEMO = Some((n, d, q, r));
                }
            }
            (q, r)
        }

        #[cfg(not(all(kani, not(feature = "nostub"))))]
        pub fn uquo(n: W, d: W) -> (W, W) {
            $crate::callee::quotient(n, d)
        }

        /// The truncated quotient, modulo 2^BITS, and remainder of signed values.
        pub fn squo(n: W, d: W) -> (W, W) {
            let (q, r) = uquo(abs(n), abs(d));
            (if is_neg(n) != is_neg(d) { neg(q) } else { q }, if is_neg(n) { neg(r) } else { r })
        }

        #[cfg(kani)]
        fn zero_divisor() -> ! {
            panic!("division by zero")
        }

        #[cfg(kani)]
        pub fn k_full<const M: usize, const N: usize>(n: &[::i256::ULimb; M], d: &[::i256::ULimb; N]) -> ([::i256::ULimb; M], [::i256::ULimb; N]) {
            kani::assert(M >= N && M <= LIMBS, "requires lengths");
            let d = ext(d);
            if is_zero(d) {
                zero_divisor();
            }
            let (q, r) = uquo(ext(n), d);
            (cut(q), cut(r))
        }

        #[cfg(kani)]
        pub fn k_wide<const M: usize>(n: &[::i256::ULimb; M], d: ::i256::UWide) -> ([::i256::ULimb; M], ::i256::UWide) {
            kani::assert(M >= 2 && M <= LIMBS, "requires lengths");
            if d == 0 {
                zero_divisor();
            }
            let (q, r) = uquo(ext(n), from_u128(d as u128));
            (cut(q), (r[0] as u128 | (r[1] as u128) << 64) as ::i256::UWide)
        }

        #[cfg(kani)]
        pub fn k_limb<const M: usize>(n: &[::i256::ULimb; M], d: ::i256::ULimb) -> ([::i256::ULimb; M], ::i256::ULimb) {
            kani::assert(M >= 1 && M <= LIMBS, "requires lengths");
            if d == 0 {
                zero_divisor();
            }
            let (q, r) = uquo(ext(n), small(d as u64));
            (cut(q), r[0] as ::i256::ULimb)
        }

        #[cfg(kani)]
        pub fn k_u128<const M: usize>(n: &[::i256::ULimb; M], d: u128) -> ([::i256::ULimb; M], u128) {
            kani::assert(M >= 4 && M <= LIMBS, "requires lengths");
            if d == 0 {
                zero_divisor();
            }
            let (q, r) = uquo(ext(n), from_u128(d));
            (cut(q), r[0] as u128 | (r[1] as u128) << 64)
        }
    };
}

/// Exact powers, and the contracts of the functions computing them.
#[macro_export]
macro_rules! powers {
    () => {
        /// The power of an unsigned value modulo 2^BITS, and whether it is in range.
        #[cfg(not(kani))]
        fn upow(a: W, e: u32) -> (W, bool) {
            let (mut r, mut b, mut n): (W, W, u32) = (small(1), a, e);
            while n > 0 {
                if n % 2 == 1 {
                    r = low(uprod(r, b));
                }
                b = low(uprod(b, b));
                n /= 2;
            }
            // Powers of 2 and more are out of range from 2^BITS on.
            let mut fits = true;
            if ult(small(1), a) {
                let mut p: W = small(1);
                let mut i = 0;
                while i < e && fits {
                    let t = uprod(p, a);
                    fits = pfits_u(t);
                    p = low(t);
                    i += 1;
                }
            }
            (r, fits)
        }

        /// The same for a signed value.
        #[cfg(not(kani))]
        fn spow(a: W, e: u32) -> (W, bool) {
            let negative = is_neg(a) && e % 2 == 1;
            let (p, fits) = upow(abs(a), e);
            let fits = fits && if negative { !ult(smin(), p) } else { !is_neg(p) };
            (if negative { neg(p) } else { p }, fits)
        }

        fn same(x: &(W, u32), y: &(W, u32)) -> bool {
            eq(x.0, y.0) && x.1 == y.1
        }

        memo!(upow(a: W, e: u32) -> (W, bool), same same, any (Src::new().big(), kani::any()));
        memo!(spow(a: W, e: u32) -> (W, bool), same same, any (Src::new().big(), kani::any()));

        #[cfg(kani)]
        pub fn k_upow(x: U, e: u32) -> (U, bool) {
            let (w, fits) = upow(uw(x), e);
            (uu(w), !fits)
        }

        #[cfg(kani)]
        pub fn k_ipow(x: I, e: u32) -> (I, bool) {
            let (w, fits) = spow(iw(x), e);
            (ii(w), !fits)
        }

        #[cfg(kani)]
        pub fn k_uwpow(x: U, e: u32) -> U {
            uu(upow(uw(x), e).0)
        }

        #[cfg(kani)]
        pub fn k_iwpow(x: I, e: u32) -> I {
            ii(spow(iw(x), e).0)
        }

        /// A base, natively often small.
        fn base(s: &mut Src) -> W {
            let mut a: W = s.big();
            let small_one = s.below(4);
            if cfg!(not(kani)) {
                let (n, k) = (s.u8(), s.amount(BITS) % BITS);
                match small_one {
                    0 => a = small(n as u64),
                    1 => a = neg(small(n as u64)),
                    2 => a = shl(small(1), k),
                    _ => {},
                }
            }
            a
        }
    };
}

/// The contracts of the methods that the loops proved with Verus call, exactly as assumed there
/// (proofs/bigfns.rs and proofs/bigops.rs).
#[macro_export]
macro_rules! callees {
    () => {
        pub fn c_constants(s: &mut Src) {
            let (a, b) = (s.u8(), s.u32());
            ens!(is_u(U::from_u8(a), small(a as u64)), "from_u8 unsigned");
            ens!(is_i(I::from_u8(a), small(a as u64)), "from_u8 signed");
            ens!(is_u(U::from_u32(b), small(b as u64)), "from_u32 unsigned");
            ens!(is_i(I::from_u32(b), small(b as u64)), "from_u32 signed");
            let c = s.u128();
            ens!(is_u(U::from_u64(c as u64), small(c as u64)) && is_i(I::from_u64(c as u64), small(c as u64)), "from_u64");
            ens!(is_u(U::from_u128(c), from_u128(c)) && is_i(I::from_u128(c), from_u128(c)), "from_u128");
            ens!(is_i(I::from_i64(c as i64), from_i128(c as i64 as i128)), "from_i64 signed");
            ens!(is_i(I::from_i128(c as i128), from_i128(c as i128)), "from_i128 signed");
            if (c as i64) >= 0 {
                ens!(is_u(U::from_i64(c as i64), small(c as u64)), "from_i64 unsigned");
            }
            if (c as i128) >= 0 {
                ens!(is_u(U::from_i128(c as i128), from_u128(c)), "from_i128 unsigned");
            }
            ens!(U::BITS == BITS && I::BITS == BITS, "BITS");
            ens!(core::mem::size_of::<U>() == 8 * K && core::mem::size_of::<I>() == 8 * K, "size");
        }

        pub fn c_compare(s: &mut Src) {
            let (a, b): (W, W) = (s.big(), s.big());
            let (x, y) = (uu(a), uu(b));
            let (l, e) = (ult(a, b), eq(a, b));
            ens!(x.lt_const(y) == l && (x < y) == l, "< unsigned");
            ens!(x.le_const(y) == (l || e) && (x <= y) == (l || e), "<= unsigned");
            ens!(x.gt_const(y) == !(l || e) && (x > y) == !(l || e), "> unsigned");
            ens!(x.ge_const(y) == !l && (x >= y) == !l, ">= unsigned");
            ens!(x.eq_const(y) == e && (x == y) == e, "== unsigned");
            let (x, y) = (ii(a), ii(b));
            let l = slt(a, b);
            ens!(x.lt_const(y) == l && (x < y) == l, "< signed");
            ens!(x.le_const(y) == (l || e) && (x <= y) == (l || e), "<= signed");
            ens!(x.gt_const(y) == !(l || e) && (x > y) == !(l || e), "> signed");
            ens!(x.ge_const(y) == !l && (x >= y) == !l, ">= signed");
            ens!(x.eq_const(y) == e && (x == y) == e, "== signed");
            ens!(x.is_negative() == is_neg(a), "is_negative");
        }

        pub fn c_convert(s: &mut Src) {
            let a: W = s.big();
            ens!(is_u(uu(a).as_unsigned(), a) && is_u(ii(a).as_unsigned(), a), "as_unsigned");
            ens!(is_i(uu(a).as_signed(), a) && is_i(ii(a).as_signed(), a), "as_signed");
            ens!(is_u(uu(a).wrapping_neg(), neg(a)), "wrapping_neg unsigned");
            ens!(is_i(ii(a).wrapping_neg(), neg(a)), "wrapping_neg signed");
            ens!(uu(a).get_limb(0) == limbs(a)[0] && ii(a).get_limb(0) == limbs(a)[0], "get_limb");
        }

        pub fn c_ilog2(s: &mut Src) {
            let a: W = s.big();
            req!(!is_zero(a));
            ens!(uu(a).ilog2() == BITS - 1 - leading_zeros(a), "ilog2");
        }

        pub fn c_limb_add(s: &mut Src) {
            let a: W = s.big();
            let n = s.u64() as ::i256::ULimb;
            let y: X = small(n as u64);
            let e = add(xu(a), y);
            ens!(is_u(uu(a).wrapping_add_ulimb(n), lo(e)), "wrapping_add_ulimb unsigned");
            ens!(opt_u(uu(a).checked_add_ulimb(n), e), "checked_add_ulimb unsigned");
            let e = sub(xu(a), y);
            ens!(is_u(uu(a).wrapping_sub_ulimb(n), lo(e)), "wrapping_sub_ulimb unsigned");
            ens!(opt_u(uu(a).checked_sub_ulimb(n), e), "checked_sub_ulimb unsigned");
            let e = add(xs(a), y);
            ens!(is_i(ii(a).wrapping_add_ulimb(n), lo(e)), "wrapping_add_ulimb signed");
            ens!(opt_i(ii(a).checked_add_ulimb(n), e), "checked_add_ulimb signed");
            let e = sub(xs(a), y);
            ens!(is_i(ii(a).wrapping_sub_ulimb(n), lo(e)), "wrapping_sub_ulimb signed");
            ens!(opt_i(ii(a).checked_sub_ulimb(n), e), "checked_sub_ulimb signed");
        }
    };
}

/// The same for methods that call the multiplication kernels.
#[macro_export]
macro_rules! callees_mul {
    () => {
        fn popt_u(v: Option<U>, p: D) -> bool {
            match v {
                Some(v) => pfits_u(p) && is_u(v, low(p)),
                None => !pfits_u(p),
            }
        }

        fn popt_i(v: Option<I>, p: D) -> bool {
            match v {
                Some(v) => pfits_s(p) && is_i(v, low(p)),
                None => !pfits_s(p),
            }
        }

        pub fn c_limb_mul_u(s: &mut Src) {
            let a: W = s.big();
            let n = s.u64() as ::i256::ULimb;
            let p = uprod(a, small(n as u64));
            ens!(is_u(uu(a).wrapping_mul_ulimb(n), low(p)), "wrapping_mul_ulimb unsigned");
            ens!(popt_u(uu(a).checked_mul_ulimb(n), p), "checked_mul_ulimb unsigned");
        }

        pub fn c_limb_mul_i(s: &mut Src) {
            let a: W = s.big();
            let n = s.u64() as ::i256::ULimb;
            let p = sprod(a, small(n as u64));
            ens!(is_i(ii(a).wrapping_mul_ulimb(n), low(p)), "wrapping_mul_ulimb signed");
            ens!(popt_i(ii(a).checked_mul_ulimb(n), p), "checked_mul_ulimb signed");
        }

        pub fn c_mul_u(s: &mut Src) {
            let (a, b): (W, W) = (s.big(), s.big());
            let (x, y) = (uu(a), uu(b));
            let p = uprod(a, b);
            ens!(is_u(x.wrapping_mul(y), low(p)), "wrapping_mul unsigned");
            let (r, o) = x.overflowing_mul(y);
            ens!(is_u(r, low(p)) && o == !pfits_u(p), "overflowing_mul unsigned");
            ens!(popt_u(x.checked_mul(y), p), "checked_mul unsigned");
            if pfits_u(p) {
                ens!(is_u(x * y, low(p)), "* unsigned");
                let mut z = x;
                z *= y;
                ens!(is_u(z, low(p)), "*= unsigned");
            }
        }

        pub fn c_mul_i(s: &mut Src) {
            let (a, b): (W, W) = (s.big(), s.big());
            let (x, y) = (ii(a), ii(b));
            let p = sprod(a, b);
            ens!(is_i(x.wrapping_mul(y), low(p)), "wrapping_mul signed");
            let (r, o) = x.overflowing_mul(y);
            ens!(is_i(r, low(p)) && o == !pfits_s(p), "overflowing_mul signed");
            ens!(popt_i(x.checked_mul(y), p), "checked_mul signed");
        }
    };
}

/// The same for methods that call the division kernels.
#[macro_export]
macro_rules! callees_div {
    () => {
        pub fn c_div(s: &mut Src) {
            let (a, b): (W, W) = (s.big(), s.big());
            req!(!is_zero(b));
            ens!(is_u(uu(a) / uu(b), uquo(a, b).0), "/ unsigned");
        }

        pub fn c_limb_div(s: &mut Src) {
            let a: W = s.big();
            let n = s.u64() as ::i256::ULimb;
            req!(n != 0);
            let (q, r) = uu(a).div_rem_ulimb(n);
            let (eq_, er) = uquo(a, small(n as u64));
            ens!(is_u(q, eq_), "div_rem_ulimb quotient");
            ens!(eq(small(r as u64), er), "div_rem_ulimb remainder");
        }
    };
}

/// Every overflow policy of powers.
#[macro_export]
macro_rules! power_policies {
    () => {
        pub fn pow_unsigned(s: &mut Src) {
            let a = base(s);
            let e = s.amount(BITS);
            let x = uu(a);
            let (w, fits) = upow(a, e);
            ens!(is_u(x.wrapping_pow(e), w), "wrapping_pow unsigned");
            let (r, o) = x.overflowing_pow(e);
            ens!(is_u(r, w), "overflowing_pow unsigned");
            ens!(o == !fits, "overflowing_pow unsigned flag");
            match x.checked_pow(e) {
                Some(v) => ens!(fits && is_u(v, w), "checked_pow unsigned"),
                None => ens!(!fits, "checked_pow unsigned nothing"),
            }
            ens!(is_u(x.saturating_pow(e), if fits { w } else { [u64::MAX; K] }), "saturating_pow unsigned");
            if fits {
                ens!(is_u(x.strict_pow(e), w), "strict_pow unsigned");
            }
            if cfg!(not(checks)) || fits {
                ens!(is_u(x.pow(e), w), "pow unsigned");
            }
        }

        pub fn pow_signed(s: &mut Src) {
            let a = base(s);
            let e = s.amount(BITS);
            let x = ii(a);
            let (w, fits) = spow(a, e);
            ens!(is_i(x.wrapping_pow(e), w), "wrapping_pow signed");
            let (r, o) = x.overflowing_pow(e);
            ens!(is_i(r, w), "overflowing_pow signed");
            ens!(o == !fits, "overflowing_pow signed flag");
            match x.checked_pow(e) {
                Some(v) => ens!(fits && is_i(v, w), "checked_pow signed"),
                None => ens!(!fits, "checked_pow signed nothing"),
            }
            let bound = if is_neg(a) && e % 2 == 1 { smin() } else { smax() };
            ens!(is_i(x.saturating_pow(e), if fits { w } else { bound }), "saturating_pow signed");
            if fits {
                ens!(is_i(x.strict_pow(e), w), "strict_pow signed");
            }
            if cfg!(not(checks)) || fits {
                ens!(is_i(x.pow(e), w), "pow signed");
            }
        }

        pub fn pow_overflow(s: &mut Src) {
            let a = base(s);
            let e = s.amount(BITS);
            let k = s.below(if cfg!(checks) { 4 } else { 2 });
            req!(!(if k % 2 == 0 { upow(a, e).1 } else { spow(a, e).1 }));
            match k {
                0 => panics!(uu(a).strict_pow(e), "strict_pow unsigned"),
                1 => panics!(ii(a).strict_pow(e), "strict_pow signed"),
                2 => panics!(uu(a).pow(e), "pow unsigned"),
                _ => panics!(ii(a).pow(e), "pow signed"),
            }
        }
    };
}
