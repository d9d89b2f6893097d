//! Powers, logarithms and powers of two are exact.

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);
            kernels!();
            products!();
            quotients!();
            callees!();
            callees_mul!();
            callees_div!();

            powers!();
            power_policies!();

            /// The logarithm of a value for a base of at least 2.
            #[cfg(not(kani))]
            fn ulog(a: W, b: W) -> u32 {
                let (mut n, mut q) = (0, a);
                while !ult(q, b) {
                    q = uquo(q, b).0;
                    n += 1;
                }
                n
            }

            memo!(ulog(a: W, b: W) -> u32, same |x, y| eq(x.0, y.0) && eq(x.1, y.1), any kani::any());

            #[cfg(kani)]
            pub fn k_ilog(x: U, b: U) -> Option<u32> {
                let (a, b) = (uw(x), uw(b));
                if is_zero(a) || !ult(small(1), b) {
                    None
                } else {
                    Some(ulog(a, b))
                }
            }

            pub fn log(s: &mut Src) {
                let a: W = s.big();
                let b = base(s);
                let bad = is_zero(a) || !ult(small(1), b);
                match uu(a).checked_ilog(uu(b)) {
                    Some(n) => ens!(!bad && n == ulog(a, b), "checked_ilog unsigned"),
                    None => ens!(bad, "checked_ilog unsigned nothing"),
                }
                if !bad {
                    ens!(uu(a).ilog(uu(b)) == ulog(a, b), "ilog unsigned");
                }
                let bad = bad || is_neg(a) || is_neg(b);
                match ii(a).checked_ilog(ii(b)) {
                    Some(n) => ens!(!bad && n == ulog(a, b), "checked_ilog signed"),
                    None => ens!(bad, "checked_ilog signed nothing"),
                }
                if !bad {
                    ens!(ii(a).ilog(ii(b)) == ulog(a, b), "ilog signed");
                }
            }

            pub fn no_log(s: &mut Src) {
                let a: W = s.big();
                let b = base(s);
                let bad = is_zero(a) || !ult(small(1), b);
                if s.bool() {
                    req!(bad);
                    panics!(uu(a).ilog(uu(b)), "ilog unsigned");
                } else {
                    req!(bad || is_neg(a) || is_neg(b));
                    panics!(ii(a).ilog(ii(b)), "ilog signed");
                }
            }

            pub fn log2(s: &mut Src) {
                let a: W = s.big();
                let n = BITS.wrapping_sub(1 + leading_zeros(a));
                match uu(a).checked_ilog2() {
                    Some(r) => ens!(!is_zero(a) && r == n, "checked_ilog2 unsigned"),
                    None => ens!(is_zero(a), "checked_ilog2 unsigned nothing"),
                }
                if !is_zero(a) {
                    ens!(uu(a).ilog2() == n, "ilog2 unsigned");
                }
                let bad = is_zero(a) || is_neg(a);
                match ii(a).checked_ilog2() {
                    Some(r) => ens!(!bad && r == n, "checked_ilog2 signed"),
                    None => ens!(bad, "checked_ilog2 signed nothing"),
                }
                if !bad {
                    ens!(ii(a).ilog2() == n, "ilog2 signed");
                }
            }

            pub fn no_log2(s: &mut Src) {
                if s.bool() {
                    panics!(uu([0; K]).ilog2(), "ilog2 unsigned");
                } else {
                    let a: W = s.big();
                    req!(is_zero(a) || is_neg(a));
                    panics!(ii(a).ilog2(), "ilog2 signed");
                }
            }

            /// The smallest power of two at or above the value, or nothing.
            fn next_power(a: W) -> Option<W> {
                if !ult(small(1), a) {
                    return Some(small(1));
                }
                let n = BITS - leading_zeros(sub(a, small(1)));
                if n == BITS {
                    None
                } else {
                    Some(shl(small(1), n))
                }
            }

            pub fn power_of_two(s: &mut Src) {
                let a: W = s.big();
                let x = uu(a);
                ens!(x.is_power_of_two() == (ones(a) == 1), "is_power_of_two");
                let e = next_power(a);
                ens!(is_u(x.wrapping_next_power_of_two(), e.unwrap_or([0; K])), "wrapping_next_power_of_two");
                match x.checked_next_power_of_two() {
                    Some(v) => ens!(e.is_some() && is_u(v, e.unwrap_or([0; K])), "checked_next_power_of_two"),
                    None => ens!(e.is_none(), "checked_next_power_of_two nothing"),
                }
                if cfg!(not(checks)) || e.is_some() {
                    ens!(is_u(x.next_power_of_two(), e.unwrap_or([0; K])), "next_power_of_two");
                }
            }

            pub fn no_power_of_two(s: &mut Src) {
                let a: W = s.big();
                req!(next_power(a).is_none());
                if cfg!(checks) {
                    panics!(uu(a).next_power_of_two(), "next_power_of_two");
                } else {
                    panics!(uu([0; K]).ilog2(), "ilog2 unsigned");
                }
            }

            harness!(
                c_words log2 power_of_two c_constants c_compare c_ilog2;
                panics no_log2 no_power_of_two;
                stubs [
                    (::i256::$U::overflowing_pow, super::k_upow) (::i256::$I::overflowing_pow, super::k_ipow)
                    (::i256::$U::wrapping_pow, super::k_uwpow) (::i256::$I::wrapping_pow, super::k_iwpow)
                    (::i256::$U::checked_ilog, super::k_ilog)
                ]
                pow_unsigned pow_signed log,
                panics pow_overflow no_log;
                stubs [
                    (crate::callee::kernel::wrapping, super::k_wrapping) (crate::callee::kernel::overflowing, super::k_overflowing)
                ]
                c_mul_u c_mul_i;
                stubs [
                    (::i256::math::div::full, super::k_full) (::i256::math::div::limb, super::k_limb)
                ]
                c_div
            );
        }
    };
}

widths!(def);
