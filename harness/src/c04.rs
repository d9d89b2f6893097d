//! Euclidean, floor, ceiling and next-multiple rounding are correct.

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);
            kernels!();
            quotients!();

            pub fn unsigned(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (uu(a), uu(b));
                let (q, r) = uquo(a, b);

                ens!(is_u(x.wrapping_div_euclid(y), q), "wrapping_div_euclid unsigned");
                ens!(is_u(x.wrapping_rem_euclid(y), r), "wrapping_rem_euclid unsigned");
                let (u, o) = x.overflowing_div_euclid(y);
                ens!(is_u(u, q) && !o, "overflowing_div_euclid unsigned");
                let (u, o) = x.overflowing_rem_euclid(y);
                ens!(is_u(u, r) && !o, "overflowing_rem_euclid unsigned");
                match x.checked_div_euclid(y) {
                    Some(u) => ens!(is_u(u, q), "checked_div_euclid unsigned"),
                    None => ens!(false, "checked_div_euclid unsigned, nothing"),
                }
                match x.checked_rem_euclid(y) {
                    Some(u) => ens!(is_u(u, r), "checked_rem_euclid unsigned"),
                    None => ens!(false, "checked_rem_euclid unsigned, nothing"),
                }
                ens!(is_u(x.div_euclid(y), q), "div_euclid unsigned");
                ens!(is_u(x.rem_euclid(y), r), "rem_euclid unsigned");
                ens!(is_u(x.strict_div_euclid(y), q), "strict_div_euclid unsigned");
                ens!(is_u(x.strict_rem_euclid(y), r), "strict_rem_euclid unsigned");

                ens!(is_u(x.div_floor(y), q), "div_floor unsigned");
                ens!(is_u(x.div_ceil(y), if is_zero(r) { q } else { add(q, small(1)) }), "div_ceil unsigned");
                ens!(x.is_multiple_of(y) == is_zero(r), "is_multiple_of");
            }

            /// The next multiple of an unsigned value.
            fn umultiple(a: W, b: W) -> X {
                let (_, r) = uquo(a, b);
                if is_zero(r) {
                    xu(a)
                } else {
                    add(xu(a), sub(xu(b), xu(r)))
                }
            }

            pub fn unsigned_multiple(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (uu(a), uu(b));
                let e = umultiple(a, b);
                ens!(opt_u(x.checked_next_multiple_of(y), e), "checked_next_multiple_of unsigned");
                if cfg!(not(checks)) || fits_u(e) {
                    ens!(is_u(x.next_multiple_of(y), lo(e)), "next_multiple_of unsigned");
                }
            }

            pub fn unsigned_multiple_overflow(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b) && !fits_u(umultiple(a, b)));
                panics!(uu(a).next_multiple_of(uu(b)), "next_multiple_of unsigned with overflow");
            }

            /// The Euclidean quotient and remainder of signed values.
            fn euclid(a: W, b: W) -> (W, W) {
                let (q, r) = squo(a, b);
                if !is_neg(r) {
                    (q, r)
                } else if is_neg(b) {
                    (add(q, small(1)), sub(r, b))
                } else {
                    (sub(q, small(1)), add(r, b))
                }
            }

            fn minimum_by_minus_one(a: W, b: W) -> bool {
                eq(a, smin()) && eq(b, not([0; K]))
            }

            pub fn euclid_wrapping(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let (q, r) = euclid(a, b);
                ens!(!is_neg(r), "remainder is not negative");
                ens!(ult(r, abs(b)), "remainder is below the divisor");
                ens!(is_i(x.wrapping_div_euclid(y), q), "wrapping_div_euclid signed");
                ens!(is_i(x.wrapping_rem_euclid(y), r), "wrapping_rem_euclid signed");
            }

            pub fn euclid_overflowing(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let (q, r) = euclid(a, b);
                let over = minimum_by_minus_one(a, b);
                let (u, o) = x.overflowing_div_euclid(y);
                ens!(is_i(u, q) && o == over, "overflowing_div_euclid signed");
                let (u, o) = x.overflowing_rem_euclid(y);
                ens!(is_i(u, r) && o == over, "overflowing_rem_euclid signed");
            }

            pub fn euclid_checked(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let (q, r) = euclid(a, b);
                let over = minimum_by_minus_one(a, b);
                match x.checked_div_euclid(y) {
                    Some(u) => ens!(!over && is_i(u, q), "checked_div_euclid signed"),
                    None => ens!(over, "checked_div_euclid signed, nothing"),
                }
                match x.checked_rem_euclid(y) {
                    Some(u) => ens!(!over && is_i(u, r), "checked_rem_euclid signed"),
                    None => ens!(over, "checked_rem_euclid signed, nothing"),
                }
            }

            pub fn euclid_operators(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let (q, r) = euclid(a, b);
                let over = minimum_by_minus_one(a, b);
                if cfg!(not(checks)) || !over {
                    ens!(is_i(x.div_euclid(y), q), "div_euclid signed");
                    ens!(is_i(x.rem_euclid(y), r), "rem_euclid signed");
                }
                if !over {
                    ens!(is_i(x.strict_div_euclid(y), q), "strict_div_euclid signed");
                    ens!(is_i(x.strict_rem_euclid(y), r), "strict_rem_euclid signed");
                }
            }

            pub fn rounding(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b) && !minimum_by_minus_one(a, b));
                let (x, y) = (ii(a), ii(b));
                let (q, r) = squo(a, b);
                let below = is_neg(a) != is_neg(b);
                let floor = if !is_zero(r) && below { sub(q, small(1)) } else { q };
                let ceil = if !is_zero(r) && !below { add(q, small(1)) } else { q };
                ens!(is_i(x.div_floor(y), floor), "div_floor signed");
                ens!(is_i(x.div_ceil(y), ceil), "div_ceil signed");
            }

            /// The next multiple of a signed value in the direction of the divisor.
            fn smultiple(a: W, b: W) -> X {
                let (_, r) = squo(a, b);
                if is_zero(r) {
                    xs(a)
                } else if is_neg(r) == is_neg(b) {
                    add(xs(a), sub(xs(b), xs(r)))
                } else {
                    sub(xs(a), xs(r))
                }
            }

            pub fn signed_multiple_checked(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let e = smultiple(a, b);
                ens!(opt_i(x.checked_next_multiple_of(y), e), "checked_next_multiple_of signed");
            }

            pub fn signed_multiple(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let e = smultiple(a, b);
                if cfg!(not(checks)) || fits_s(e) {
                    ens!(is_i(x.next_multiple_of(y), lo(e)), "next_multiple_of signed");
                }
            }

            pub fn signed_multiple_overflow(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b) && !fits_s(smultiple(a, b)));
                panics!(ii(a).next_multiple_of(ii(b)), "next_multiple_of signed with overflow");
            }

            pub fn zero_checked(s: &mut Src) {
                let a: W = s.big();
                let (x, y) = (uu(a), ii(a));
                let (zu, zi) = (uu([0; K]), ii([0; K]));
                ens!(x.checked_div_euclid(zu).is_none(), "checked_div_euclid unsigned by zero");
                ens!(x.checked_rem_euclid(zu).is_none(), "checked_rem_euclid unsigned by zero");
                ens!(x.checked_next_multiple_of(zu).is_none(), "checked_next_multiple_of unsigned by zero");
                ens!(x.is_multiple_of(zu) == is_zero(a), "is_multiple_of zero");
                ens!(y.checked_div_euclid(zi).is_none(), "checked_div_euclid signed by zero");
                ens!(y.checked_rem_euclid(zi).is_none(), "checked_rem_euclid signed by zero");
                ens!(y.checked_next_multiple_of(zi).is_none(), "checked_next_multiple_of signed by zero");
            }

            pub fn zero_unsigned(s: &mut Src) {
                let x = uu(s.big());
                let z = uu([0; K]);
                match s.below(11) {
                    0 => panics!(x.wrapping_div_euclid(z), "wrapping_div_euclid unsigned by zero"),
                    1 => panics!(x.wrapping_rem_euclid(z), "wrapping_rem_euclid unsigned by zero"),
                    2 => panics!(x.overflowing_div_euclid(z), "overflowing_div_euclid unsigned by zero"),
                    3 => panics!(x.overflowing_rem_euclid(z), "overflowing_rem_euclid unsigned by zero"),
                    4 => panics!(x.div_euclid(z), "div_euclid unsigned by zero"),
                    5 => panics!(x.rem_euclid(z), "rem_euclid unsigned by zero"),
                    6 => panics!(x.strict_div_euclid(z), "strict_div_euclid unsigned by zero"),
                    7 => panics!(x.strict_rem_euclid(z), "strict_rem_euclid unsigned by zero"),
                    8 => panics!(x.div_floor(z), "div_floor unsigned by zero"),
                    9 => panics!(x.div_ceil(z), "div_ceil unsigned by zero"),
                    _ => panics!(x.next_multiple_of(z), "next_multiple_of unsigned by zero"),
                }
            }

            pub fn zero_signed(s: &mut Src) {
                let x = ii(s.big());
                let z = ii([0; K]);
                match s.below(11) {
                    0 => panics!(x.wrapping_div_euclid(z), "wrapping_div_euclid signed by zero"),
                    1 => panics!(x.wrapping_rem_euclid(z), "wrapping_rem_euclid signed by zero"),
                    2 => panics!(x.overflowing_div_euclid(z), "overflowing_div_euclid signed by zero"),
                    3 => panics!(x.overflowing_rem_euclid(z), "overflowing_rem_euclid signed by zero"),
                    4 => panics!(x.div_euclid(z), "div_euclid signed by zero"),
                    5 => panics!(x.rem_euclid(z), "rem_euclid signed by zero"),
                    6 => panics!(x.strict_div_euclid(z), "strict_div_euclid signed by zero"),
                    7 => panics!(x.strict_rem_euclid(z), "strict_rem_euclid signed by zero"),
                    8 => panics!(x.div_floor(z), "div_floor signed by zero"),
                    9 => panics!(x.div_ceil(z), "div_ceil signed by zero"),
                    _ => panics!(x.next_multiple_of(z), "next_multiple_of signed by zero"),
                }
            }

            pub fn overflow(s: &mut Src) {
                let (x, y) = (ii(smin()), ii(not([0; K])));
                match s.below(if cfg!(checks) { 4 } else { 2 }) {
                    0 => panics!(x.strict_div_euclid(y), "strict_div_euclid minimum by -1"),
                    1 => panics!(x.strict_rem_euclid(y), "strict_rem_euclid minimum by -1"),
                    2 => panics!(x.div_euclid(y), "div_euclid minimum by -1"),
                    _ => panics!(x.rem_euclid(y), "rem_euclid minimum by -1"),
                }
            }

            #[cfg(checks)]
            harness!(
                c_words;
                panics zero_unsigned zero_signed;
                stubs [
                    (::i256::math::div::full, super::k_full) (::i256::math::div::wide, super::k_wide)
                    (::i256::math::div::limb, super::k_limb) (::i256::math::div::from_u128, super::k_u128)
                ]
                unsigned unsigned_multiple euclid_wrapping euclid_overflowing euclid_checked euclid_operators
                rounding signed_multiple_checked signed_multiple zero_checked,
                panics unsigned_multiple_overflow signed_multiple_overflow overflow
            );
            #[cfg(not(checks))]
            harness!(
                c_words;
                panics zero_unsigned zero_signed;
                stubs [
                    (::i256::math::div::full, super::k_full) (::i256::math::div::wide, super::k_wide)
                    (::i256::math::div::limb, super::k_limb) (::i256::math::div::from_u128, super::k_u128)
                ]
                unsigned unsigned_multiple euclid_wrapping euclid_overflowing euclid_checked euclid_operators
                rounding signed_multiple_checked signed_multiple zero_checked,
                panics overflow
            );
        }
    };
}

widths!(def);
