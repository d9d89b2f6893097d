//! Every overflow policy follows from the exact result.

/// The operator in its four variants.
macro_rules! operators {
    ($is:ident, $x:ident $op:tt $y:ident, $assign:tt, $e:expr, $name:literal) => {{
        ens!($is($x $op $y, $e), $name);
        ens!($is($x $op &$y, $e), concat!($name, " by reference"));
        let mut z = $x;
        z $assign $y;
        ens!($is(z, $e), concat!($name, " assigned"));
        let mut z = $x;
        z $assign &$y;
        ens!($is(z, $e), concat!($name, " assigned by reference"));
    }};
}

/// The assigning operator as an expression.
macro_rules! assigned {
    ($x:ident $assign:tt $y:expr) => {{
        let mut z = $x;
        z $assign $y;
        z
    }};
}

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);
            kernels!();
            products!();
            quotients!();
            powers!();
            power_policies!();

            /// Whether the operators return for a result out of range.
            fn returns(fits: bool) -> bool {
                cfg!(not(checks)) || fits
            }

            pub fn add_unsigned(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (uu(a), uu(b));
                let e = add(xu(a), xu(b));
                ens!(is_u(x.wrapping_add(y), lo(e)), "wrapping_add unsigned");
                let (r, o) = x.overflowing_add(y);
                ens!(is_u(r, lo(e)) && o == !fits_u(e), "overflowing_add unsigned");
                ens!(opt_u(x.checked_add(y), e), "checked_add unsigned");
                ens!(is_u(x.saturating_add(y), sat_u(e)), "saturating_add unsigned");
                if fits_u(e) {
                    ens!(is_u(x.strict_add(y), lo(e)), "strict_add unsigned");
                    ens!(is_u(unsafe { x.unchecked_add(y) }, lo(e)), "unchecked_add unsigned");
                }
                if returns(fits_u(e)) {
                    operators!(is_u, x + y, +=, lo(e), "+ unsigned");
                }
            }

            pub fn sub_unsigned(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (uu(a), uu(b));
                let e = sub(xu(a), xu(b));
                ens!(is_u(x.wrapping_sub(y), lo(e)), "wrapping_sub unsigned");
                let (r, o) = x.overflowing_sub(y);
                ens!(is_u(r, lo(e)) && o == !fits_u(e), "overflowing_sub unsigned");
                ens!(opt_u(x.checked_sub(y), e), "checked_sub unsigned");
                ens!(is_u(x.saturating_sub(y), sat_u(e)), "saturating_sub unsigned");
                if fits_u(e) {
                    ens!(is_u(x.strict_sub(y), lo(e)), "strict_sub unsigned");
                    ens!(is_u(unsafe { x.unchecked_sub(y) }, lo(e)), "unchecked_sub unsigned");
                }
                if returns(fits_u(e)) {
                    operators!(is_u, x - y, -=, lo(e), "- unsigned");
                }
            }

            pub fn add_signed(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (ii(a), ii(b));
                let e = add(xs(a), xs(b));
                ens!(is_i(x.wrapping_add(y), lo(e)), "wrapping_add signed");
                let (r, o) = x.overflowing_add(y);
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_add signed");
                ens!(opt_i(x.checked_add(y), e), "checked_add signed");
                ens!(is_i(x.saturating_add(y), sat_s(e)), "saturating_add signed");
                if fits_s(e) {
                    ens!(is_i(x.strict_add(y), lo(e)), "strict_add signed");
                    ens!(is_i(unsafe { x.unchecked_add(y) }, lo(e)), "unchecked_add signed");
                }
                if returns(fits_s(e)) {
                    operators!(is_i, x + y, +=, lo(e), "+ signed");
                }
            }

            pub fn sub_signed(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (ii(a), ii(b));
                let e = sub(xs(a), xs(b));
                ens!(is_i(x.wrapping_sub(y), lo(e)), "wrapping_sub signed");
                let (r, o) = x.overflowing_sub(y);
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_sub signed");
                ens!(opt_i(x.checked_sub(y), e), "checked_sub signed");
                ens!(is_i(x.saturating_sub(y), sat_s(e)), "saturating_sub signed");
                if fits_s(e) {
                    ens!(is_i(x.strict_sub(y), lo(e)), "strict_sub signed");
                    ens!(is_i(unsafe { x.unchecked_sub(y) }, lo(e)), "unchecked_sub signed");
                }
                if returns(fits_s(e)) {
                    operators!(is_i, x - y, -=, lo(e), "- signed");
                }
            }

            pub fn mixed(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());

                let e = add(xu(a), xs(b));
                let (x, y) = (uu(a), ii(b));
                ens!(is_u(x.wrapping_add_signed(y), lo(e)), "wrapping_add_signed");
                let (r, o) = x.overflowing_add_signed(y);
                ens!(is_u(r, lo(e)) && o == !fits_u(e), "overflowing_add_signed");
                ens!(opt_u(x.checked_add_signed(y), e), "checked_add_signed");
                ens!(is_u(x.saturating_add_signed(y), sat_u(e)), "saturating_add_signed");
                if fits_u(e) {
                    ens!(is_u(x.strict_add_signed(y), lo(e)), "strict_add_signed");
                }
                let e = sub(xu(a), xs(b));
                let (r, o) = x.overflowing_sub_signed(y);
                ens!(is_u(r, lo(e)) && o == !fits_u(e), "overflowing_sub_signed");

                let (x, y) = (ii(a), uu(b));
                let e = add(xs(a), xu(b));
                let (r, o) = x.overflowing_add_unsigned(y);
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_add_unsigned");
                ens!(opt_i(x.checked_add_unsigned(y), e), "checked_add_unsigned");
                ens!(is_i(x.saturating_add_unsigned(y), sat_s(e)), "saturating_add_unsigned");
                if fits_s(e) {
                    ens!(is_i(x.strict_add_unsigned(y), lo(e)), "strict_add_unsigned");
                }
                let e = sub(xs(a), xu(b));
                ens!(is_i(x.wrapping_sub_unsigned(y), lo(e)), "wrapping_sub_unsigned");
                let (r, o) = x.overflowing_sub_unsigned(y);
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_sub_unsigned");
                ens!(opt_i(x.checked_sub_unsigned(y), e), "checked_sub_unsigned");
                ens!(is_i(x.saturating_sub_unsigned(y), sat_s(e)), "saturating_sub_unsigned");
                if fits_s(e) {
                    ens!(is_i(x.strict_sub_unsigned(y), lo(e)), "strict_sub_unsigned");
                }
            }

            pub fn negation(s: &mut Src) {
                let a: W = s.big();
                let (x, y) = (uu(a), ii(a));

                let e = neg(xu(a));
                ens!(is_u(x.wrapping_neg(), lo(e)), "wrapping_neg unsigned");
                ens!(opt_u(x.checked_neg(), e), "checked_neg unsigned");
                if fits_u(e) {
                    ens!(is_u(x.strict_neg(), lo(e)), "strict_neg unsigned");
                }

                let e = neg(xs(a));
                ens!(is_i(y.wrapping_neg(), lo(e)), "wrapping_neg signed");
                let (r, o) = y.overflowing_neg();
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_neg signed");
                ens!(opt_i(y.checked_neg(), e), "checked_neg signed");
                ens!(is_i(y.saturating_neg(), sat_s(e)), "saturating_neg");
                if fits_s(e) {
                    ens!(is_i(y.strict_neg(), lo(e)), "strict_neg signed");
                    ens!(is_i(unsafe { y.unchecked_neg() }, lo(e)), "unchecked_neg");
                }
                if returns(fits_s(e)) {
                    ens!(is_i(-y, lo(e)), "-");
                    ens!(is_i(-&y, lo(e)), "- by reference");
                }

                let e = if is_neg(a) { neg(xs(a)) } else { xs(a) };
                ens!(is_i(y.wrapping_abs(), lo(e)), "wrapping_abs");
                let (r, o) = y.overflowing_abs();
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_abs");
                ens!(opt_i(y.checked_abs(), e), "checked_abs");
                ens!(is_i(y.saturating_abs(), sat_s(e)), "saturating_abs");
                if fits_s(e) {
                    ens!(is_i(y.strict_abs(), lo(e)), "strict_abs");
                    ens!(is_i(y.abs(), lo(e)), "abs");
                }
            }

            pub fn unsigned_overflow(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (uu(a), uu(b));
                let (p, m) = (!fits_u(add(xu(a), xu(b))), !fits_u(sub(xu(a), xu(b))));
                let c = s.below(if cfg!(checks) { 12 } else { 4 });
                match c {
                    0 => {
                        req!(p);
                        panics!(x.strict_add(y), "strict_add unsigned")
                    },
                    1 => {
                        req!(m);
                        panics!(x.strict_sub(y), "strict_sub unsigned")
                    },
                    2 => {
                        req!(!fits_u(add(xu(a), xs(b))));
                        panics!(x.strict_add_signed(ii(b)), "strict_add_signed")
                    },
                    3 => {
                        req!(!is_zero(a));
                        panics!(x.strict_neg(), "strict_neg unsigned")
                    },
                    4 | 5 | 6 | 7 => {
                        req!(p);
                        match c {
                            4 => panics!(x + y, "+ unsigned"),
                            5 => panics!(x + &y, "+ unsigned by reference"),
                            6 => panics!(assigned!(x += y), "+ unsigned assigned"),
                            _ => panics!(assigned!(x += &y), "+ unsigned assigned by reference"),
                        }
                    },
                    _ => {
                        req!(m);
                        match c {
                            8 => panics!(x - y, "- unsigned"),
                            9 => panics!(x - &y, "- unsigned by reference"),
                            10 => panics!(assigned!(x -= y), "- unsigned assigned"),
                            _ => panics!(assigned!(x -= &y), "- unsigned assigned by reference"),
                        }
                    },
                }
            }

            pub fn signed_overflow(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (ii(a), ii(b));
                let (p, m) = (!fits_s(add(xs(a), xs(b))), !fits_s(sub(xs(a), xs(b))));
                let c = s.below(if cfg!(checks) { 12 } else { 4 });
                match c {
                    0 => {
                        req!(p);
                        panics!(x.strict_add(y), "strict_add signed")
                    },
                    1 => {
                        req!(m);
                        panics!(x.strict_sub(y), "strict_sub signed")
                    },
                    2 => {
                        req!(!fits_s(add(xs(a), xu(b))));
                        panics!(x.strict_add_unsigned(uu(b)), "strict_add_unsigned")
                    },
                    3 => {
                        req!(!fits_s(sub(xs(a), xu(b))));
                        panics!(x.strict_sub_unsigned(uu(b)), "strict_sub_unsigned")
                    },
                    4 | 5 | 6 | 7 => {
                        req!(p);
                        match c {
                            4 => panics!(x + y, "+ signed"),
                            5 => panics!(x + &y, "+ signed by reference"),
                            6 => panics!(assigned!(x += y), "+ signed assigned"),
                            _ => panics!(assigned!(x += &y), "+ signed assigned by reference"),
                        }
                    },
                    _ => {
                        req!(m);
                        match c {
                            8 => panics!(x - y, "- signed"),
                            9 => panics!(x - &y, "- signed by reference"),
                            10 => panics!(assigned!(x -= y), "- signed assigned"),
                            _ => panics!(assigned!(x -= &y), "- signed assigned by reference"),
                        }
                    },
                }
            }

            pub fn negation_overflow(s: &mut Src) {
                let y = ii(smin());
                match s.below(if cfg!(checks) { 5 } else { 2 }) {
                    0 => panics!(y.strict_neg(), "strict_neg"),
                    1 => panics!(y.strict_abs(), "strict_abs"),
                    2 => panics!(-y, "-"),
                    3 => panics!(-&y, "- by reference"),
                    _ => panics!(y.abs(), "abs"),
                }
            }

            pub fn mul_unsigned(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (uu(a), uu(b));
                let e = uprod(a, b);
                ens!(is_u(x.wrapping_mul(y), low(e)), "wrapping_mul unsigned");
                let (r, o) = x.overflowing_mul(y);
                ens!(is_u(r, low(e)) && o == !pfits_u(e), "overflowing_mul unsigned");
                match x.checked_mul(y) {
                    Some(v) => ens!(pfits_u(e) && is_u(v, low(e)), "checked_mul unsigned, a product"),
                    None => ens!(!pfits_u(e), "checked_mul unsigned, nothing"),
                }
                ens!(is_u(x.saturating_mul(y), if pfits_u(e) { low(e) } else { [u64::MAX; K] }), "saturating_mul unsigned");
                if pfits_u(e) {
                    ens!(is_u(unsafe { x.unchecked_mul(y) }, low(e)), "unchecked_mul unsigned");
                    ens!(is_u(x.strict_mul(y), low(e)), "strict_mul unsigned");
                }
                if returns(pfits_u(e)) {
                    operators!(is_u, x * y, *=, low(e), "* unsigned");
                }
            }

            pub fn mul_signed(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (ii(a), ii(b));
                let e = sprod(a, b);
                ens!(is_i(x.wrapping_mul(y), low(e)), "wrapping_mul signed");
                let (r, o) = x.overflowing_mul(y);
                ens!(is_i(r, low(e)) && o == !pfits_s(e), "overflowing_mul signed");
                match x.checked_mul(y) {
                    Some(v) => ens!(pfits_s(e) && is_i(v, low(e)), "checked_mul signed, a product"),
                    None => ens!(!pfits_s(e), "checked_mul signed, nothing"),
                }
                let clamped = if pfits_s(e) {
                    low(e)
                } else if is_neg(e) {
                    smin()
                } else {
                    smax()
                };
                ens!(is_i(x.saturating_mul(y), clamped), "saturating_mul signed");
            }

            pub fn mul_signed_operators(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (ii(a), ii(b));
                let e = sprod(a, b);
                if pfits_s(e) {
                    ens!(is_i(unsafe { x.unchecked_mul(y) }, low(e)), "unchecked_mul signed");
                    ens!(is_i(x.strict_mul(y), low(e)), "strict_mul signed");
                }
                if returns(pfits_s(e)) {
                    operators!(is_i, x * y, *=, low(e), "* signed");
                }
            }

            pub fn mul_unsigned_overflow(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (uu(a), uu(b));
                req!(!pfits_u(uprod(a, b)));
                match s.below(if cfg!(checks) { 5 } else { 1 }) {
                    0 => panics!(x.strict_mul(y), "strict_mul unsigned"),
                    1 => panics!(x * y, "* unsigned"),
                    2 => panics!(x * &y, "* unsigned by reference"),
                    3 => panics!(assigned!(x *= y), "* unsigned assigned"),
                    _ => panics!(assigned!(x *= &y), "* unsigned assigned by reference"),
                }
            }

            pub fn mul_signed_overflow(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (ii(a), ii(b));
                req!(!pfits_s(sprod(a, b)));
                match s.below(if cfg!(checks) { 5 } else { 1 }) {
                    0 => panics!(x.strict_mul(y), "strict_mul signed"),
                    1 => panics!(x * y, "* signed"),
                    2 => panics!(x * &y, "* signed by reference"),
                    3 => panics!(assigned!(x *= y), "* signed assigned"),
                    _ => panics!(assigned!(x *= &y), "* signed assigned by reference"),
                }
            }

            pub fn div_unsigned(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (uu(a), uu(b));
                let (q, r) = uquo(a, b);
                operators!(is_u, x / y, /=, q, "/ unsigned");
                operators!(is_u, x % y, %=, r, "% unsigned");
                ens!(is_u(x.wrapping_div(y), q) && is_u(x.wrapping_rem(y), r), "wrapping_div and wrapping_rem unsigned");
                ens!(is_u(x.strict_div(y), q), "strict_div unsigned");
                ens!(is_u(x.strict_rem(y), r), "strict_rem unsigned");
                ens!(is_u(x.strict_div_euclid(y), q), "strict_div_euclid unsigned");
                ens!(is_u(x.strict_rem_euclid(y), r), "strict_rem_euclid unsigned");
                ens!(is_u(x.saturating_div(y), q), "saturating_div unsigned");
            }

            fn minimum_by_minus_one(a: W, b: W) -> bool {
                eq(a, smin()) && eq(b, not([0; K]))
            }

            pub fn div_signed_operators(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let (q, _) = squo(a, b);
                if returns(!minimum_by_minus_one(a, b)) {
                    operators!(is_i, x / y, /=, q, "/ signed");
                }
            }

            pub fn rem_signed_operators(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let (_, r) = squo(a, b);
                if returns(!minimum_by_minus_one(a, b)) {
                    operators!(is_i, x % y, %=, r, "% signed");
                }
            }

            pub fn div_signed(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let over = minimum_by_minus_one(a, b);
                let (q, r) = squo(a, b);
                let (u, o) = x.overflowing_div(y);
                ens!(is_i(u, q) && o == over, "overflowing_div signed");
                let (v, o) = x.overflowing_rem(y);
                ens!(is_i(v, r) && o == over, "overflowing_rem signed");
                ens!(is_i(x.saturating_div(y), if over { smax() } else { q }), "saturating_div signed");
                if !over {
                    ens!(is_i(x.strict_div(y), q), "strict_div signed");
                    ens!(is_i(x.strict_rem(y), r), "strict_rem signed");
                }
            }

            pub fn div_overflow(s: &mut Src) {
                let (x, y) = (ii(smin()), ii(not([0; K])));
                match s.below(if cfg!(checks) { 12 } else { 4 }) {
                    0 => panics!(x.strict_div(y), "strict_div"),
                    1 => panics!(x.strict_rem(y), "strict_rem"),
                    2 => panics!(x.strict_div_euclid(y), "strict_div_euclid"),
                    3 => panics!(x.strict_rem_euclid(y), "strict_rem_euclid"),
                    4 => panics!(x / y, "/"),
                    5 => panics!(x / &y, "/ by reference"),
                    6 => panics!(assigned!(x /= y), "/ assigned"),
                    7 => panics!(assigned!(x /= &y), "/ assigned by reference"),
                    8 => panics!(x % y, "%"),
                    9 => panics!(x % &y, "% by reference"),
                    10 => panics!(assigned!(x %= y), "% assigned"),
                    _ => panics!(assigned!(x %= &y), "% assigned by reference"),
                }
            }

            pub fn div_zero(s: &mut Src) {
                let a: W = s.big();
                let (x, y) = (uu(a), ii(a));
                let (zu, zi) = (uu([0; K]), ii([0; K]));
                match s.below(16) {
                    0 => panics!(x / zu, "/ unsigned by zero"),
                    1 => panics!(x / &zu, "/ unsigned by zero by reference"),
                    2 => panics!(assigned!(x /= zu), "/ unsigned by zero assigned"),
                    3 => panics!(assigned!(x /= &zu), "/ unsigned by zero assigned by reference"),
                    4 => panics!(x % zu, "% unsigned by zero"),
                    5 => panics!(x % &zu, "% unsigned by zero by reference"),
                    6 => panics!(assigned!(x %= zu), "% unsigned by zero assigned"),
                    7 => panics!(assigned!(x %= &zu), "% unsigned by zero assigned by reference"),
                    8 => panics!(y / zi, "/ signed by zero"),
                    9 => panics!(y / &zi, "/ signed by zero by reference"),
                    10 => panics!(assigned!(y /= zi), "/ signed by zero assigned"),
                    11 => panics!(assigned!(y /= &zi), "/ signed by zero assigned by reference"),
                    12 => panics!(y % zi, "% signed by zero"),
                    13 => panics!(y % &zi, "% signed by zero by reference"),
                    14 => panics!(assigned!(y %= zi), "% signed by zero assigned"),
                    _ => panics!(assigned!(y %= &zi), "% signed by zero assigned by reference"),
                }
            }

            pub fn shifts(s: &mut Src) {
                let a: W = s.big();
                let n = s.amount(BITS);
                let (x, y) = (uu(a), ii(a));
                let (l, r) = (x.wrapping_shl(n), x.wrapping_shr(n));
                let fits = n < BITS;
                let opt = |v: Option<U>, e: U| match v {
                    Some(v) => fits && is_u(v, uw(e)),
                    None => !fits,
                };
                ens!(opt(x.checked_shl(n), l), "checked_shl unsigned");
                ens!(opt(x.checked_shr(n), r), "checked_shr unsigned");
                let (l, r) = (y.wrapping_shl(n), y.wrapping_shr(n));
                let opt = |v: Option<I>, e: I| match v {
                    Some(v) => fits && is_i(v, iw(e)),
                    None => !fits,
                };
                ens!(opt(y.checked_shl(n), l), "checked_shl signed");
                ens!(opt(y.checked_shr(n), r), "checked_shr signed");
                let (v, o) = y.overflowing_shl(n);
                ens!(is_i(v, iw(l)) && o == !fits, "overflowing_shl signed");
                let (v, o) = y.overflowing_shr(n);
                ens!(is_i(v, iw(r)) && o == !fits, "overflowing_shr signed");
                if fits {
                    ens!(is_i(y.strict_shl(n), iw(l)), "strict_shl signed");
                    ens!(is_i(y.strict_shr(n), iw(r)), "strict_shr signed");
                }
            }

            pub fn shift_overflow(s: &mut Src) {
                let a: W = s.big();
                let n = s.amount(BITS);
                req!(n >= BITS);
                match s.below(4) {
                    0 => panics!(uu(a).strict_shl(n), "strict_shl unsigned"),
                    1 => panics!(uu(a).strict_shr(n), "strict_shr unsigned"),
                    2 => panics!(ii(a).strict_shl(n), "strict_shl signed"),
                    _ => panics!(ii(a).strict_shr(n), "strict_shr signed"),
                }
            }

            harness!(
                c_words add_unsigned sub_unsigned add_signed sub_signed mixed negation shifts;
                panics unsigned_overflow signed_overflow negation_overflow shift_overflow div_zero;
                stubs [
                    (crate::callee::kernel::wrapping, super::k_wrapping) (crate::callee::kernel::overflowing, super::k_overflowing)
                    (crate::callee::kernel::widening, super::k_widening)
                ]
                mul_unsigned mul_signed mul_signed_operators, panics mul_unsigned_overflow mul_signed_overflow;
                stubs [
                    (::i256::math::div::full, super::k_full) (::i256::math::div::wide, super::k_wide)
                    (::i256::math::div::limb, super::k_limb) (::i256::math::div::from_u128, super::k_u128)
                ]
                div_unsigned div_signed div_signed_operators rem_signed_operators, panics div_overflow;
                stubs [
                    (::i256::$U::overflowing_pow, super::k_upow) (::i256::$I::overflowing_pow, super::k_ipow)
                    (::i256::$U::wrapping_pow, super::k_uwpow) (::i256::$I::wrapping_pow, super::k_iwpow)
                ]
                pow_unsigned pow_signed, panics pow_overflow
            );
        }
    };
}

widths!(def);
