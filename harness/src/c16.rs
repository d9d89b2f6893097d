//! Absolute value, sign, distance and midpoint are exact.

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);

            pub fn absolute(s: &mut Src) {
                let a: W = s.big();
                let x = ii(a);
                let e = abs(xs(a));
                ens!(is_u(x.unsigned_abs(), lo(e)), "unsigned_abs");
                ens!(is_i(x.wrapping_abs(), lo(e)), "wrapping_abs");
                let (r, o) = x.overflowing_abs();
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_abs");
                ens!(opt_i(x.checked_abs(), e), "checked_abs");
                ens!(is_i(x.saturating_abs(), sat_s(e)), "saturating_abs");
                if fits_s(e) {
                    ens!(is_i(x.strict_abs(), lo(e)), "strict_abs");
                    ens!(is_i(x.abs(), lo(e)), "abs");
                } else if cfg!(not(checks)) {
                    ens!(is_i(x.abs(), lo(e)), "abs wraps");
                }
            }

            pub fn absolute_overflow(s: &mut Src) {
                match s.below(if cfg!(checks) { 2 } else { 1 }) {
                    0 => panics!(I::MIN.strict_abs(), "strict_abs"),
                    _ => panics!(I::MIN.abs(), "abs"),
                }
            }

            pub fn sign(s: &mut Src) {
                let a: W = s.big();
                let e = if is_neg(a) { neg(small(1)) } else { small(!is_zero(a) as u64) };
                ens!(is_i(ii(a).signum(), e), "signum");
            }

            pub fn distance(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let e = abs(sub(xu(a), xu(b)));
                ens!(is_u(uu(a).abs_diff(uu(b)), lo(e)), "abs_diff unsigned");
                let e = abs(sub(xs(a), xs(b)));
                ens!(is_u(ii(a).abs_diff(ii(b)), lo(e)), "abs_diff signed");
                let e = sub(xu(a), xu(b));
                ens!(opt_i(uu(a).checked_signed_diff(uu(b)), e), "checked_signed_diff");
            }

            pub fn middle(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let e = add(xu(a), xu(b));
                ens!(is_u(uu(a).midpoint(uu(b)), lo(shr(e, 1))), "midpoint unsigned");
                let e = add(xs(a), xs(b));
                // Rounded towards zero.
                let e = if is_neg(e) { neg(sar(neg(e), 1)) } else { sar(e, 1) };
                ens!(is_i(ii(a).midpoint(ii(b)), lo(e)), "midpoint signed");
            }

            harness!(absolute sign distance middle; panics absolute_overflow);
        }
    };
}

widths!(def);
