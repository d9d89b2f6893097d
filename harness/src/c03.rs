//! Division and remainder satisfy the division identity.

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);
            kernels!();
            quotients!();

            pub fn unsigned(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (uu(a), uu(b));
                let (q, r) = uquo(a, b);

                let (u, v) = x.wrapping_div_rem(y);
                ens!(is_u(u, q) && is_u(v, r), "wrapping_div_rem unsigned");
                ens!(is_u(x.wrapping_div(y), q), "wrapping_div unsigned");
                ens!(is_u(x.wrapping_rem(y), r), "wrapping_rem unsigned");
                let ((u, v), o) = x.overflowing_div_rem(y);
                ens!(is_u(u, q) && is_u(v, r) && !o, "overflowing_div_rem unsigned");
                let (u, o) = x.overflowing_div(y);
                ens!(is_u(u, q) && !o, "overflowing_div unsigned");
                let (v, o) = x.overflowing_rem(y);
                ens!(is_u(v, r) && !o, "overflowing_rem unsigned");
                match x.checked_div_rem(y) {
                    Some((u, v)) => ens!(is_u(u, q) && is_u(v, r), "checked_div_rem unsigned"),
                    None => ens!(false, "checked_div_rem unsigned, nothing"),
                }
                match x.checked_div(y) {
                    Some(u) => ens!(is_u(u, q), "checked_div unsigned"),
                    None => ens!(false, "checked_div unsigned, nothing"),
                }
                match x.checked_rem(y) {
                    Some(v) => ens!(is_u(v, r), "checked_rem unsigned"),
                    None => ens!(false, "checked_rem unsigned, nothing"),
                }
                let (u, v) = x.div_rem(y);
                ens!(is_u(u, q) && is_u(v, r), "div_rem unsigned");
                ens!(is_u(x / y, q), "/ unsigned");
                ens!(is_u(x % y, r), "% unsigned");
                ens!(is_u(x.strict_div(y), q), "strict_div unsigned");
                ens!(is_u(x.strict_rem(y), r), "strict_rem unsigned");
                ens!(is_u(x.saturating_div(y), q), "saturating_div unsigned");
            }

            pub fn signed(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let (q, r) = squo(a, b);

                let (u, v) = x.wrapping_div_rem(y);
                ens!(is_i(u, q) && is_i(v, r), "wrapping_div_rem signed");
                ens!(is_i(x.wrapping_div(y), q), "wrapping_div signed");
                ens!(is_i(x.wrapping_rem(y), r), "wrapping_rem signed");
            }

            pub fn signed_overflowing(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let (q, r) = squo(a, b);
                let over = eq(a, smin()) && eq(b, not([0; K]));

                let ((u, v), o) = x.overflowing_div_rem(y);
                ens!(is_i(u, q) && is_i(v, r) && o == over, "overflowing_div_rem signed");
                let (u, o) = x.overflowing_div(y);
                ens!(is_i(u, q) && o == over, "overflowing_div signed");
                let (v, o) = x.overflowing_rem(y);
                ens!(is_i(v, r) && o == over, "overflowing_rem signed");
                ens!(is_i(x.saturating_div(y), if over { smax() } else { q }), "saturating_div signed");
            }

            pub fn signed_checked(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let (q, r) = squo(a, b);
                let over = eq(a, smin()) && eq(b, not([0; K]));

                match x.checked_div_rem(y) {
                    Some((u, v)) => ens!(!over && is_i(u, q) && is_i(v, r), "checked_div_rem signed"),
                    None => ens!(over, "checked_div_rem signed, nothing"),
                }
                match x.checked_div(y) {
                    Some(u) => ens!(!over && is_i(u, q), "checked_div signed"),
                    None => ens!(over, "checked_div signed, nothing"),
                }
                match x.checked_rem(y) {
                    Some(v) => ens!(!over && is_i(v, r), "checked_rem signed"),
                    None => ens!(over, "checked_rem signed, nothing"),
                }
            }

            pub fn signed_operators(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                req!(!is_zero(b));
                let (x, y) = (ii(a), ii(b));
                let (q, r) = squo(a, b);
                // Without overflow checks the operators wrap.
                let over = eq(a, smin()) && eq(b, not([0; K]));
                if cfg!(not(checks)) || !over {
                    let (u, v) = x.div_rem(y);
                    ens!(is_i(u, q) && is_i(v, r), "div_rem signed");
                    ens!(is_i(x / y, q), "/ signed");
                    ens!(is_i(x % y, r), "% signed");
                }
                if !over {
                    ens!(is_i(x.strict_div(y), q), "strict_div signed");
                    ens!(is_i(x.strict_rem(y), r), "strict_rem signed");
                }
            }

            pub fn zero_checked(s: &mut Src) {
                let a: W = s.big();
                let (x, y) = (uu(a), ii(a));
                let (zu, zi) = (uu([0; K]), ii([0; K]));
                ens!(x.checked_div(zu).is_none(), "checked_div unsigned by zero");
                ens!(x.checked_rem(zu).is_none(), "checked_rem unsigned by zero");
                ens!(x.checked_div_rem(zu).is_none(), "checked_div_rem unsigned by zero");
                ens!(y.checked_div(zi).is_none(), "checked_div signed by zero");
                ens!(y.checked_rem(zi).is_none(), "checked_rem signed by zero");
                ens!(y.checked_div_rem(zi).is_none(), "checked_div_rem signed by zero");
            }

            pub fn zero_unsigned(s: &mut Src) {
                let x = uu(s.big());
                let z = uu([0; K]);
                match s.below(11) {
                    0 => panics!(x.wrapping_div_rem(z), "wrapping_div_rem unsigned by zero"),
                    1 => panics!(x.wrapping_div(z), "wrapping_div unsigned by zero"),
                    2 => panics!(x.wrapping_rem(z), "wrapping_rem unsigned by zero"),
                    3 => panics!(x.overflowing_div_rem(z), "overflowing_div_rem unsigned by zero"),
                    4 => panics!(x.overflowing_div(z), "overflowing_div unsigned by zero"),
                    5 => panics!(x.overflowing_rem(z), "overflowing_rem unsigned by zero"),
                    6 => panics!(x.div_rem(z), "div_rem unsigned by zero"),
                    7 => panics!(x / z, "/ unsigned by zero"),
                    8 => panics!(x % z, "% unsigned by zero"),
                    9 => panics!(x.strict_div(z), "strict_div unsigned by zero"),
                    _ => panics!(x.strict_rem(z), "strict_rem unsigned by zero"),
                }
            }

            pub fn zero_signed(s: &mut Src) {
                let x = ii(s.big());
                let z = ii([0; K]);
                match s.below(12) {
                    0 => panics!(x.wrapping_div_rem(z), "wrapping_div_rem signed by zero"),
                    1 => panics!(x.wrapping_div(z), "wrapping_div signed by zero"),
                    2 => panics!(x.wrapping_rem(z), "wrapping_rem signed by zero"),
                    3 => panics!(x.overflowing_div_rem(z), "overflowing_div_rem signed by zero"),
                    4 => panics!(x.overflowing_div(z), "overflowing_div signed by zero"),
                    5 => panics!(x.overflowing_rem(z), "overflowing_rem signed by zero"),
                    6 => panics!(x.div_rem(z), "div_rem signed by zero"),
                    7 => panics!(x / z, "/ signed by zero"),
                    8 => panics!(x % z, "% signed by zero"),
                    9 => panics!(x.strict_div(z), "strict_div signed by zero"),
                    10 => panics!(x.strict_rem(z), "strict_rem signed by zero"),
                    _ => panics!(x.saturating_div(z), "saturating_div signed by zero"),
                }
            }

            pub fn overflow(s: &mut Src) {
                let (x, y) = (ii(smin()), ii(not([0; K])));
                match s.below(if cfg!(checks) { 5 } else { 2 }) {
                    0 => panics!(x.strict_div(y), "strict_div minimum by -1"),
                    1 => panics!(x.strict_rem(y), "strict_rem minimum by -1"),
                    2 => panics!(x / y, "/ minimum by -1"),
                    3 => panics!(x % y, "% minimum by -1"),
                    _ => panics!(x.div_rem(y), "div_rem minimum by -1"),
                }
            }

            harness!(
                c_words;
                panics zero_unsigned zero_signed;
                stubs [
                    (::i256::math::div::full, super::k_full) (::i256::math::div::wide, super::k_wide)
                    (::i256::math::div::limb, super::k_limb) (::i256::math::div::from_u128, super::k_u128)
                ]
                unsigned signed signed_overflowing signed_checked signed_operators zero_checked, panics overflow
            );
        }
    };
}

widths!(def);
