//! Addition, subtraction and negation are exact.

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);

            pub fn unsigned(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (uu(a), uu(b));

                let e = add(xu(a), xu(b));
                ens!(is_u(x.wrapping_add(y), lo(e)), "wrapping_add");
                let (r, o) = x.overflowing_add(y);
                ens!(is_u(r, lo(e)) && o == !fits_u(e), "overflowing_add");
                ens!(opt_u(x.checked_add(y), e), "checked_add");
                if fits_u(e) {
                    ens!(is_u(unsafe { x.unchecked_add(y) }, lo(e)), "unchecked_add");
                }

                let e = sub(xu(a), xu(b));
                ens!(is_u(x.wrapping_sub(y), lo(e)), "wrapping_sub");
                let (r, o) = x.overflowing_sub(y);
                ens!(is_u(r, lo(e)) && o == !fits_u(e), "overflowing_sub");
                ens!(opt_u(x.checked_sub(y), e), "checked_sub");
                if fits_u(e) {
                    ens!(is_u(unsafe { x.unchecked_sub(y) }, lo(e)), "unchecked_sub");
                }
            }

            pub fn signed(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (ii(a), ii(b));

                let e = add(xs(a), xs(b));
                ens!(is_i(x.wrapping_add(y), lo(e)), "wrapping_add");
                let (r, o) = x.overflowing_add(y);
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_add");
                ens!(opt_i(x.checked_add(y), e), "checked_add");
                if fits_s(e) {
                    ens!(is_i(unsafe { x.unchecked_add(y) }, lo(e)), "unchecked_add");
                }

                let e = sub(xs(a), xs(b));
                ens!(is_i(x.wrapping_sub(y), lo(e)), "wrapping_sub");
                let (r, o) = x.overflowing_sub(y);
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_sub");
                ens!(opt_i(x.checked_sub(y), e), "checked_sub");
                if fits_s(e) {
                    ens!(is_i(unsafe { x.unchecked_sub(y) }, lo(e)), "unchecked_sub");
                }
            }

            pub fn mixed_unsigned(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (uu(a), ii(b));

                let e = add(xu(a), xs(b));
                ens!(is_u(x.wrapping_add_signed(y), lo(e)), "wrapping_add_signed");
                let (r, o) = x.overflowing_add_signed(y);
                ens!(is_u(r, lo(e)) && o == !fits_u(e), "overflowing_add_signed");
                ens!(opt_u(x.checked_add_signed(y), e), "checked_add_signed");

                let e = sub(xu(a), xs(b));
                let (r, o) = x.overflowing_sub_signed(y);
                ens!(is_u(r, lo(e)) && o == !fits_u(e), "overflowing_sub_signed");
            }

            pub fn mixed_signed(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (ii(a), uu(b));

                let e = add(xs(a), xu(b));
                let (r, o) = x.overflowing_add_unsigned(y);
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_add_unsigned");
                ens!(opt_i(x.checked_add_unsigned(y), e), "checked_add_unsigned");

                let e = sub(xs(a), xu(b));
                ens!(is_i(x.wrapping_sub_unsigned(y), lo(e)), "wrapping_sub_unsigned");
                let (r, o) = x.overflowing_sub_unsigned(y);
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_sub_unsigned");
                ens!(opt_i(x.checked_sub_unsigned(y), e), "checked_sub_unsigned");
            }

            pub fn carry(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let c = s.bool();

                let e = add(add(xu(a), xu(b)), small(c as u64));
                let (r, o) = uu(a).carrying_add(uu(b), c);
                ens!(is_u(r, lo(e)) && o == !fits_u(e), "carrying_add unsigned");
                let e = sub(sub(xu(a), xu(b)), small(c as u64));
                let (r, o) = uu(a).borrowing_sub(uu(b), c);
                ens!(is_u(r, lo(e)) && o == !fits_u(e), "borrowing_sub unsigned");

                let e = add(add(xs(a), xs(b)), small(c as u64));
                let (r, o) = ii(a).carrying_add(ii(b), c);
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "carrying_add signed");
                let e = sub(sub(xs(a), xs(b)), small(c as u64));
                let (r, o) = ii(a).borrowing_sub(ii(b), c);
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "borrowing_sub signed");
            }

            pub fn negation(s: &mut Src) {
                let a: W = s.big();

                let e = neg(xu(a));
                ens!(is_u(uu(a).wrapping_neg(), lo(e)), "wrapping_neg unsigned");
                ens!(opt_u(uu(a).checked_neg(), e), "checked_neg unsigned");

                let e = neg(xs(a));
                ens!(is_i(ii(a).wrapping_neg(), lo(e)), "wrapping_neg signed");
                let (r, o) = ii(a).overflowing_neg();
                ens!(is_i(r, lo(e)) && o == !fits_s(e), "overflowing_neg signed");
                ens!(opt_i(ii(a).checked_neg(), e), "checked_neg signed");
                if fits_s(e) {
                    ens!(is_i(unsafe { ii(a).unchecked_neg() }, lo(e)), "unchecked_neg");
                }
            }

            harness!(unsigned signed mixed_unsigned mixed_signed carry negation);
        }
    };
}

widths!(def);
