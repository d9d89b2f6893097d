//! Multiplication is exact, with an exact overflow flag.

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);
            kernels!();
            products!();

            pub fn unsigned(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (uu(a), uu(b));
                let e = uprod(a, b);

                ens!(is_u(x.wrapping_mul(y), low(e)), "wrapping_mul unsigned");
                let (r, o) = x.overflowing_mul(y);
                ens!(is_u(r, low(e)) && o == !pfits_u(e), "overflowing_mul unsigned");
                match x.checked_mul(y) {
                    Some(v) => ens!(pfits_u(e) && is_u(v, low(e)), "checked_mul unsigned, a product"),
                    None => ens!(!pfits_u(e), "checked_mul unsigned, nothing"),
                }
                ens!(is_u(x.saturating_mul(y), if pfits_u(e) { low(e) } else { [u64::MAX; K] }), "saturating_mul unsigned");
                if pfits_u(e) {
                    ens!(is_u(unsafe { x.unchecked_mul(y) }, low(e)), "unchecked_mul unsigned");
                    ens!(is_u(x.strict_mul(y), low(e)), "strict_mul unsigned");
                    ens!(is_u(x * y, low(e)), "* unsigned");
                }
            }

            pub fn signed(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (ii(a), ii(b));
                let e = sprod(a, b);

                ens!(is_i(x.wrapping_mul(y), low(e)), "wrapping_mul signed");
                let (r, o) = x.overflowing_mul(y);
                ens!(is_i(r, low(e)) && o == !pfits_s(e), "overflowing_mul signed");
                match x.checked_mul(y) {
                    Some(v) => ens!(pfits_s(e) && is_i(v, low(e)), "checked_mul signed, a product"),
                    None => ens!(!pfits_s(e), "checked_mul signed, nothing"),
                }
            }

            pub fn signed_policies(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (ii(a), ii(b));
                let e = sprod(a, b);

                let clamped = if pfits_s(e) {
                    low(e)
                } else if is_neg(e) {
                    smin()
                } else {
                    smax()
                };
                ens!(is_i(x.saturating_mul(y), clamped), "saturating_mul signed");
                if pfits_s(e) {
                    ens!(is_i(unsafe { x.unchecked_mul(y) }, low(e)), "unchecked_mul signed");
                    ens!(is_i(x.strict_mul(y), low(e)), "strict_mul signed");
                    ens!(is_i(x * y, low(e)), "* signed");
                }
            }

            pub fn widening(s: &mut Src) {
                let (a, b, c): (W, W, W) = (s.big(), s.big(), s.big());
                let (x, y) = (uu(a), uu(b));
                let e = uprod(a, b);
                let (l, h) = x.widening_mul(y);
                ens!(is_u(l, low(e)) && is_u(h, high(e)), "widening_mul");

                // The product is at most (2^BITS - 1)^2, so that adding a carry does not exceed 2 BITS bits.
                req!(!(eq(high(e), not([0; K]))));
                let e = add(e, zext(c));
                let (l, h) = x.carrying_mul(y, uu(c));
                ens!(is_u(l, low(e)) && is_u(h, high(e)), "carrying_mul");
            }

            pub fn high_product(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let h = uu(a).high_mul(uu(b));
                ens!(is_u(h, high_of(a, b)), "high_mul");
            }

            #[cfg(not(all(kani, not(feature = "nostub"))))]
            fn high_of(a: W, b: W) -> W {
                high(uprod(a, b))
            }

            /// The high half of the product, from the products of the half-width parts.
            #[cfg(all(kani, not(feature = "nostub")))]
            fn high_of(a: W, b: W) -> W {
                let h = BITS / 2;
                let (a0, a1) = (shr(shl(a, h), h), shr(a, h));
                let (b0, b1) = (shr(shl(b, h), h), shr(b, h));
                let mut e: D = zext(parts(a0, b0));
                e = add(e, shl(zext(parts(a0, b1)), h));
                e = add(e, shl(zext(parts(a1, b0)), h));
                e = add(e, shl(zext(parts(a1, b1)), 2 * h));
                high(e)
            }

            /// The product of two values below 2^(BITS/2): any function that does not exceed the largest product.
            #[cfg(all(kani, not(feature = "nostub")))]
            fn parts(a: W, b: W) -> W {
                static mut MEMO: [Option<(W, W, W)>; 4] = [None; 4];
                let mut i = 0;
                while i < 4 {
                    unsafe {
                        match MEMO[i] {
                            Some((x, y, p)) => {
                                if eq(x, a) && eq(y, b) {
                                    return p;
                                }
                            },
                            None => {
                                let p: W = Src::new().big();
                                let m: W = shr(not([0; K]), BITS / 2);
                                // (2^h - 1)^2 = 2^2h - 2 * (2^h - 1) - 1
                                kani::assume(!ult(sub(not([0; K]), shl(m, 1)), p));
                                MEMO[i] = Some((a, b, p));
                                return p;
                            },
                        }
                    }
                    i += 1;
                }
                Src::new().big()
            }

            /// The contract of the kernel for factors below 2^(BITS/2).
            #[cfg(all(kani, not(feature = "nostub")))]
            pub fn k_half<const M: usize, const N: usize>(x: &[::i256::ULimb; M], y: &[::i256::ULimb; N]) -> [::i256::ULimb; M] {
                let (a, b) = (ext(x), ext(y));
                kani::assert(M >= N && M == LIMBS, "requires lengths");
                kani::assert(is_zero(shr(a, BITS / 2)) && is_zero(shr(b, BITS / 2)), "requires factors of half the width");
                cut(parts(a, b))
            }

            harness!(;
                stubs [
                    (crate::callee::kernel::wrapping, super::k_wrapping) (crate::callee::kernel::overflowing, super::k_overflowing)
                    (crate::callee::kernel::widening, super::k_widening)
                ]
                unsigned signed signed_policies widening;
                stubs [(crate::callee::kernel::wrapping, super::k_half)] high_product
            );
        }
    };
}

widths!(def);
