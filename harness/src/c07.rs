//! Comparison is the numeric total order.

use core::hash::Hasher;

/// A hasher that depends on every byte and its position.
pub struct Mix(pub u64);

impl Hasher for Mix {
    fn finish(&self) -> u64 {
        self.0
    }

    fn write(&mut self, bytes: &[u8]) {
        let mut i = 0;
        while i < bytes.len() {
            self.0 = self.0.rotate_left(5) ^ bytes[i] as u64;
            i += 1;
        }
    }
}

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use core::cmp::Ordering;
            use core::hash::Hash;

            use super::Mix;
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);

            fn order(lt: bool, same: bool) -> Ordering {
                if lt {
                    Ordering::Less
                } else if same {
                    Ordering::Equal
                } else {
                    Ordering::Greater
                }
            }

            macro_rules! compares {
                ($name:ident, $extremes:ident, $T:ident, $of:ident, $is:ident, $lt:ident) => {
                    pub fn $name(s: &mut Src) {
                        let (a, b): (W, W) = (s.big(), s.big());
                        let (x, y) = ($of(a), $of(b));
                        let (lt, same) = ($lt(a, b), eq(a, b));
                        let gt = !lt && !same;

                        ens!(x.eq_const(y) == same, "eq_const");
                        ens!(x.eq_branched(y) == same, "eq_branched");
                        ens!(x.lt_const(y) == lt, "lt_const");
                        ens!(x.le_const(y) == (lt || same), "le_const");
                        ens!(x.gt_const(y) == gt, "gt_const");
                        ens!(x.ge_const(y) == (gt || same), "ge_const");
                        ens!(x.cmp_const(y) == order(lt, same), "cmp_const");

                        ens!((x == y) == same && (x != y) == !same, "==");
                        ens!((x < y) == lt, "<");
                        ens!((x <= y) == (lt || same), "<=");
                        ens!((x > y) == gt, ">");
                        ens!((x >= y) == (gt || same), ">=");
                        ens!(x.cmp(&y) == order(lt, same), "cmp");
                        ens!(x.partial_cmp(&y) == Some(order(lt, same)), "partial_cmp");
                    }

                    pub fn $extremes(s: &mut Src) {
                        let (a, b, c): (W, W, W) = (s.big(), s.big(), s.big());
                        let (x, y, z) = ($of(a), $of(b), $of(c));
                        ens!($is(x.min(y), if $lt(b, a) { b } else { a }), "min");
                        ens!($is(x.max(y), if $lt(b, a) { a } else { b }), "max");
                        if !$lt(c, b) {
                            let e = if $lt(a, b) { b } else if $lt(c, a) { c } else { a };
                            ens!($is(x.clamp(y, z), e), "clamp");
                        }
                        ens!(!$lt(a, words($T::MIN.to_ne_limbs())), "MIN");
                        ens!(!$lt(words($T::MAX.to_ne_limbs()), a), "MAX");
                        ens!($T::min_value() == $T::MIN && $T::max_value() == $T::MAX, "min_value, max_value");
                    }
                };
            }

            compares!(unsigned, unsigned_extremes, U, uu, is_u, ult);
            compares!(signed, signed_extremes, I, ii, is_i, slt);

            pub fn sign(s: &mut Src) {
                let a: W = s.big();
                ens!(ii(a).is_negative() == is_neg(a), "is_negative");
                ens!(ii(a).is_positive() == (!is_neg(a) && !is_zero(a)), "is_positive");
            }

            pub fn constants(_: &mut Src) {
                ens!(is_u(U::MIN, [0; K]) && is_u(U::MAX, [u64::MAX; K]), "unsigned bounds");
                ens!(is_i(I::MIN, smin()) && is_i(I::MAX, smax()), "signed bounds");
                ens!(U::BITS == BITS && I::BITS == BITS, "BITS");
                ens!(!U::IS_SIGNED && I::IS_SIGNED, "IS_SIGNED");
                ens!(is_u(U::default(), [0; K]) && is_i(I::default(), [0; K]), "default");
            }

            pub fn hash(s: &mut Src) {
                let a: W = s.big();
                // The same value from different computations.
                let (x, y) = (uu(a), ii(a).as_unsigned());
                let (mut h, mut k) = (Mix(1), Mix(1));
                x.hash(&mut h);
                y.hash(&mut k);
                ens!(h.0 == k.0, "hash unsigned");
                let (x, y) = (ii(a), uu(a).as_signed());
                let (mut h, mut k) = (Mix(1), Mix(1));
                x.hash(&mut h);
                y.hash(&mut k);
                ens!(h.0 == k.0, "hash signed");
            }

            harness!(unsigned unsigned_extremes signed signed_extremes sign constants hash);
        }
    };
}

widths!(def);
