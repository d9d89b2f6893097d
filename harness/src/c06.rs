//! Bitwise, rotate, reverse and bit-count operations act bit for bit.

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);

            pub fn logic(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y, p, q) = (uu(a), uu(b), ii(a), ii(b));
                let (n, o, e, c) = (and(a, b), or(a, b), xor(a, b), not(a));

                ens!(is_u(x.bitand_const(y), n), "bitand_const unsigned");
                ens!(is_u(x.bitor_const(y), o), "bitor_const unsigned");
                ens!(is_u(x.bitxor_const(y), e), "bitxor_const unsigned");
                ens!(is_u(x.not_const(), c), "not_const unsigned");
                ens!(is_i(p.bitand_const(q), n), "bitand_const signed");
                ens!(is_i(p.bitor_const(q), o), "bitor_const signed");
                ens!(is_i(p.bitxor_const(q), e), "bitxor_const signed");
                ens!(is_i(p.not_const(), c), "not_const signed");

                ens!(is_u(x & y, n) && is_u(x & &y, n), "& unsigned");
                ens!(is_u(x | y, o) && is_u(x | &y, o), "| unsigned");
                ens!(is_u(x ^ y, e) && is_u(x ^ &y, e), "^ unsigned");
                ens!(is_u(!x, c) && is_u(!&x, c), "! unsigned");
                ens!(is_i(p & q, n) && is_i(p & &q, n), "& signed");
                ens!(is_i(p | q, o) && is_i(p | &q, o), "| signed");
                ens!(is_i(p ^ q, e) && is_i(p ^ &q, e), "^ signed");
                ens!(is_i(!p, c) && is_i(!&p, c), "! signed");
            }

            pub fn assign(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y, p, q) = (uu(a), uu(b), ii(a), ii(b));
                let (n, o, e) = (and(a, b), or(a, b), xor(a, b));

                macro_rules! assigns {
                    ($x:ident, $y:ident, $is:ident, $op:tt, $e:ident, $name:literal) => {{
                        let mut z = $x;
                        z $op $y;
                        ens!($is(z, $e), $name);
                        let mut z = $x;
                        z $op &$y;
                        ens!($is(z, $e), concat!($name, " by reference"));
                    }};
                }
                assigns!(x, y, is_u, &=, n, "&= unsigned");
                assigns!(x, y, is_u, |=, o, "|= unsigned");
                assigns!(x, y, is_u, ^=, e, "^= unsigned");
                assigns!(p, q, is_i, &=, n, "&= signed");
                assigns!(p, q, is_i, |=, o, "|= signed");
                assigns!(p, q, is_i, ^=, e, "^= signed");
            }

            pub fn counts_unsigned(s: &mut Src) {
                let a: W = s.big();
                let x = uu(a);
                ens!(x.count_ones() == ones(a), "count_ones unsigned");
                ens!(x.count_zeros() == BITS - ones(a), "count_zeros unsigned");
                ens!(x.leading_zeros() == leading_zeros(a), "leading_zeros unsigned");
                ens!(x.trailing_zeros() == trailing_zeros(a), "trailing_zeros unsigned");
                ens!(x.leading_ones() == leading_zeros(not(a)), "leading_ones unsigned");
                ens!(x.trailing_ones() == trailing_zeros(not(a)), "trailing_ones unsigned");
                ens!(x.is_odd() == bit(a, 0) && x.is_even() == !bit(a, 0), "is_odd unsigned");
            }

            pub fn counts_signed(s: &mut Src) {
                let a: W = s.big();
                let x = ii(a);
                ens!(x.count_ones() == ones(a), "count_ones signed");
                ens!(x.count_zeros() == BITS - ones(a), "count_zeros signed");
                ens!(x.leading_zeros() == leading_zeros(a), "leading_zeros signed");
                ens!(x.trailing_zeros() == trailing_zeros(a), "trailing_zeros signed");
                ens!(x.leading_ones() == leading_zeros(not(a)), "leading_ones signed");
                ens!(x.trailing_ones() == trailing_zeros(not(a)), "trailing_ones signed");
                ens!(x.is_odd() == bit(a, 0) && x.is_even() == !bit(a, 0), "is_odd signed");
            }

            pub fn reverse(s: &mut Src) {
                let a: W = s.big();
                let mut r = [0u64; K];
                let mut b = [0u64; K];
                let mut i = 0;
                while i < K {
                    r[i] = a[K - 1 - i].reverse_bits();
                    b[i] = a[K - 1 - i].swap_bytes();
                    i += 1;
                }
                ens!(is_u(uu(a).reverse_bits(), r), "reverse_bits unsigned");
                ens!(is_i(ii(a).reverse_bits(), r), "reverse_bits signed");
                ens!(is_u(uu(a).swap_bytes(), b), "swap_bytes unsigned");
                ens!(is_i(ii(a).swap_bytes(), b), "swap_bytes signed");
            }

            pub fn rotate_unsigned(s: &mut Src) {
                let a: W = s.big();
                let n = s.amount(BITS);
                let m = n % BITS;
                let x = uu(a);
                let (l, r) = (uw(x.rotate_left(n)), uw(x.rotate_right(n)));
                for_bit!(s, BITS, i => {
                    let j = if i + m < BITS { i + m } else { i + m - BITS };
                    ens!(bit(l, j) == bit(a, i), "rotate_left unsigned");
                    ens!(bit(r, i) == bit(a, j), "rotate_right unsigned");
                });
            }

            pub fn rotate_signed(s: &mut Src) {
                let a: W = s.big();
                let n = s.amount(BITS);
                let m = n % BITS;
                let x = ii(a);
                let (l, r) = (iw(x.rotate_left(n)), iw(x.rotate_right(n)));
                for_bit!(s, BITS, i => {
                    let j = if i + m < BITS { i + m } else { i + m - BITS };
                    ens!(bit(l, j) == bit(a, i), "rotate_left signed");
                    ens!(bit(r, i) == bit(a, j), "rotate_right signed");
                });
            }

            harness!(logic assign counts_unsigned counts_signed reverse rotate_unsigned rotate_signed);
        }
    };
}

widths!(def);
