//! Shifts move every bit exactly as specified for every amount.

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);

            // The wrapping forms are specified bit by bit, and all others by the wrapping forms.

            /// Bit `i` of the left shift by `n < BITS`.
            fn left(a: W, n: u32, i: u32) -> bool {
                i >= n && bit(a, i - n)
            }

            /// Bit `i` of the right shift by `n < BITS`.
            fn right(a: W, n: u32, i: u32, fill: bool) -> bool {
                if i < BITS - n {
                    bit(a, i + n)
                } else {
                    fill
                }
            }

            pub fn wrapping_unsigned(s: &mut Src) {
                let a: W = s.big();
                let n = s.amount(BITS);
                let x = uu(a);
                let m = n % BITS;
                let (l, r) = (uw(x.wrapping_shl(n)), uw(x.wrapping_shr(n)));
                for_bit!(s, BITS, i => {
                    ens!(bit(l, i) == left(a, m, i), "wrapping_shl unsigned");
                    ens!(bit(r, i) == right(a, m, i, false), "wrapping_shr unsigned");
                });
            }

            pub fn wrapping_signed(s: &mut Src) {
                let a: W = s.big();
                let n = s.amount(BITS);
                let x = ii(a);
                let m = n % BITS;
                let (l, r) = (iw(x.wrapping_shl(n)), iw(x.wrapping_shr(n)));
                for_bit!(s, BITS, i => {
                    ens!(bit(l, i) == left(a, m, i), "wrapping_shl signed");
                    ens!(bit(r, i) == right(a, m, i, is_neg(a)), "wrapping_shr signed");
                });
            }

            pub fn unsigned(s: &mut Src) {
                let a: W = s.big();
                let n = s.amount(BITS);
                let x = uu(a);
                let (l, r) = (uw(x.wrapping_shl(n)), uw(x.wrapping_shr(n)));
                let fits = n < BITS;

                match x.checked_shl(n) {
                    Some(v) => ens!(fits && is_u(v, l), "checked_shl in range"),
                    None => ens!(!fits, "checked_shl out of range"),
                }
                match x.checked_shr(n) {
                    Some(v) => ens!(fits && is_u(v, r), "checked_shr in range"),
                    None => ens!(!fits, "checked_shr out of range"),
                }
                ens!(is_u(x.unbounded_shl(n), if fits { l } else { [0; K] }), "unbounded_shl");
                ens!(is_u(x.unbounded_shr(n), if fits { r } else { [0; K] }), "unbounded_shr");
            }

            pub fn unsigned_in_range(s: &mut Src) {
                let a: W = s.big();
                let n = s.below(BITS);
                let x = uu(a);
                let (l, r) = (uw(x.wrapping_shl(n)), uw(x.wrapping_shr(n)));
                ens!(is_u(x.strict_shl(n), l), "strict_shl");
                ens!(is_u(x.strict_shr(n), r), "strict_shr");
                ens!(is_u(unsafe { x.unchecked_shl(n) }, l), "unchecked_shl");
                ens!(is_u(unsafe { x.unchecked_shr(n) }, r), "unchecked_shr");
            }

            pub fn signed(s: &mut Src) {
                let a: W = s.big();
                let n = s.amount(BITS);
                let x = ii(a);
                let (l, r) = (iw(x.wrapping_shl(n)), iw(x.wrapping_shr(n)));
                let fits = n < BITS;

                let (v, o) = x.overflowing_shl(n);
                ens!(is_i(v, l) && o == !fits, "overflowing_shl");
                let (v, o) = x.overflowing_shr(n);
                ens!(is_i(v, r) && o == !fits, "overflowing_shr");
                match x.checked_shl(n) {
                    Some(v) => ens!(fits && is_i(v, l), "checked_shl in range"),
                    None => ens!(!fits, "checked_shl out of range"),
                }
                match x.checked_shr(n) {
                    Some(v) => ens!(fits && is_i(v, r), "checked_shr in range"),
                    None => ens!(!fits, "checked_shr out of range"),
                }
                // Amounts beyond the width give zero, as documented.
                ens!(is_i(x.unbounded_shl(n), if fits { l } else { [0; K] }), "unbounded_shl");
                ens!(is_i(x.unbounded_shr(n), if fits { r } else { [0; K] }), "unbounded_shr");
            }

            pub fn signed_in_range(s: &mut Src) {
                let a: W = s.big();
                let n = s.below(BITS);
                let x = ii(a);
                let (l, r) = (iw(x.wrapping_shl(n)), iw(x.wrapping_shr(n)));
                ens!(is_i(x.strict_shl(n), l), "strict_shl");
                ens!(is_i(x.strict_shr(n), r), "strict_shr");
                ens!(is_i(unsafe { x.unchecked_shl(n) }, l), "unchecked_shl");
                ens!(is_i(unsafe { x.unchecked_shr(n) }, r), "unchecked_shr");
            }

            pub fn strict_out_of_range(s: &mut Src) {
                let a: W = s.big();
                let n = s.amount(BITS);
                req!(n >= BITS);
                match s.below(4) {
                    0 => panics!(uu(a).strict_shl(n), "strict_shl unsigned"),
                    1 => panics!(uu(a).strict_shr(n), "strict_shr unsigned"),
                    2 => panics!(ii(a).strict_shl(n), "strict_shl signed"),
                    _ => panics!(ii(a).strict_shr(n), "strict_shr signed"),
                }
            }

            /// A shift amount of a primitive type, as given by its bits.
            macro_rules! primitive {
                ($d:tt $name:ident $t:ident $width:ident) => {
                    pub fn $name(s: &mut Src) {
                        let a: W = s.big();
                        let n = s.$width(BITS) as $t;
                        req!(n as i128 >= 0 && (n as u128) < BITS as u128);
                        let (x, y) = (uu(a), ii(a));
                        let (l, r) = (uw(x.wrapping_shl(n as u32)), uw(x.wrapping_shr(n as u32)));
                        let (l2, q) = (iw(y.wrapping_shl(n as u32)), iw(y.wrapping_shr(n as u32)));
                        match s.below(6) {
                            0 => {
                                ens!(is_u(x << n, l), "u << n");
                                ens!(is_u(x >> n, r), "u >> n");
                                ens!(is_i(y << n, l2), "i << n");
                                ens!(is_i(y >> n, q), "i >> n");
                            },
                            1 => {
                                ens!(is_u(x << &n, l), "u << &n");
                                ens!(is_u(x >> &n, r), "u >> &n");
                                ens!(is_i(y << &n, l2), "i << &n");
                                ens!(is_i(y >> &n, q), "i >> &n");
                            },
                            2 => {
                                let mut z = x;
                                z <<= n;
                                ens!(is_u(z, l), "u <<= n");
                                let mut z = y;
                                z <<= n;
                                ens!(is_i(z, l2), "i <<= n");
                            },
                            3 => {
                                let mut z = x;
                                z >>= n;
                                ens!(is_u(z, r), "u >>= n");
                                let mut z = y;
                                z >>= n;
                                ens!(is_i(z, q), "i >>= n");
                            },
                            4 => {
                                let mut z = x;
                                z <<= &n;
                                ens!(is_u(z, l), "u <<= &n");
                                let mut z = y;
                                z <<= &n;
                                ens!(is_i(z, l2), "i <<= &n");
                            },
                            _ => {
                                let mut z = x;
                                z >>= &n;
                                ens!(is_u(z, r), "u >>= &n");
                                let mut z = y;
                                z >>= &n;
                                ens!(is_i(z, q), "i >>= &n");
                            },
                        }
                    }
                };
            }

            primitive!($ by_u8 u8 amount8);
            primitive!($ by_u16 u16 amount);
            primitive!($ by_u32 u32 amount);
            primitive!($ by_u64 u64 amount64);
            primitive!($ by_u128 u128 amount128);
            primitive!($ by_usize usize amount64);
            primitive!($ by_i8 i8 amount8);
            primitive!($ by_i16 i16 amount);
            primitive!($ by_i32 i32 amount);
            primitive!($ by_i64 i64 amount64);
            primitive!($ by_i128 i128 amount128);
            primitive!($ by_isize isize amount64);

            /// The shift amount is a value of the types themselves.
            pub fn by_big(s: &mut Src) {
                let a: W = s.big();
                let b = s.below(BITS);
                let n = small(b as u64);
                let (x, y, un, sn) = (uu(a), ii(a), uu(n), ii(n));
                let (l, r) = (uw(x.wrapping_shl(b)), uw(x.wrapping_shr(b)));
                let (l2, q) = (iw(y.wrapping_shl(b)), iw(y.wrapping_shr(b)));
                match s.below(5) {
                    0 => {
                        ens!(is_u(x << un, l), "u << u");
                        ens!(is_u(x >> un, r), "u >> u");
                        ens!(is_i(y << sn, l2), "i << i");
                        ens!(is_i(y >> sn, q), "i >> i");
                    },
                    1 => {
                        ens!(is_u(x << sn, l), "u << i");
                        ens!(is_u(x >> sn, r), "u >> i");
                        ens!(is_i(y << un, l2), "i << u");
                        ens!(is_i(y >> un, q), "i >> u");
                    },
                    2 => {
                        ens!(is_u(x << &un, l), "u << &u");
                        ens!(is_u(x >> &un, r), "u >> &u");
                        ens!(is_i(y << &sn, l2), "i << &i");
                        ens!(is_i(y >> &sn, q), "i >> &i");
                    },
                    3 => {
                        ens!(is_u(x << &sn, l), "u << &i");
                        ens!(is_u(x >> &sn, r), "u >> &i");
                        ens!(is_i(y << &un, l2), "i << &u");
                        ens!(is_i(y >> &un, q), "i >> &u");
                    },
                    _ => {
                        let mut z = x;
                        z <<= sn;
                        ens!(is_u(z, l), "u <<= i");
                        let mut z = x;
                        z >>= &sn;
                        ens!(is_u(z, r), "u >>= &i");
                        let mut z = y;
                        z <<= &un;
                        ens!(is_i(z, l2), "i <<= &u");
                        let mut z = y;
                        z >>= un;
                        ens!(is_i(z, q), "i >>= u");
                    },
                }
            }

            /// Every operator panics on an amount outside of the range, given overflow checks.
            #[cfg(checks)]
            pub fn operators_out_of_range(s: &mut Src) {
                let a: W = s.big();
                let b: W = s.big();
                let n = b[0] as u128 | (b[1] as u128) << 64;
                let (x, y) = (uu(a), ii(a));
                let select = s.below(16);

                macro_rules! out {
                    ($t:ident) => {{
                        let n = n as $t;
                        req!((n as i128) < 0 || n as u128 >= BITS as u128);
                        match s.below(4) {
                            0 => panics!(x << n, "u << n"),
                            1 => panics!(x >> n, "u >> n"),
                            2 => panics!(y << n, "i << n"),
                            _ => panics!(y >> n, "i >> n"),
                        }
                    }};
                }

                match select {
                    0 => out!(u16),
                    1 => out!(u32),
                    2 => out!(u64),
                    3 => out!(u128),
                    4 => out!(usize),
                    5 => out!(i8),
                    6 => out!(i16),
                    7 => out!(i32),
                    8 => out!(i64),
                    9 => out!(i128),
                    10 => out!(isize),
                    11 => {
                        req!(!ult(b, small(BITS as u64)));
                        match s.below(2) {
                            0 => panics!(x << uu(b), "u << u"),
                            _ => panics!(x >> uu(b), "u >> u"),
                        }
                    },
                    12 => {
                        req!(!ult(b, small(BITS as u64)));
                        match s.below(2) {
                            0 => panics!(y << ii(b), "i << i"),
                            _ => panics!(y >> ii(b), "i >> i"),
                        }
                    },
                    13 => {
                        req!(!ult(b, small(BITS as u64)));
                        match s.below(2) {
                            0 => panics!(x << ii(b), "u << i"),
                            _ => panics!(x >> ii(b), "u >> i"),
                        }
                    },
                    14 => {
                        req!(!ult(b, small(BITS as u64)));
                        match s.below(2) {
                            0 => panics!(y << uu(b), "i << u"),
                            _ => panics!(y >> uu(b), "i >> u"),
                        }
                    },
                    _ => {
                        // The assigning and by-reference forms.
                        let n = n as i32;
                        req!(n < 0 || n as u32 >= BITS);
                        match s.below(4) {
                            0 => panics!({ let mut z = x; z <<= n; z }, "u <<= n"),
                            1 => panics!({ let mut z = y; z >>= &n; z }, "i >>= &n"),
                            2 => panics!(x >> &n, "u >> &n"),
                            _ => panics!(y << &n, "i << &n"),
                        }
                    },
                }
            }

            /// No operator panics without overflow checks.
            #[cfg(not(checks))]
            pub fn operators_out_of_range(s: &mut Src) {
                let a: W = s.big();
                let b: W = s.big();
                let n = s.amount128(BITS);
                let (x, y) = (uu(a), ii(a));
                let t = n as u32;
                ens!(is_u(x << t, uw(x.wrapping_shl(t))), "u << n wraps");
                ens!(is_u(x >> t, uw(x.wrapping_shr(t))), "u >> n wraps");
                ens!(is_i(y << t, iw(y.wrapping_shl(t))), "i << n wraps");
                ens!(is_i(y >> t, iw(y.wrapping_shr(t))), "i >> n wraps");
                _ = x << n as u8;
                _ = x << n as i8;
                _ = y >> n as u64;
                _ = y >> n as i128;
                _ = x << uu(b);
                _ = y >> ii(b);
                _ = x >> ii(b);
                _ = y << uu(b);
            }

            memo!(ushl(x: U, n: u32) -> U, same |p, q| is_u(p.0, uw(q.0)) && p.1 == q.1, any any_u());
            memo!(ushr(x: U, n: u32) -> U, same |p, q| is_u(p.0, uw(q.0)) && p.1 == q.1, any any_u());
            memo!(ishl(x: I, n: u32) -> I, same |p, q| is_i(p.0, iw(q.0)) && p.1 == q.1, any any_i());
            memo!(ishr(x: I, n: u32) -> I, same |p, q| is_i(p.0, iw(q.0)) && p.1 == q.1, any any_i());

            #[cfg(checks)]
            harness!(
                wrapping_unsigned wrapping_signed;
                stubs [
                    (::i256::$U::wrapping_shl, super::ushl) (::i256::$U::wrapping_shr, super::ushr)
                    (::i256::$I::wrapping_shl, super::ishl) (::i256::$I::wrapping_shr, super::ishr)
                ]
                unsigned unsigned_in_range signed signed_in_range
                by_u8 by_u16 by_u32 by_u64 by_u128 by_usize by_i8 by_i16 by_i32 by_i64 by_i128 by_isize by_big,
                panics strict_out_of_range operators_out_of_range
            );
            #[cfg(not(checks))]
            harness!(
                wrapping_unsigned wrapping_signed;
                stubs [
                    (::i256::$U::wrapping_shl, super::ushl) (::i256::$U::wrapping_shr, super::ushr)
                    (::i256::$I::wrapping_shl, super::ishl) (::i256::$I::wrapping_shr, super::ishr)
                ]
                unsigned unsigned_in_range signed signed_in_range
                by_u8 by_u16 by_u32 by_u64 by_u128 by_usize by_i8 by_i16 by_i32 by_i64 by_i128 by_isize by_big
                operators_out_of_range,
                panics strict_out_of_range
            );
        }
    };
}

widths!(def);
