//! Byte, word and limb encodings are positional and mutually inverse.

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);

            type ULimb = ::i256::ULimb;
            type UWide = ::i256::UWide;

            /// The digit of weight 2^(size i), of up to 128 bits.
            fn digit(a: W, i: usize, size: usize) -> u128 {
                if size == 128 {
                    a[2 * i] as u128 | (a[2 * i + 1] as u128) << 64
                } else {
                    let per = 64 / size;
                    let v = a[i / per] >> (size * (i % per));
                    if size == 64 { v as u128 } else { (v & ((1 << size) - 1)) as u128 }
                }
            }

            macro_rules! encode {
                (
                    $name:ident, $t:ty,
                    $to_be:ident, $to_le:ident, $to_ne:ident, $from_be:ident, $from_le:ident, $from_ne:ident
                ) => {
                    pub fn $name(s: &mut Src) {
                        const SIZE: usize = <$t>::BITS as usize;
                        const N: usize = BITS as usize / SIZE;
                        let a: W = s.big();
                        let (x, y) = (uu(a), ii(a));
                        let mut le = [0 as $t; N];
                        let mut be = [0 as $t; N];
                        let mut i = 0;
                        while i < N {
                            le[i] = digit(a, i, SIZE) as $t;
                            be[N - 1 - i] = le[i];
                            i += 1;
                        }
                        ens!(x.$to_le() == le, concat!(stringify!($to_le), " unsigned"));
                        ens!(y.$to_le() == le, concat!(stringify!($to_le), " signed"));
                        ens!(x.$to_be() == be, concat!(stringify!($to_be), " unsigned"));
                        ens!(y.$to_be() == be, concat!(stringify!($to_be), " signed"));
                        ens!(is_u(U::$from_le(le), a), concat!(stringify!($from_le), " unsigned"));
                        ens!(is_i(I::$from_le(le), a), concat!(stringify!($from_le), " signed"));
                        ens!(is_u(U::$from_be(be), a), concat!(stringify!($from_be), " unsigned"));
                        ens!(is_i(I::$from_be(be), a), concat!(stringify!($from_be), " signed"));
                        let ne = if cfg!(target_endian = "big") { be } else { le };
                        ens!(x.$to_ne() == ne, concat!(stringify!($to_ne), " unsigned"));
                        ens!(y.$to_ne() == ne, concat!(stringify!($to_ne), " signed"));
                        ens!(is_u(U::$from_ne(ne), a), concat!(stringify!($from_ne), " unsigned"));
                        ens!(is_i(I::$from_ne(ne), a), concat!(stringify!($from_ne), " signed"));
                    }
                };
            }

            encode!(bytes, u8, to_be_bytes, to_le_bytes, to_ne_bytes, from_be_bytes, from_le_bytes, from_ne_bytes);
            encode!(limbs_enc, ULimb, to_be_limbs, to_le_limbs, to_ne_limbs, from_be_limbs, from_le_limbs, from_ne_limbs);
            encode!(wides, UWide, to_be_wide, to_le_wide, to_ne_wide, from_be_wide, from_le_wide, from_ne_wide);
            encode!(words32, u32, to_be_u32, to_le_u32, to_ne_u32, from_be_u32, from_le_u32, from_ne_u32);
            encode!(words64, u64, to_be_u64, to_le_u64, to_ne_u64, from_be_u64, from_le_u64, from_ne_u64);

            pub fn accessors(s: &mut Src) {
                let a: W = s.big();
                let (x, y) = (uu(a), ii(a));
                let mut i = 0;
                while i < LIMBS {
                    let e = digit(a, i, ULimb::BITS as usize) as ULimb;
                    ens!(x.get_limb(i) == e && y.get_limb(i) == e, "get_limb");
                    if i % 2 == 0 {
                        let e = digit(a, i / 2, UWide::BITS as usize) as UWide;
                        ens!(x.get_wide(i / 2) == e && y.get_wide(i / 2) == e, "get_wide");
                    }
                    i += 1;
                }
                let lo = digit(a, 0, ULimb::BITS as usize) as ULimb;
                let hi = digit(a, LIMBS - 1, ULimb::BITS as usize) as ULimb;
                ens!(x.least_significant_limb() == lo && y.least_significant_limb() == lo, "least_significant_limb");
                ens!(x.most_significant_limb() == hi, "most_significant_limb unsigned");
                ens!(y.most_significant_limb() == hi as ::i256::ILimb, "most_significant_limb signed");

                let (mut low, mut high) = ([0u64; K], [0u64; K]);
                let mut i = 0;
                while i < K / 2 {
                    low[i] = a[i];
                    high[i] = a[i + K / 2];
                    i += 1;
                }
                ens!(is_u(x.low(), low), "low");
                ens!(is_u(x.high(), high), "high");
            }

            pub fn endian(s: &mut Src) {
                let a: W = s.big();
                let (x, y) = (uu(a), ii(a));
                let mut swapped = [0u64; K];
                let mut i = 0;
                while i < K {
                    swapped[i] = a[K - 1 - i].swap_bytes();
                    i += 1;
                }
                let big = cfg!(target_endian = "big");
                let (be, le) = if big { (a, swapped) } else { (swapped, a) };
                ens!(is_u(x.to_be(), be) && is_u(U::from_be(x), be), "to_be unsigned");
                ens!(is_i(y.to_be(), be) && is_i(I::from_be(y), be), "to_be signed");
                ens!(is_u(x.to_le(), le) && is_u(U::from_le(x), le), "to_le unsigned");
                ens!(is_i(y.to_le(), le) && is_i(I::from_le(y), le), "to_le signed");
            }

            harness!(bytes limbs_enc wides words32 words64 accessors endian);
        }
    };
}

widths!(def);
