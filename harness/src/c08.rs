//! Conversions preserve the value or fail exactly when it does not fit.

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);

            type ULimb = ::i256::ULimb;
            type ILimb = ::i256::ILimb;
            type UWide = ::i256::UWide;
            type IWide = ::i256::IWide;

            /// The named and trait conversions from the unsigned primitive types.
            pub fn from_unsigned_primitive(s: &mut Src) {
                let n = s.u128();

                macro_rules! from {
                    ($t:ty, $f:ident, $name:literal) => {{
                        let n = n as $t;
                        let e: W = from_u128(n as u128);
                        ens!(is_u(U::$f(n), e), concat!($name, " to unsigned"));
                        ens!(is_i(I::$f(n), e), concat!($name, " to signed"));
                    }};
                }
                from!(u8, from_u8, "from_u8");
                from!(u16, from_u16, "from_u16");
                from!(u32, from_u32, "from_u32");
                from!(u64, from_u64, "from_u64");
                from!(u128, from_u128, "from_u128");
                from!(ULimb, from_ulimb, "from_ulimb");
                from!(UWide, from_uwide, "from_uwide");
                from!(u8, from, "From<u8>");
                from!(u16, from, "From<u16>");
                from!(u32, from, "From<u32>");
                from!(u64, from, "From<u64>");
                from!(u128, from, "From<u128>");

                let b = n & 1 == 1;
                ens!(is_u(U::from(b), small(b as u64)) && is_i(I::from(b), small(b as u64)), "From<bool>");
                if let Some(c) = char::from_u32(n as u32) {
                    let e = small(c as u32 as u64);
                    ens!(is_u(U::from(c), e) && is_i(I::from(c), e), "From<char>");
                }
            }

            /// The named and trait conversions from the signed primitive types.
            pub fn from_signed_primitive(s: &mut Src) {
                let n = s.u128();

                macro_rules! from {
                    ($t:ty, $f:ident, $name:literal) => {{
                        let n = n as $t;
                        let e: W = from_i128(n as i128);
                        ens!(is_u(U::$f(n), e), concat!($name, " to unsigned"));
                        ens!(is_i(I::$f(n), e), concat!($name, " to signed"));
                    }};
                }
                from!(i8, from_i8, "from_i8");
                from!(i16, from_i16, "from_i16");
                from!(i32, from_i32, "from_i32");
                from!(i64, from_i64, "from_i64");
                from!(i128, from_i128, "from_i128");
                from!(ILimb, from_ilimb, "from_ilimb");
                from!(IWide, from_iwide, "from_iwide");

                macro_rules! traits {
                    ($t:ty, $name:literal) => {{
                        let n = n as $t;
                        let e: W = from_i128(n as i128);
                        ens!(is_i(I::from(n), e), concat!("From<", $name, ">"));
                        match U::try_from(n) {
                            Ok(v) => ens!(n >= 0 && is_u(v, e), concat!("TryFrom<", $name, "> in range")),
                            Err(_) => ens!(n < 0, concat!("TryFrom<", $name, "> out of range")),
                        }
                    }};
                }
                traits!(i8, "i8");
                traits!(i16, "i16");
                traits!(i32, "i32");
                traits!(i64, "i64");
                traits!(i128, "i128");
            }

            /// The truncating conversions to primitive types.
            pub fn to_primitive(s: &mut Src) {
                let a: W = s.big();
                let (x, y) = (uu(a), ii(a));
                let n = a[0] as u128 | (a[1] as u128) << 64;

                macro_rules! to {
                    ($f:ident, $t:ty) => {{
                        ens!(x.$f() == n as $t, concat!(stringify!($f), " of unsigned"));
                        ens!(y.$f() == n as $t, concat!(stringify!($f), " of signed"));
                    }};
                }
                to!(as_u8, u8);
                to!(as_u16, u16);
                to!(as_u32, u32);
                to!(as_u64, u64);
                to!(as_u128, u128);
                to!(as_i8, i8);
                to!(as_i16, i16);
                to!(as_i32, i32);
                to!(as_i64, i64);
                to!(as_i128, i128);
                to!(as_ulimb, ULimb);
                to!(as_uwide, UWide);
                to!(as_ilimb, ILimb);
                to!(as_iwide, IWide);
            }

            /// The conversions between the types of one width.
            pub fn between(s: &mut Src) {
                let a: W = s.big();
                let (x, y) = (uu(a), ii(a));
                ens!(is_i(x.as_signed(), a) && is_i(x.cast_signed(), a), "as_signed");
                ens!(is_u(y.as_unsigned(), a) && is_u(y.cast_unsigned(), a), "as_unsigned");
                ens!(is_u(x.as_unsigned(), a) && is_i(y.as_signed(), a), "as the same type");
                ens!(is_u(U::from_signed(y), a) && is_u(U::from_unsigned(x), a), "to unsigned");
                ens!(is_i(I::from_unsigned(x), a) && is_i(I::from_signed(y), a), "to signed");
                match I::try_from(x) {
                    Ok(v) => ens!(!is_neg(a) && is_i(v, a), "TryFrom<unsigned> in range"),
                    Err(_) => ens!(is_neg(a), "TryFrom<unsigned> out of range"),
                }
                match U::try_from(y) {
                    Ok(v) => ens!(!is_neg(a) && is_u(v, a), "TryFrom<signed> in range"),
                    Err(_) => ens!(is_neg(a), "TryFrom<signed> out of range"),
                }
            }

            harness!(from_unsigned_primitive from_signed_primitive to_primitive between);
        }
    };
}

widths!(def);
