//! Addition, subtraction and multiplication by a primitive operand equal the full-width operation.

/// A scalar as an exact value.
macro_rules! exact {
    (u $n:ident) => {
        from_u128($n as u128)
    };
    (i $n:ident) => {
        from_i128($n as i128)
    };
}

/// The exact result.
macro_rules! result {
    (u add $a:ident $s:tt $n:ident) => {
        add(xu($a), exact!($s $n))
    };
    (u sub $a:ident $s:tt $n:ident) => {
        sub(xu($a), exact!($s $n))
    };
    (u mul $a:ident $s:tt $n:ident) => {
        uprod($a, exact!($s $n))
    };
    (i add $a:ident $s:tt $n:ident) => {
        add(xs($a), exact!($s $n))
    };
    (i sub $a:ident $s:tt $n:ident) => {
        sub(xs($a), exact!($s $n))
    };
    (i mul $a:ident $s:tt $n:ident) => {
        sprod($a, exact!($s $n))
    };
}

/// Whether the exact result is in range.
macro_rules! fits {
    (u mul $e:ident) => {
        pfits_u($e)
    };
    (i mul $e:ident) => {
        pfits_s($e)
    };
    (u $op:ident $e:ident) => {
        fits_u($e)
    };
    (i $op:ident $e:ident) => {
        fits_s($e)
    };
}

macro_rules! value {
    (u $a:ident) => {
        uu($a)
    };
    (i $a:ident) => {
        ii($a)
    };
}

macro_rules! back {
    (u $v:expr) => {
        uw($v)
    };
    (i $v:expr) => {
        iw($v)
    };
}

macro_rules! scalar {
    ($b:ident $op:ident $s:tt $name:ident: $T:ty, $plain:ident $wrapping:ident $overflowing:ident $checked:ident) => {
        pub fn $name(s: &mut Src) {
            let a: W = s.big();
            let n = s.u128() as $T;
            let x = value!($b a);
            let e = result!($b $op a $s n);
            let fits = fits!($b $op e);
            let low: W = zext(e);
            ens!(eq(back!($b x.$wrapping(n)), low), stringify!($wrapping));
            let (r, o) = x.$overflowing(n);
            ens!(eq(back!($b r), low), stringify!($overflowing));
            ens!(o == !fits, concat!(stringify!($overflowing), " flag"));
            match x.$checked(n) {
                Some(v) => ens!(fits && eq(back!($b v), low), stringify!($checked)),
                None => ens!(!fits, concat!(stringify!($checked), " nothing")),
            }
            if cfg!(not(checks)) || fits {
                ens!(eq(back!($b x.$plain(n)), low), stringify!($plain));
            }
        }
    };
}

/// With overflow checks the plain form panics on overflow.
macro_rules! overflow {
    ($b:ident $op:ident $t:tt $s:ident $a:ident $x:ident: $T:ty, $plain:ident) => {{
        let n = $s.u128() as $T;
        let e = result!($b $op $a $t n);
        req!(!fits!($b $op e));
        panics!($x.$plain(n), stringify!($plain))
    }};
}

/// Without overflow checks the plain form is the wrapping one.
macro_rules! plain {
    ($b:ident $s:ident $x:ident: $T:ty, $plain:ident $wrapping:ident) => {{
        let n = $s.u128() as $T;
        ens!(eq(back!($b $x.$plain(n)), back!($b $x.$wrapping(n))), stringify!($plain))
    }};
}

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);
            kernels!();
            products!();

            scalar!(u add u u_add_ulimb: ::i256::ULimb, add_ulimb wrapping_add_ulimb overflowing_add_ulimb checked_add_ulimb);
            scalar!(u sub u u_sub_ulimb: ::i256::ULimb, sub_ulimb wrapping_sub_ulimb overflowing_sub_ulimb checked_sub_ulimb);
            scalar!(u mul u u_mul_ulimb: ::i256::ULimb, mul_ulimb wrapping_mul_ulimb overflowing_mul_ulimb checked_mul_ulimb);
            scalar!(u add u u_add_uwide: ::i256::UWide, add_uwide wrapping_add_uwide overflowing_add_uwide checked_add_uwide);
            scalar!(u sub u u_sub_uwide: ::i256::UWide, sub_uwide wrapping_sub_uwide overflowing_sub_uwide checked_sub_uwide);
            scalar!(u mul u u_mul_uwide: ::i256::UWide, mul_uwide wrapping_mul_uwide overflowing_mul_uwide checked_mul_uwide);
            scalar!(u add u u_add_u32: u32, add_u32 wrapping_add_u32 overflowing_add_u32 checked_add_u32);
            scalar!(u sub u u_sub_u32: u32, sub_u32 wrapping_sub_u32 overflowing_sub_u32 checked_sub_u32);
            scalar!(u mul u u_mul_u32: u32, mul_u32 wrapping_mul_u32 overflowing_mul_u32 checked_mul_u32);
            scalar!(u add u u_add_u64: u64, add_u64 wrapping_add_u64 overflowing_add_u64 checked_add_u64);
            scalar!(u sub u u_sub_u64: u64, sub_u64 wrapping_sub_u64 overflowing_sub_u64 checked_sub_u64);
            scalar!(u mul u u_mul_u64: u64, mul_u64 wrapping_mul_u64 overflowing_mul_u64 checked_mul_u64);
            scalar!(u add u u_add_u128: u128, add_u128 wrapping_add_u128 overflowing_add_u128 checked_add_u128);
            scalar!(u sub u u_sub_u128: u128, sub_u128 wrapping_sub_u128 overflowing_sub_u128 checked_sub_u128);
            scalar!(u mul u u_mul_u128: u128, mul_u128 wrapping_mul_u128 overflowing_mul_u128 checked_mul_u128);
            scalar!(i add u i_add_ulimb: ::i256::ULimb, add_ulimb wrapping_add_ulimb overflowing_add_ulimb checked_add_ulimb);
            scalar!(i sub u i_sub_ulimb: ::i256::ULimb, sub_ulimb wrapping_sub_ulimb overflowing_sub_ulimb checked_sub_ulimb);
            scalar!(i mul u i_mul_ulimb: ::i256::ULimb, mul_ulimb wrapping_mul_ulimb overflowing_mul_ulimb checked_mul_ulimb);
            scalar!(i add u i_add_uwide: ::i256::UWide, add_uwide wrapping_add_uwide overflowing_add_uwide checked_add_uwide);
            scalar!(i sub u i_sub_uwide: ::i256::UWide, sub_uwide wrapping_sub_uwide overflowing_sub_uwide checked_sub_uwide);
            scalar!(i mul u i_mul_uwide: ::i256::UWide, mul_uwide wrapping_mul_uwide overflowing_mul_uwide checked_mul_uwide);
            scalar!(i add u i_add_u32: u32, add_u32 wrapping_add_u32 overflowing_add_u32 checked_add_u32);
            scalar!(i sub u i_sub_u32: u32, sub_u32 wrapping_sub_u32 overflowing_sub_u32 checked_sub_u32);
            scalar!(i mul u i_mul_u32: u32, mul_u32 wrapping_mul_u32 overflowing_mul_u32 checked_mul_u32);
            scalar!(i add u i_add_u64: u64, add_u64 wrapping_add_u64 overflowing_add_u64 checked_add_u64);
            scalar!(i sub u i_sub_u64: u64, sub_u64 wrapping_sub_u64 overflowing_sub_u64 checked_sub_u64);
            scalar!(i mul u i_mul_u64: u64, mul_u64 wrapping_mul_u64 overflowing_mul_u64 checked_mul_u64);
            scalar!(i add u i_add_u128: u128, add_u128 wrapping_add_u128 overflowing_add_u128 checked_add_u128);
            scalar!(i sub u i_sub_u128: u128, sub_u128 wrapping_sub_u128 overflowing_sub_u128 checked_sub_u128);
            scalar!(i mul u i_mul_u128: u128, mul_u128 wrapping_mul_u128 overflowing_mul_u128 checked_mul_u128);
            scalar!(i add i i_add_ilimb: ::i256::ILimb, add_ilimb wrapping_add_ilimb overflowing_add_ilimb checked_add_ilimb);
            scalar!(i sub i i_sub_ilimb: ::i256::ILimb, sub_ilimb wrapping_sub_ilimb overflowing_sub_ilimb checked_sub_ilimb);
            scalar!(i mul i i_mul_ilimb: ::i256::ILimb, mul_ilimb wrapping_mul_ilimb overflowing_mul_ilimb checked_mul_ilimb);
            scalar!(i add i i_add_iwide: ::i256::IWide, add_iwide wrapping_add_iwide overflowing_add_iwide checked_add_iwide);
            scalar!(i sub i i_sub_iwide: ::i256::IWide, sub_iwide wrapping_sub_iwide overflowing_sub_iwide checked_sub_iwide);
            scalar!(i mul i i_mul_iwide: ::i256::IWide, mul_iwide wrapping_mul_iwide overflowing_mul_iwide checked_mul_iwide);
            scalar!(i add i i_add_i32: i32, add_i32 wrapping_add_i32 overflowing_add_i32 checked_add_i32);
            scalar!(i sub i i_sub_i32: i32, sub_i32 wrapping_sub_i32 overflowing_sub_i32 checked_sub_i32);
            scalar!(i mul i i_mul_i32: i32, mul_i32 wrapping_mul_i32 overflowing_mul_i32 checked_mul_i32);
            scalar!(i add i i_add_i64: i64, add_i64 wrapping_add_i64 overflowing_add_i64 checked_add_i64);
            scalar!(i sub i i_sub_i64: i64, sub_i64 wrapping_sub_i64 overflowing_sub_i64 checked_sub_i64);
            scalar!(i mul i i_mul_i64: i64, mul_i64 wrapping_mul_i64 overflowing_mul_i64 checked_mul_i64);
            scalar!(i add i i_add_i128: i128, add_i128 wrapping_add_i128 overflowing_add_i128 checked_add_i128);
            scalar!(i sub i i_sub_i128: i128, sub_i128 wrapping_sub_i128 overflowing_sub_i128 checked_sub_i128);
            scalar!(i mul i i_mul_i128: i128, mul_i128 wrapping_mul_i128 overflowing_mul_i128 checked_mul_i128);

            pub fn u_overflow(s: &mut Src) {
                let a: W = s.big();
                let x = uu(a);
                match s.below(10) {
                    0 => overflow!(u add u s a x: ::i256::ULimb, add_ulimb),
                    1 => overflow!(u add u s a x: ::i256::UWide, add_uwide),
                    2 => overflow!(u add u s a x: u32, add_u32),
                    3 => overflow!(u add u s a x: u64, add_u64),
                    4 => overflow!(u add u s a x: u128, add_u128),
                    5 => overflow!(u sub u s a x: ::i256::ULimb, sub_ulimb),
                    6 => overflow!(u sub u s a x: ::i256::UWide, sub_uwide),
                    7 => overflow!(u sub u s a x: u32, sub_u32),
                    8 => overflow!(u sub u s a x: u64, sub_u64),
                    _ => overflow!(u sub u s a x: u128, sub_u128),
                }
            }

            pub fn i_overflow(s: &mut Src) {
                let a: W = s.big();
                let x = ii(a);
                match s.below(20) {
                    0 => overflow!(i add u s a x: ::i256::ULimb, add_ulimb),
                    1 => overflow!(i add u s a x: ::i256::UWide, add_uwide),
                    2 => overflow!(i add u s a x: u32, add_u32),
                    3 => overflow!(i add u s a x: u64, add_u64),
                    4 => overflow!(i add u s a x: u128, add_u128),
                    5 => overflow!(i add i s a x: ::i256::ILimb, add_ilimb),
                    6 => overflow!(i add i s a x: ::i256::IWide, add_iwide),
                    7 => overflow!(i add i s a x: i32, add_i32),
                    8 => overflow!(i add i s a x: i64, add_i64),
                    9 => overflow!(i add i s a x: i128, add_i128),
                    10 => overflow!(i sub u s a x: ::i256::ULimb, sub_ulimb),
                    11 => overflow!(i sub u s a x: ::i256::UWide, sub_uwide),
                    12 => overflow!(i sub u s a x: u32, sub_u32),
                    13 => overflow!(i sub u s a x: u64, sub_u64),
                    14 => overflow!(i sub u s a x: u128, sub_u128),
                    15 => overflow!(i sub i s a x: ::i256::ILimb, sub_ilimb),
                    16 => overflow!(i sub i s a x: ::i256::IWide, sub_iwide),
                    17 => overflow!(i sub i s a x: i32, sub_i32),
                    18 => overflow!(i sub i s a x: i64, sub_i64),
                    _ => overflow!(i sub i s a x: i128, sub_i128),
                }
            }

            pub fn u_mul_overflow(s: &mut Src) {
                let a: W = s.big();
                let x = uu(a);
                match s.below(5) {
                    0 => overflow!(u mul u s a x: ::i256::ULimb, mul_ulimb),
                    1 => overflow!(u mul u s a x: ::i256::UWide, mul_uwide),
                    2 => overflow!(u mul u s a x: u32, mul_u32),
                    3 => overflow!(u mul u s a x: u64, mul_u64),
                    _ => overflow!(u mul u s a x: u128, mul_u128),
                }
            }

            pub fn i_mul_overflow(s: &mut Src) {
                let a: W = s.big();
                let x = ii(a);
                match s.below(10) {
                    0 => overflow!(i mul u s a x: ::i256::ULimb, mul_ulimb),
                    1 => overflow!(i mul u s a x: ::i256::UWide, mul_uwide),
                    2 => overflow!(i mul u s a x: u32, mul_u32),
                    3 => overflow!(i mul u s a x: u64, mul_u64),
                    4 => overflow!(i mul u s a x: u128, mul_u128),
                    5 => overflow!(i mul i s a x: ::i256::ILimb, mul_ilimb),
                    6 => overflow!(i mul i s a x: ::i256::IWide, mul_iwide),
                    7 => overflow!(i mul i s a x: i32, mul_i32),
                    8 => overflow!(i mul i s a x: i64, mul_i64),
                    _ => overflow!(i mul i s a x: i128, mul_i128),
                }
            }

            #[cfg(not(checks))]
            pub fn u_plain(s: &mut Src) {
                let x = uu(s.big());
                match s.below(10) {
                    0 => plain!(u s x: ::i256::ULimb, add_ulimb wrapping_add_ulimb),
                    1 => plain!(u s x: ::i256::UWide, add_uwide wrapping_add_uwide),
                    2 => plain!(u s x: u32, add_u32 wrapping_add_u32),
                    3 => plain!(u s x: u64, add_u64 wrapping_add_u64),
                    4 => plain!(u s x: u128, add_u128 wrapping_add_u128),
                    5 => plain!(u s x: ::i256::ULimb, sub_ulimb wrapping_sub_ulimb),
                    6 => plain!(u s x: ::i256::UWide, sub_uwide wrapping_sub_uwide),
                    7 => plain!(u s x: u32, sub_u32 wrapping_sub_u32),
                    8 => plain!(u s x: u64, sub_u64 wrapping_sub_u64),
                    _ => plain!(u s x: u128, sub_u128 wrapping_sub_u128),
                }
            }

            #[cfg(not(checks))]
            pub fn i_plain(s: &mut Src) {
                let x = ii(s.big());
                match s.below(20) {
                    0 => plain!(i s x: ::i256::ULimb, add_ulimb wrapping_add_ulimb),
                    1 => plain!(i s x: ::i256::UWide, add_uwide wrapping_add_uwide),
                    2 => plain!(i s x: u32, add_u32 wrapping_add_u32),
                    3 => plain!(i s x: u64, add_u64 wrapping_add_u64),
                    4 => plain!(i s x: u128, add_u128 wrapping_add_u128),
                    5 => plain!(i s x: ::i256::ILimb, add_ilimb wrapping_add_ilimb),
                    6 => plain!(i s x: ::i256::IWide, add_iwide wrapping_add_iwide),
                    7 => plain!(i s x: i32, add_i32 wrapping_add_i32),
                    8 => plain!(i s x: i64, add_i64 wrapping_add_i64),
                    9 => plain!(i s x: i128, add_i128 wrapping_add_i128),
                    10 => plain!(i s x: ::i256::ULimb, sub_ulimb wrapping_sub_ulimb),
                    11 => plain!(i s x: ::i256::UWide, sub_uwide wrapping_sub_uwide),
                    12 => plain!(i s x: u32, sub_u32 wrapping_sub_u32),
                    13 => plain!(i s x: u64, sub_u64 wrapping_sub_u64),
                    14 => plain!(i s x: u128, sub_u128 wrapping_sub_u128),
                    15 => plain!(i s x: ::i256::ILimb, sub_ilimb wrapping_sub_ilimb),
                    16 => plain!(i s x: ::i256::IWide, sub_iwide wrapping_sub_iwide),
                    17 => plain!(i s x: i32, sub_i32 wrapping_sub_i32),
                    18 => plain!(i s x: i64, sub_i64 wrapping_sub_i64),
                    _ => plain!(i s x: i128, sub_i128 wrapping_sub_i128),
                }
            }

            #[cfg(not(checks))]
            pub fn u_mul_plain(s: &mut Src) {
                let x = uu(s.big());
                match s.below(5) {
                    0 => plain!(u s x: ::i256::ULimb, mul_ulimb wrapping_mul_ulimb),
                    1 => plain!(u s x: ::i256::UWide, mul_uwide wrapping_mul_uwide),
                    2 => plain!(u s x: u32, mul_u32 wrapping_mul_u32),
                    3 => plain!(u s x: u64, mul_u64 wrapping_mul_u64),
                    _ => plain!(u s x: u128, mul_u128 wrapping_mul_u128),
                }
            }

            #[cfg(not(checks))]
            pub fn iu_mul_plain(s: &mut Src) {
                let x = ii(s.big());
                match s.below(5) {
                    0 => plain!(i s x: ::i256::ULimb, mul_ulimb wrapping_mul_ulimb),
                    1 => plain!(i s x: ::i256::UWide, mul_uwide wrapping_mul_uwide),
                    2 => plain!(i s x: u32, mul_u32 wrapping_mul_u32),
                    3 => plain!(i s x: u64, mul_u64 wrapping_mul_u64),
                    _ => plain!(i s x: u128, mul_u128 wrapping_mul_u128),
                }
            }

            #[cfg(not(checks))]
            pub fn ii_mul_plain(s: &mut Src) {
                let x = ii(s.big());
                match s.below(5) {
                    0 => plain!(i s x: ::i256::ILimb, mul_ilimb wrapping_mul_ilimb),
                    1 => plain!(i s x: ::i256::IWide, mul_iwide wrapping_mul_iwide),
                    2 => plain!(i s x: i32, mul_i32 wrapping_mul_i32),
                    3 => plain!(i s x: i64, mul_i64 wrapping_mul_i64),
                    _ => plain!(i s x: i128, mul_i128 wrapping_mul_i128),
                }
            }

            #[cfg(checks)]
            harness!(
                u_add_ulimb u_add_uwide u_add_u32 u_add_u64 u_add_u128 u_sub_ulimb u_sub_uwide u_sub_u32 u_sub_u64
                u_sub_u128 i_add_ulimb i_add_uwide i_add_u32 i_add_u64 i_add_u128 i_add_ilimb i_add_iwide i_add_i32
                i_add_i64 i_add_i128 i_sub_ulimb i_sub_uwide i_sub_u32 i_sub_u64 i_sub_u128 i_sub_ilimb i_sub_iwide
                i_sub_i32 i_sub_i64 i_sub_i128;
                panics u_overflow i_overflow;
                stubs [
                    (crate::callee::kernel::wrapping, super::k_wrapping) (crate::callee::kernel::overflowing, super::k_overflowing)
                ]
                u_mul_ulimb u_mul_uwide u_mul_u32 u_mul_u64 u_mul_u128 i_mul_ulimb i_mul_uwide i_mul_u32 i_mul_u64
                i_mul_u128 i_mul_ilimb i_mul_iwide i_mul_i32 i_mul_i64 i_mul_i128,
                panics u_mul_overflow i_mul_overflow
            );
            #[cfg(not(checks))]
            harness!(
                u_add_ulimb u_add_uwide u_add_u32 u_add_u64 u_add_u128 u_sub_ulimb u_sub_uwide u_sub_u32 u_sub_u64
                u_sub_u128 i_add_ulimb i_add_uwide i_add_u32 i_add_u64 i_add_u128 i_add_ilimb i_add_iwide i_add_i32
                i_add_i64 i_add_i128 i_sub_ulimb i_sub_uwide i_sub_u32 i_sub_u64 i_sub_u128 i_sub_ilimb i_sub_iwide
                i_sub_i32 i_sub_i64 i_sub_i128 u_plain i_plain;
                stubs [
                    (crate::callee::kernel::wrapping, super::k_wrapping) (crate::callee::kernel::overflowing, super::k_overflowing)
                ]
                u_mul_ulimb u_mul_uwide u_mul_u32 u_mul_u64 u_mul_u128 i_mul_ulimb i_mul_uwide i_mul_u32 i_mul_u64
                i_mul_u128 i_mul_ilimb i_mul_iwide i_mul_i32 i_mul_i64 i_mul_i128 u_mul_plain iu_mul_plain
                ii_mul_plain
            );
        }
    };
}

widths!(def);
