//! Division by a primitive divisor satisfies the division identity.

/// A scalar as a value of the width.
macro_rules! exact {
    (u $n:expr) => {
        from_u128($n as u128)
    };
    (i $n:expr) => {
        from_i128($n as i128)
    };
}

/// The quotient, the remainder and whether the quotient is out of range.
macro_rules! result {
    (u u $a:ident $n:ident) => {{
        let (q, r) = uquo($a, from_u128($n as u128));
        (q, r, false)
    }};
    // Rounded down, so that the remainder is not negative.
    (i u $a:ident $n:ident) => {{
        let d: W = from_u128($n as u128);
        let (q, r) = uquo(abs($a), d);
        if !is_neg($a) {
            (q, r, false)
        } else if is_zero(r) {
            (neg(q), r, false)
        } else {
            (not(q), sub(d, r), false)
        }
    }};
    (i i $a:ident $n:ident) => {{
        let d: W = from_i128($n as i128);
        let (q, r) = squo($a, d);
        (q, r, eq($a, smin()) && eq(d, not([0; K])))
    }};
}

macro_rules! value {
    (u $a:ident) => {
        uu($a)
    };
    (i $a:ident) => {
        ii($a)
    };
}

macro_rules! back {
    (u $v:expr) => {
        uw($v)
    };
    (i $v:expr) => {
        iw($v)
    };
}

macro_rules! scalar {
    (
        $b:ident $s:tt $name:ident: $T:ty,
        $div_rem:ident $div:ident $rem:ident
        $wrapping_div_rem:ident $wrapping_div:ident $wrapping_rem:ident
        $overflowing_div_rem:ident $overflowing_div:ident $overflowing_rem:ident
        $checked_div_rem:ident $checked_div:ident $checked_rem:ident
    ) => {
        pub fn $name(s: &mut Src) {
            let a: W = s.big();
            let n = s.u128() as $T;
            req!(n != 0);
            let x = value!($b a);
            let (q, r, over) = result!($b $s a n);

            let (u, v) = x.$wrapping_div_rem(n);
            ens!(eq(back!($b u), q) && eq(exact!($s v), r), stringify!($wrapping_div_rem));
            ens!(eq(back!($b x.$wrapping_div(n)), q), stringify!($wrapping_div));
            ens!(eq(exact!($s x.$wrapping_rem(n)), r), stringify!($wrapping_rem));
            let ((u, v), o) = x.$overflowing_div_rem(n);
            ens!(eq(back!($b u), q) && eq(exact!($s v), r) && o == over, stringify!($overflowing_div_rem));
            let (u, o) = x.$overflowing_div(n);
            ens!(eq(back!($b u), q) && o == over, stringify!($overflowing_div));
            let (v, o) = x.$overflowing_rem(n);
            ens!(eq(exact!($s v), r) && o == over, stringify!($overflowing_rem));
            match x.$checked_div_rem(n) {
                Some((u, v)) => ens!(!over && eq(back!($b u), q) && eq(exact!($s v), r), stringify!($checked_div_rem)),
                None => ens!(over, concat!(stringify!($checked_div_rem), " nothing")),
            }
            match x.$checked_div(n) {
                Some(u) => ens!(!over && eq(back!($b u), q), stringify!($checked_div)),
                None => ens!(over, concat!(stringify!($checked_div), " nothing")),
            }
            match x.$checked_rem(n) {
                Some(v) => ens!(!over && eq(exact!($s v), r), stringify!($checked_rem)),
                None => ens!(over, concat!(stringify!($checked_rem), " nothing")),
            }
            if cfg!(not(checks)) || !over {
                let (u, v) = x.$div_rem(n);
                ens!(eq(back!($b u), q) && eq(exact!($s v), r), stringify!($div_rem));
                ens!(eq(back!($b x.$div(n)), q), stringify!($div));
                ens!(eq(exact!($s x.$rem(n)), r), stringify!($rem));
            }
        }
    };
}

/// Without overflow checks the plain form is the wrapping one.
macro_rules! plain {
    ($b:ident $s:ident $x:ident: $T:ty, $div_rem:ident $div:ident $rem:ident $wrapping:ident) => {{
        let n = $s.u128() as $T;
        req!(n != 0);
        let (q, r) = $x.$wrapping(n);
        let q = back!($b q);
        let (u, v) = $x.$div_rem(n);
        ens!(eq(back!($b u), q) && v == r, stringify!($div_rem));
        ens!(eq(back!($b $x.$div(n)), q), stringify!($div));
        ens!($x.$rem(n) == r, stringify!($rem))
    }};
}

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;

            width!($U, $I, $K);
            kernels!();
            quotients!();

            scalar!(
                u u u_ulimb: ::i256::ULimb,
                div_rem_ulimb div_ulimb rem_ulimb
                wrapping_div_rem_ulimb wrapping_div_ulimb wrapping_rem_ulimb
                overflowing_div_rem_ulimb overflowing_div_ulimb overflowing_rem_ulimb
                checked_div_rem_ulimb checked_div_ulimb checked_rem_ulimb
            );
            scalar!(
                u u u_uwide: ::i256::UWide,
                div_rem_uwide div_uwide rem_uwide
                wrapping_div_rem_uwide wrapping_div_uwide wrapping_rem_uwide
                overflowing_div_rem_uwide overflowing_div_uwide overflowing_rem_uwide
                checked_div_rem_uwide checked_div_uwide checked_rem_uwide
            );
            scalar!(
                u u u_u32: u32,
                div_rem_u32 div_u32 rem_u32
                wrapping_div_rem_u32 wrapping_div_u32 wrapping_rem_u32
                overflowing_div_rem_u32 overflowing_div_u32 overflowing_rem_u32
                checked_div_rem_u32 checked_div_u32 checked_rem_u32
            );
            scalar!(
                u u u_u64: u64,
                div_rem_u64 div_u64 rem_u64
                wrapping_div_rem_u64 wrapping_div_u64 wrapping_rem_u64
                overflowing_div_rem_u64 overflowing_div_u64 overflowing_rem_u64
                checked_div_rem_u64 checked_div_u64 checked_rem_u64
            );
            scalar!(
                u u u_u128: u128,
                div_rem_u128 div_u128 rem_u128
                wrapping_div_rem_u128 wrapping_div_u128 wrapping_rem_u128
                overflowing_div_rem_u128 overflowing_div_u128 overflowing_rem_u128
                checked_div_rem_u128 checked_div_u128 checked_rem_u128
            );
            scalar!(
                i u i_ulimb: ::i256::ULimb,
                div_rem_ulimb div_ulimb rem_ulimb
                wrapping_div_rem_ulimb wrapping_div_ulimb wrapping_rem_ulimb
                overflowing_div_rem_ulimb overflowing_div_ulimb overflowing_rem_ulimb
                checked_div_rem_ulimb checked_div_ulimb checked_rem_ulimb
            );
            scalar!(
                i u i_uwide: ::i256::UWide,
                div_rem_uwide div_uwide rem_uwide
                wrapping_div_rem_uwide wrapping_div_uwide wrapping_rem_uwide
                overflowing_div_rem_uwide overflowing_div_uwide overflowing_rem_uwide
                checked_div_rem_uwide checked_div_uwide checked_rem_uwide
            );
            scalar!(
                i u i_u32: u32,
                div_rem_u32 div_u32 rem_u32
                wrapping_div_rem_u32 wrapping_div_u32 wrapping_rem_u32
                overflowing_div_rem_u32 overflowing_div_u32 overflowing_rem_u32
                checked_div_rem_u32 checked_div_u32 checked_rem_u32
            );
            scalar!(
                i u i_u64: u64,
                div_rem_u64 div_u64 rem_u64
                wrapping_div_rem_u64 wrapping_div_u64 wrapping_rem_u64
                overflowing_div_rem_u64 overflowing_div_u64 overflowing_rem_u64
                checked_div_rem_u64 checked_div_u64 checked_rem_u64
            );
            scalar!(
                i u i_u128: u128,
                div_rem_u128 div_u128 rem_u128
                wrapping_div_rem_u128 wrapping_div_u128 wrapping_rem_u128
                overflowing_div_rem_u128 overflowing_div_u128 overflowing_rem_u128
                checked_div_rem_u128 checked_div_u128 checked_rem_u128
            );
            scalar!(
                i i i_ilimb: ::i256::ILimb,
                div_rem_ilimb div_ilimb rem_ilimb
                wrapping_div_rem_ilimb wrapping_div_ilimb wrapping_rem_ilimb
                overflowing_div_rem_ilimb overflowing_div_ilimb overflowing_rem_ilimb
                checked_div_rem_ilimb checked_div_ilimb checked_rem_ilimb
            );
            scalar!(
                i i i_iwide: ::i256::IWide,
                div_rem_iwide div_iwide rem_iwide
                wrapping_div_rem_iwide wrapping_div_iwide wrapping_rem_iwide
                overflowing_div_rem_iwide overflowing_div_iwide overflowing_rem_iwide
                checked_div_rem_iwide checked_div_iwide checked_rem_iwide
            );
            scalar!(
                i i i_i32: i32,
                div_rem_i32 div_i32 rem_i32
                wrapping_div_rem_i32 wrapping_div_i32 wrapping_rem_i32
                overflowing_div_rem_i32 overflowing_div_i32 overflowing_rem_i32
                checked_div_rem_i32 checked_div_i32 checked_rem_i32
            );
            scalar!(
                i i i_i64: i64,
                div_rem_i64 div_i64 rem_i64
                wrapping_div_rem_i64 wrapping_div_i64 wrapping_rem_i64
                overflowing_div_rem_i64 overflowing_div_i64 overflowing_rem_i64
                checked_div_rem_i64 checked_div_i64 checked_rem_i64
            );
            scalar!(
                i i i_i128: i128,
                div_rem_i128 div_i128 rem_i128
                wrapping_div_rem_i128 wrapping_div_i128 wrapping_rem_i128
                overflowing_div_rem_i128 overflowing_div_i128 overflowing_rem_i128
                checked_div_rem_i128 checked_div_i128 checked_rem_i128
            );

            pub fn zero_checked(s: &mut Src) {
                let a: W = s.big();
                let (x, y) = (uu(a), ii(a));
                ens!(x.checked_div_rem_ulimb(0).is_none(), "u checked_div_rem_ulimb by zero");
                ens!(x.checked_div_ulimb(0).is_none(), "u checked_div_ulimb by zero");
                ens!(x.checked_rem_ulimb(0).is_none(), "u checked_rem_ulimb by zero");
                ens!(x.checked_div_rem_uwide(0).is_none(), "u checked_div_rem_uwide by zero");
                ens!(x.checked_div_uwide(0).is_none(), "u checked_div_uwide by zero");
                ens!(x.checked_rem_uwide(0).is_none(), "u checked_rem_uwide by zero");
                ens!(x.checked_div_rem_u32(0).is_none(), "u checked_div_rem_u32 by zero");
                ens!(x.checked_div_u32(0).is_none(), "u checked_div_u32 by zero");
                ens!(x.checked_rem_u32(0).is_none(), "u checked_rem_u32 by zero");
                ens!(x.checked_div_rem_u64(0).is_none(), "u checked_div_rem_u64 by zero");
                ens!(x.checked_div_u64(0).is_none(), "u checked_div_u64 by zero");
                ens!(x.checked_rem_u64(0).is_none(), "u checked_rem_u64 by zero");
                ens!(x.checked_div_rem_u128(0).is_none(), "u checked_div_rem_u128 by zero");
                ens!(x.checked_div_u128(0).is_none(), "u checked_div_u128 by zero");
                ens!(x.checked_rem_u128(0).is_none(), "u checked_rem_u128 by zero");
                ens!(y.checked_div_rem_ulimb(0).is_none(), "i checked_div_rem_ulimb by zero");
                ens!(y.checked_div_ulimb(0).is_none(), "i checked_div_ulimb by zero");
                ens!(y.checked_rem_ulimb(0).is_none(), "i checked_rem_ulimb by zero");
                ens!(y.checked_div_rem_uwide(0).is_none(), "i checked_div_rem_uwide by zero");
                ens!(y.checked_div_uwide(0).is_none(), "i checked_div_uwide by zero");
                ens!(y.checked_rem_uwide(0).is_none(), "i checked_rem_uwide by zero");
                ens!(y.checked_div_rem_u32(0).is_none(), "i checked_div_rem_u32 by zero");
                ens!(y.checked_div_u32(0).is_none(), "i checked_div_u32 by zero");
                ens!(y.checked_rem_u32(0).is_none(), "i checked_rem_u32 by zero");
                ens!(y.checked_div_rem_u64(0).is_none(), "i checked_div_rem_u64 by zero");
                ens!(y.checked_div_u64(0).is_none(), "i checked_div_u64 by zero");
                ens!(y.checked_rem_u64(0).is_none(), "i checked_rem_u64 by zero");
                ens!(y.checked_div_rem_u128(0).is_none(), "i checked_div_rem_u128 by zero");
                ens!(y.checked_div_u128(0).is_none(), "i checked_div_u128 by zero");
                ens!(y.checked_rem_u128(0).is_none(), "i checked_rem_u128 by zero");
                ens!(y.checked_div_rem_ilimb(0).is_none(), "i checked_div_rem_ilimb by zero");
                ens!(y.checked_div_ilimb(0).is_none(), "i checked_div_ilimb by zero");
                ens!(y.checked_rem_ilimb(0).is_none(), "i checked_rem_ilimb by zero");
                ens!(y.checked_div_rem_iwide(0).is_none(), "i checked_div_rem_iwide by zero");
                ens!(y.checked_div_iwide(0).is_none(), "i checked_div_iwide by zero");
                ens!(y.checked_rem_iwide(0).is_none(), "i checked_rem_iwide by zero");
                ens!(y.checked_div_rem_i32(0).is_none(), "i checked_div_rem_i32 by zero");
                ens!(y.checked_div_i32(0).is_none(), "i checked_div_i32 by zero");
                ens!(y.checked_rem_i32(0).is_none(), "i checked_rem_i32 by zero");
                ens!(y.checked_div_rem_i64(0).is_none(), "i checked_div_rem_i64 by zero");
                ens!(y.checked_div_i64(0).is_none(), "i checked_div_i64 by zero");
                ens!(y.checked_rem_i64(0).is_none(), "i checked_rem_i64 by zero");
                ens!(y.checked_div_rem_i128(0).is_none(), "i checked_div_rem_i128 by zero");
                ens!(y.checked_div_i128(0).is_none(), "i checked_div_i128 by zero");
                ens!(y.checked_rem_i128(0).is_none(), "i checked_rem_i128 by zero");
            }

            pub fn u_zero(s: &mut Src) {
                let x = uu(s.big());
                match s.below(45) {
                    0 => panics!(x.div_rem_ulimb(0), "u div_rem_ulimb by zero"),
                    1 => panics!(x.div_ulimb(0), "u div_ulimb by zero"),
                    2 => panics!(x.rem_ulimb(0), "u rem_ulimb by zero"),
                    3 => panics!(x.wrapping_div_rem_ulimb(0), "u wrapping_div_rem_ulimb by zero"),
                    4 => panics!(x.wrapping_div_ulimb(0), "u wrapping_div_ulimb by zero"),
                    5 => panics!(x.wrapping_rem_ulimb(0), "u wrapping_rem_ulimb by zero"),
                    6 => panics!(x.overflowing_div_rem_ulimb(0), "u overflowing_div_rem_ulimb by zero"),
                    7 => panics!(x.overflowing_div_ulimb(0), "u overflowing_div_ulimb by zero"),
                    8 => panics!(x.overflowing_rem_ulimb(0), "u overflowing_rem_ulimb by zero"),
                    9 => panics!(x.div_rem_uwide(0), "u div_rem_uwide by zero"),
                    10 => panics!(x.div_uwide(0), "u div_uwide by zero"),
                    11 => panics!(x.rem_uwide(0), "u rem_uwide by zero"),
                    12 => panics!(x.wrapping_div_rem_uwide(0), "u wrapping_div_rem_uwide by zero"),
                    13 => panics!(x.wrapping_div_uwide(0), "u wrapping_div_uwide by zero"),
                    14 => panics!(x.wrapping_rem_uwide(0), "u wrapping_rem_uwide by zero"),
                    15 => panics!(x.overflowing_div_rem_uwide(0), "u overflowing_div_rem_uwide by zero"),
                    16 => panics!(x.overflowing_div_uwide(0), "u overflowing_div_uwide by zero"),
                    17 => panics!(x.overflowing_rem_uwide(0), "u overflowing_rem_uwide by zero"),
                    18 => panics!(x.div_rem_u32(0), "u div_rem_u32 by zero"),
                    19 => panics!(x.div_u32(0), "u div_u32 by zero"),
                    20 => panics!(x.rem_u32(0), "u rem_u32 by zero"),
                    21 => panics!(x.wrapping_div_rem_u32(0), "u wrapping_div_rem_u32 by zero"),
                    22 => panics!(x.wrapping_div_u32(0), "u wrapping_div_u32 by zero"),
                    23 => panics!(x.wrapping_rem_u32(0), "u wrapping_rem_u32 by zero"),
                    24 => panics!(x.overflowing_div_rem_u32(0), "u overflowing_div_rem_u32 by zero"),
                    25 => panics!(x.overflowing_div_u32(0), "u overflowing_div_u32 by zero"),
                    26 => panics!(x.overflowing_rem_u32(0), "u overflowing_rem_u32 by zero"),
                    27 => panics!(x.div_rem_u64(0), "u div_rem_u64 by zero"),
                    28 => panics!(x.div_u64(0), "u div_u64 by zero"),
                    29 => panics!(x.rem_u64(0), "u rem_u64 by zero"),
                    30 => panics!(x.wrapping_div_rem_u64(0), "u wrapping_div_rem_u64 by zero"),
                    31 => panics!(x.wrapping_div_u64(0), "u wrapping_div_u64 by zero"),
                    32 => panics!(x.wrapping_rem_u64(0), "u wrapping_rem_u64 by zero"),
                    33 => panics!(x.overflowing_div_rem_u64(0), "u overflowing_div_rem_u64 by zero"),
                    34 => panics!(x.overflowing_div_u64(0), "u overflowing_div_u64 by zero"),
                    35 => panics!(x.overflowing_rem_u64(0), "u overflowing_rem_u64 by zero"),
                    36 => panics!(x.div_rem_u128(0), "u div_rem_u128 by zero"),
                    37 => panics!(x.div_u128(0), "u div_u128 by zero"),
                    38 => panics!(x.rem_u128(0), "u rem_u128 by zero"),
                    39 => panics!(x.wrapping_div_rem_u128(0), "u wrapping_div_rem_u128 by zero"),
                    40 => panics!(x.wrapping_div_u128(0), "u wrapping_div_u128 by zero"),
                    41 => panics!(x.wrapping_rem_u128(0), "u wrapping_rem_u128 by zero"),
                    42 => panics!(x.overflowing_div_rem_u128(0), "u overflowing_div_rem_u128 by zero"),
                    43 => panics!(x.overflowing_div_u128(0), "u overflowing_div_u128 by zero"),
                    _ => panics!(x.overflowing_rem_u128(0), "u overflowing_rem_u128 by zero"),
                }
            }

            pub fn iu_zero(s: &mut Src) {
                let x = ii(s.big());
                match s.below(45) {
                    0 => panics!(x.div_rem_ulimb(0), "i div_rem_ulimb by zero"),
                    1 => panics!(x.div_ulimb(0), "i div_ulimb by zero"),
                    2 => panics!(x.rem_ulimb(0), "i rem_ulimb by zero"),
                    3 => panics!(x.wrapping_div_rem_ulimb(0), "i wrapping_div_rem_ulimb by zero"),
                    4 => panics!(x.wrapping_div_ulimb(0), "i wrapping_div_ulimb by zero"),
                    5 => panics!(x.wrapping_rem_ulimb(0), "i wrapping_rem_ulimb by zero"),
                    6 => panics!(x.overflowing_div_rem_ulimb(0), "i overflowing_div_rem_ulimb by zero"),
                    7 => panics!(x.overflowing_div_ulimb(0), "i overflowing_div_ulimb by zero"),
                    8 => panics!(x.overflowing_rem_ulimb(0), "i overflowing_rem_ulimb by zero"),
                    9 => panics!(x.div_rem_uwide(0), "i div_rem_uwide by zero"),
                    10 => panics!(x.div_uwide(0), "i div_uwide by zero"),
                    11 => panics!(x.rem_uwide(0), "i rem_uwide by zero"),
                    12 => panics!(x.wrapping_div_rem_uwide(0), "i wrapping_div_rem_uwide by zero"),
                    13 => panics!(x.wrapping_div_uwide(0), "i wrapping_div_uwide by zero"),
                    14 => panics!(x.wrapping_rem_uwide(0), "i wrapping_rem_uwide by zero"),
                    15 => panics!(x.overflowing_div_rem_uwide(0), "i overflowing_div_rem_uwide by zero"),
                    16 => panics!(x.overflowing_div_uwide(0), "i overflowing_div_uwide by zero"),
                    17 => panics!(x.overflowing_rem_uwide(0), "i overflowing_rem_uwide by zero"),
                    18 => panics!(x.div_rem_u32(0), "i div_rem_u32 by zero"),
                    19 => panics!(x.div_u32(0), "i div_u32 by zero"),
                    20 => panics!(x.rem_u32(0), "i rem_u32 by zero"),
                    21 => panics!(x.wrapping_div_rem_u32(0), "i wrapping_div_rem_u32 by zero"),
                    22 => panics!(x.wrapping_div_u32(0), "i wrapping_div_u32 by zero"),
                    23 => panics!(x.wrapping_rem_u32(0), "i wrapping_rem_u32 by zero"),
                    24 => panics!(x.overflowing_div_rem_u32(0), "i overflowing_div_rem_u32 by zero"),
                    25 => panics!(x.overflowing_div_u32(0), "i overflowing_div_u32 by zero"),
                    26 => panics!(x.overflowing_rem_u32(0), "i overflowing_rem_u32 by zero"),
                    27 => panics!(x.div_rem_u64(0), "i div_rem_u64 by zero"),
                    28 => panics!(x.div_u64(0), "i div_u64 by zero"),
                    29 => panics!(x.rem_u64(0), "i rem_u64 by zero"),
                    30 => panics!(x.wrapping_div_rem_u64(0), "i wrapping_div_rem_u64 by zero"),
                    31 => panics!(x.wrapping_div_u64(0), "i wrapping_div_u64 by zero"),
                    32 => panics!(x.wrapping_rem_u64(0), "i wrapping_rem_u64 by zero"),
                    33 => panics!(x.overflowing_div_rem_u64(0), "i overflowing_div_rem_u64 by zero"),
                    34 => panics!(x.overflowing_div_u64(0), "i overflowing_div_u64 by zero"),
                    35 => panics!(x.overflowing_rem_u64(0), "i overflowing_rem_u64 by zero"),
                    36 => panics!(x.div_rem_u128(0), "i div_rem_u128 by zero"),
                    37 => panics!(x.div_u128(0), "i div_u128 by zero"),
                    38 => panics!(x.rem_u128(0), "i rem_u128 by zero"),
                    39 => panics!(x.wrapping_div_rem_u128(0), "i wrapping_div_rem_u128 by zero"),
                    40 => panics!(x.wrapping_div_u128(0), "i wrapping_div_u128 by zero"),
                    41 => panics!(x.wrapping_rem_u128(0), "i wrapping_rem_u128 by zero"),
                    42 => panics!(x.overflowing_div_rem_u128(0), "i overflowing_div_rem_u128 by zero"),
                    43 => panics!(x.overflowing_div_u128(0), "i overflowing_div_u128 by zero"),
                    _ => panics!(x.overflowing_rem_u128(0), "i overflowing_rem_u128 by zero"),
                }
            }

            pub fn ii_zero(s: &mut Src) {
                let x = ii(s.big());
                match s.below(45) {
                    0 => panics!(x.div_rem_ilimb(0), "i div_rem_ilimb by zero"),
                    1 => panics!(x.div_ilimb(0), "i div_ilimb by zero"),
                    2 => panics!(x.rem_ilimb(0), "i rem_ilimb by zero"),
                    3 => panics!(x.wrapping_div_rem_ilimb(0), "i wrapping_div_rem_ilimb by zero"),
                    4 => panics!(x.wrapping_div_ilimb(0), "i wrapping_div_ilimb by zero"),
                    5 => panics!(x.wrapping_rem_ilimb(0), "i wrapping_rem_ilimb by zero"),
                    6 => panics!(x.overflowing_div_rem_ilimb(0), "i overflowing_div_rem_ilimb by zero"),
                    7 => panics!(x.overflowing_div_ilimb(0), "i overflowing_div_ilimb by zero"),
                    8 => panics!(x.overflowing_rem_ilimb(0), "i overflowing_rem_ilimb by zero"),
                    9 => panics!(x.div_rem_iwide(0), "i div_rem_iwide by zero"),
                    10 => panics!(x.div_iwide(0), "i div_iwide by zero"),
                    11 => panics!(x.rem_iwide(0), "i rem_iwide by zero"),
                    12 => panics!(x.wrapping_div_rem_iwide(0), "i wrapping_div_rem_iwide by zero"),
                    13 => panics!(x.wrapping_div_iwide(0), "i wrapping_div_iwide by zero"),
                    14 => panics!(x.wrapping_rem_iwide(0), "i wrapping_rem_iwide by zero"),
                    15 => panics!(x.overflowing_div_rem_iwide(0), "i overflowing_div_rem_iwide by zero"),
                    16 => panics!(x.overflowing_div_iwide(0), "i overflowing_div_iwide by zero"),
                    17 => panics!(x.overflowing_rem_iwide(0), "i overflowing_rem_iwide by zero"),
                    18 => panics!(x.div_rem_i32(0), "i div_rem_i32 by zero"),
                    19 => panics!(x.div_i32(0), "i div_i32 by zero"),
                    20 => panics!(x.rem_i32(0), "i rem_i32 by zero"),
                    21 => panics!(x.wrapping_div_rem_i32(0), "i wrapping_div_rem_i32 by zero"),
                    22 => panics!(x.wrapping_div_i32(0), "i wrapping_div_i32 by zero"),
                    23 => panics!(x.wrapping_rem_i32(0), "i wrapping_rem_i32 by zero"),
                    24 => panics!(x.overflowing_div_rem_i32(0), "i overflowing_div_rem_i32 by zero"),
                    25 => panics!(x.overflowing_div_i32(0), "i overflowing_div_i32 by zero"),
                    26 => panics!(x.overflowing_rem_i32(0), "i overflowing_rem_i32 by zero"),
                    27 => panics!(x.div_rem_i64(0), "i div_rem_i64 by zero"),
                    28 => panics!(x.div_i64(0), "i div_i64 by zero"),
                    29 => panics!(x.rem_i64(0), "i rem_i64 by zero"),
                    30 => panics!(x.wrapping_div_rem_i64(0), "i wrapping_div_rem_i64 by zero"),
                    31 => panics!(x.wrapping_div_i64(0), "i wrapping_div_i64 by zero"),
                    32 => panics!(x.wrapping_rem_i64(0), "i wrapping_rem_i64 by zero"),
                    33 => panics!(x.overflowing_div_rem_i64(0), "i overflowing_div_rem_i64 by zero"),
                    34 => panics!(x.overflowing_div_i64(0), "i overflowing_div_i64 by zero"),
                    35 => panics!(x.overflowing_rem_i64(0), "i overflowing_rem_i64 by zero"),
                    36 => panics!(x.div_rem_i128(0), "i div_rem_i128 by zero"),
                    37 => panics!(x.div_i128(0), "i div_i128 by zero"),
                    38 => panics!(x.rem_i128(0), "i rem_i128 by zero"),
                    39 => panics!(x.wrapping_div_rem_i128(0), "i wrapping_div_rem_i128 by zero"),
                    40 => panics!(x.wrapping_div_i128(0), "i wrapping_div_i128 by zero"),
                    41 => panics!(x.wrapping_rem_i128(0), "i wrapping_rem_i128 by zero"),
                    42 => panics!(x.overflowing_div_rem_i128(0), "i overflowing_div_rem_i128 by zero"),
                    43 => panics!(x.overflowing_div_i128(0), "i overflowing_div_i128 by zero"),
                    _ => panics!(x.overflowing_rem_i128(0), "i overflowing_rem_i128 by zero"),
                }
            }

            #[cfg(checks)]
            pub fn overflow(s: &mut Src) {
                let x = ii(smin());
                match s.below(15) {
                    0 => panics!(x.div_rem_ilimb(-1), "div_rem_ilimb minimum by -1"),
                    1 => panics!(x.div_ilimb(-1), "div_ilimb minimum by -1"),
                    2 => panics!(x.rem_ilimb(-1), "rem_ilimb minimum by -1"),
                    3 => panics!(x.div_rem_iwide(-1), "div_rem_iwide minimum by -1"),
                    4 => panics!(x.div_iwide(-1), "div_iwide minimum by -1"),
                    5 => panics!(x.rem_iwide(-1), "rem_iwide minimum by -1"),
                    6 => panics!(x.div_rem_i32(-1), "div_rem_i32 minimum by -1"),
                    7 => panics!(x.div_i32(-1), "div_i32 minimum by -1"),
                    8 => panics!(x.rem_i32(-1), "rem_i32 minimum by -1"),
                    9 => panics!(x.div_rem_i64(-1), "div_rem_i64 minimum by -1"),
                    10 => panics!(x.div_i64(-1), "div_i64 minimum by -1"),
                    11 => panics!(x.rem_i64(-1), "rem_i64 minimum by -1"),
                    12 => panics!(x.div_rem_i128(-1), "div_rem_i128 minimum by -1"),
                    13 => panics!(x.div_i128(-1), "div_i128 minimum by -1"),
                    _ => panics!(x.rem_i128(-1), "rem_i128 minimum by -1"),
                }
            }

            #[cfg(not(checks))]
            pub fn u_plain(s: &mut Src) {
                let x = uu(s.big());
                match s.below(5) {
                    0 => plain!(u s x: ::i256::ULimb, div_rem_ulimb div_ulimb rem_ulimb wrapping_div_rem_ulimb),
                    1 => plain!(u s x: ::i256::UWide, div_rem_uwide div_uwide rem_uwide wrapping_div_rem_uwide),
                    2 => plain!(u s x: u32, div_rem_u32 div_u32 rem_u32 wrapping_div_rem_u32),
                    3 => plain!(u s x: u64, div_rem_u64 div_u64 rem_u64 wrapping_div_rem_u64),
                    _ => plain!(u s x: u128, div_rem_u128 div_u128 rem_u128 wrapping_div_rem_u128),
                }
            }

            #[cfg(not(checks))]
            pub fn iu_plain(s: &mut Src) {
                let x = ii(s.big());
                match s.below(5) {
                    0 => plain!(i s x: ::i256::ULimb, div_rem_ulimb div_ulimb rem_ulimb wrapping_div_rem_ulimb),
                    1 => plain!(i s x: ::i256::UWide, div_rem_uwide div_uwide rem_uwide wrapping_div_rem_uwide),
                    2 => plain!(i s x: u32, div_rem_u32 div_u32 rem_u32 wrapping_div_rem_u32),
                    3 => plain!(i s x: u64, div_rem_u64 div_u64 rem_u64 wrapping_div_rem_u64),
                    _ => plain!(i s x: u128, div_rem_u128 div_u128 rem_u128 wrapping_div_rem_u128),
                }
            }

            #[cfg(not(checks))]
            pub fn ii_plain(s: &mut Src) {
                let x = ii(s.big());
                match s.below(5) {
                    0 => plain!(i s x: ::i256::ILimb, div_rem_ilimb div_ilimb rem_ilimb wrapping_div_rem_ilimb),
                    1 => plain!(i s x: ::i256::IWide, div_rem_iwide div_iwide rem_iwide wrapping_div_rem_iwide),
                    2 => plain!(i s x: i32, div_rem_i32 div_i32 rem_i32 wrapping_div_rem_i32),
                    3 => plain!(i s x: i64, div_rem_i64 div_i64 rem_i64 wrapping_div_rem_i64),
                    _ => plain!(i s x: i128, div_rem_i128 div_i128 rem_i128 wrapping_div_rem_i128),
                }
            }

            #[cfg(checks)]
            harness!(
                c_words;
                panics u_zero iu_zero ii_zero;
                stubs [
                    (::i256::math::div::full, super::k_full) (::i256::math::div::wide, super::k_wide)
                    (::i256::math::div::limb, super::k_limb) (::i256::math::div::from_u128, super::k_u128)
                ]
                u_ulimb u_uwide u_u32 u_u64 u_u128 i_ulimb i_uwide i_u32 i_u64 i_u128 i_ilimb i_iwide i_i32 i_i64 i_i128 zero_checked,
                panics overflow
            );
            #[cfg(not(checks))]
            harness!(
                c_words;
                panics u_zero iu_zero ii_zero;
                stubs [
                    (::i256::math::div::full, super::k_full) (::i256::math::div::wide, super::k_wide)
                    (::i256::math::div::limb, super::k_limb) (::i256::math::div::from_u128, super::k_u128)
                ]
                u_ulimb u_uwide u_u32 u_u64 u_u128 i_ulimb i_uwide i_u32 i_u64 i_u128 i_ilimb i_iwide i_i32 i_i64 i_i128 zero_checked
                u_plain iu_plain ii_plain
            );
        }
    };
}

widths!(def);
