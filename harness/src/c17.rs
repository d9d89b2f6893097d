//! Generic numeric traits agree with the inherent operations.

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;
            use num_traits as t;

            width!($U, $I, $K);
            kernels!();
            products!();
            quotients!();
            powers!();

            const BYTES: usize = BITS as usize / 8;

            fn word(a: W) -> u128 {
                a[0] as u128 | (a[1] as u128) << 64
            }

            // Shifts, products and quotients: what the inherent operations mean is the subject of other properties.
            macro_rules! agree {
                ($x:expr, $y:expr, $name:expr) => {
                    ens!(Same::same(&$x, &$y), $name)
                };
            }

            trait Same {
                fn same(&self, other: &Self) -> bool;
            }

            impl Same for U {
                fn same(&self, other: &Self) -> bool {
                    eq(uw(*self), uw(*other))
                }
            }

            impl Same for I {
                fn same(&self, other: &Self) -> bool {
                    eq(iw(*self), iw(*other))
                }
            }

            impl<T: Same> Same for Option<T> {
                fn same(&self, other: &Self) -> bool {
                    match (self, other) {
                        (Some(x), Some(y)) => x.same(y),
                        (None, None) => true,
                        _ => false,
                    }
                }
            }

            pub fn identities(s: &mut Src) {
                let a: W = s.big();
                macro_rules! both {
                    ($t:ty, $is:ident, $x:expr, $min:expr, $max:expr, $name:literal) => {{
                        let x = $x;
                        ens!($is(<$t as t::Zero>::zero(), [0; K]) && $is(<$t as t::ConstZero>::ZERO, [0; K]), concat!("zero ", $name));
                        ens!($is(<$t as t::One>::one(), small(1)) && $is(<$t as t::ConstOne>::ONE, small(1)), concat!("one ", $name));
                        ens!(t::Zero::is_zero(&x) == is_zero(a), concat!("is_zero ", $name));
                        ens!(t::One::is_one(&x) == eq(a, small(1)), concat!("is_one ", $name));
                        let mut z = x;
                        t::Zero::set_zero(&mut z);
                        ens!($is(z, [0; K]), concat!("set_zero ", $name));
                        t::One::set_one(&mut z);
                        ens!($is(z, small(1)), concat!("set_one ", $name));
                        ens!($is(<$t as t::Bounded>::min_value(), $min), concat!("min_value ", $name));
                        ens!($is(<$t as t::Bounded>::max_value(), $max), concat!("max_value ", $name));
                    }};
                }
                both!(U, is_u, uu(a), [0; K], [u64::MAX; K], "unsigned");
                both!(I, is_i, ii(a), smin(), smax(), "signed");
            }

            pub fn bytes(s: &mut Src) {
                let a: W = s.big();
                let mut le = [0u8; BYTES];
                let mut be = [0u8; BYTES];
                let mut i = 0;
                while i < BYTES {
                    le[i] = byte(a, i);
                    be[BYTES - 1 - i] = le[i];
                    i += 1;
                }
                let ne = if cfg!(target_endian = "big") { be } else { le };
                macro_rules! both {
                    ($t:ty, $is:ident, $x:expr, $name:literal) => {{
                        ens!(t::ToBytes::to_le_bytes(&$x) == le, concat!("to_le_bytes ", $name));
                        ens!(t::ToBytes::to_be_bytes(&$x) == be, concat!("to_be_bytes ", $name));
                        ens!(t::ToBytes::to_ne_bytes(&$x) == ne, concat!("to_ne_bytes ", $name));
                        ens!($is(<$t as t::FromBytes>::from_le_bytes(&le), a), concat!("from_le_bytes ", $name));
                        ens!($is(<$t as t::FromBytes>::from_be_bytes(&be), a), concat!("from_be_bytes ", $name));
                        ens!($is(<$t as t::FromBytes>::from_ne_bytes(&ne), a), concat!("from_ne_bytes ", $name));
                    }};
                }
                both!(U, is_u, uu(a), "unsigned");
                both!(I, is_i, ii(a), "signed");
            }

            pub fn add_sub(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                macro_rules! both {
                    ($is:ident, $opt:ident, $sat:ident, $e:ident, $x:expr, $y:expr, $name:literal) => {{
                        let (x, y) = ($x, $y);
                        let e = add($e(a), $e(b));
                        ens!($is(t::WrappingAdd::wrapping_add(&x, &y), lo(e)), concat!("wrapping_add ", $name));
                        ens!($opt(t::CheckedAdd::checked_add(&x, &y), e), concat!("checked_add ", $name));
                        ens!($is(t::SaturatingAdd::saturating_add(&x, &y), $sat(e)), concat!("SaturatingAdd ", $name));
                        ens!($is(t::Saturating::saturating_add(x, y), $sat(e)), concat!("Saturating add ", $name));
                        let e = sub($e(a), $e(b));
                        ens!($is(t::WrappingSub::wrapping_sub(&x, &y), lo(e)), concat!("wrapping_sub ", $name));
                        ens!($opt(t::CheckedSub::checked_sub(&x, &y), e), concat!("checked_sub ", $name));
                        ens!($is(t::SaturatingSub::saturating_sub(&x, &y), $sat(e)), concat!("SaturatingSub ", $name));
                        ens!($is(t::Saturating::saturating_sub(x, y), $sat(e)), concat!("Saturating sub ", $name));
                        let e = neg($e(a));
                        ens!($is(t::WrappingNeg::wrapping_neg(&x), lo(e)), concat!("wrapping_neg ", $name));
                        ens!($opt(t::CheckedNeg::checked_neg(&x), e), concat!("checked_neg ", $name));
                    }};
                }
                both!(is_u, opt_u, sat_u, xu, uu(a), uu(b), "unsigned");
                both!(is_i, opt_i, sat_s, xs, ii(a), ii(b), "signed");
            }

            macro_rules! mul {
                ($f:ident, $g:ident, $of:ident, $name:literal) => {
                    pub fn $f(s: &mut Src) {
                        let (a, b): (W, W) = (s.big(), s.big());
                        let (x, y) = ($of(a), $of(b));
                        agree!(t::WrappingMul::wrapping_mul(&x, &y), x.wrapping_mul(y), concat!("wrapping_mul ", $name));
                        agree!(t::CheckedMul::checked_mul(&x, &y), x.checked_mul(y), concat!("checked_mul ", $name));
                        agree!(t::SaturatingMul::saturating_mul(&x, &y), x.saturating_mul(y), concat!("saturating_mul ", $name));
                    }

                    pub fn $g(s: &mut Src) {
                        let (a, b, c): (W, W, W) = (s.big(), s.big(), s.big());
                        let c = if cfg!(kani) || s.bool() { c } else { shr(c, s.below(BITS)) };
                        let (x, y, z) = ($of(a), $of(b), $of(c));
                        let sum = match x.checked_mul(y) {
                            Some(p) => p.checked_add(z),
                            None => None,
                        };
                        if let Some(e) = sum {
                            agree!(t::MulAdd::mul_add(x, y, z), e, concat!("mul_add ", $name));
                            let mut v = x;
                            t::MulAddAssign::mul_add_assign(&mut v, y, z);
                            agree!(v, e, concat!("mul_add_assign ", $name));
                        }
                    }
                };
            }
            mul!(mul_unsigned, mul_add_unsigned, uu, "unsigned");
            mul!(mul_signed, mul_add_signed, ii, "signed");

            fn maybe_u(v: Option<U>, ok: bool, w: W) -> bool {
                match v {
                    Some(v) => ok && is_u(v, w),
                    None => !ok,
                }
            }

            fn maybe_i(v: Option<I>, ok: bool, w: W) -> bool {
                match v {
                    Some(v) => ok && is_i(v, w),
                    None => !ok,
                }
            }

            macro_rules! div {
                ($f:ident, $g:ident, $h:ident, $of:ident, $name:literal) => {
                    pub fn $f(s: &mut Src) {
                        let (a, b): (W, W) = (s.big(), s.big());
                        let (x, y) = ($of(a), $of(b));
                        agree!(t::CheckedDiv::checked_div(&x, &y), x.checked_div(y), concat!("checked_div ", $name));
                        agree!(t::CheckedRem::checked_rem(&x, &y), x.checked_rem(y), concat!("checked_rem ", $name));
                    }

                    pub fn $g(s: &mut Src) {
                        let (a, b): (W, W) = (s.big(), s.big());
                        let (x, y) = ($of(a), $of(b));
                        let q = x.checked_div_euclid(y);
                        agree!(t::CheckedEuclid::checked_div_euclid(&x, &y), q, concat!("checked_div_euclid ", $name));
                        if let Some(q) = q {
                            agree!(t::Euclid::div_euclid(&x, &y), q, concat!("div_euclid ", $name));
                        }
                    }

                    pub fn $h(s: &mut Src) {
                        let (a, b): (W, W) = (s.big(), s.big());
                        let (x, y) = ($of(a), $of(b));
                        let r = x.checked_rem_euclid(y);
                        agree!(t::CheckedEuclid::checked_rem_euclid(&x, &y), r, concat!("checked_rem_euclid ", $name));
                        if let Some(r) = r {
                            agree!(t::Euclid::rem_euclid(&x, &y), r, concat!("rem_euclid ", $name));
                        }
                    }
                };
            }
            div!(div_unsigned, div_euclid_unsigned, rem_euclid_unsigned, uu, "unsigned");
            div!(div_signed, div_euclid_signed, rem_euclid_signed, ii, "signed");

            pub fn powers(s: &mut Src) {
                let a = base(s);
                let e = s.amount(BITS);
                let (w, fits) = upow(a, e);
                if fits {
                    ens!(is_u(t::Pow::pow(uu(a), e), w) && is_u(t::Pow::pow(uu(a), &e), w), "Pow unsigned");
                    ens!(is_u(t::PrimInt::pow(uu(a), e), w), "PrimInt::pow unsigned");
                }
                let (w, fits) = spow(a, e);
                if fits {
                    ens!(is_i(t::Pow::pow(ii(a), e), w) && is_i(t::Pow::pow(ii(a), &e), w), "Pow signed");
                    ens!(is_i(t::PrimInt::pow(ii(a), e), w), "PrimInt::pow signed");
                }
            }

            macro_rules! opaque {
                ($f:ident, $t:ty, $w:ident, $any:expr, $out:ty) => {
                    memo!($f(x: $t, n: u32) -> $out, same |p, q| eq($w(p.0), $w(q.0)) && p.1 == q.1, any $any);
                };
            }
            opaque!(k_uwshl, U, uw, any_u(), U);
            opaque!(k_uwshr, U, uw, any_u(), U);
            opaque!(k_iwshl, I, iw, any_i(), I);
            opaque!(k_iwshr, I, iw, any_i(), I);
            opaque!(k_ucshl, U, uw, if kani::any() { Some(any_u()) } else { None }, Option<U>);
            opaque!(k_ucshr, U, uw, if kani::any() { Some(any_u()) } else { None }, Option<U>);
            opaque!(k_icshl, I, iw, if kani::any() { Some(any_i()) } else { None }, Option<I>);
            opaque!(k_icshr, I, iw, if kani::any() { Some(any_i()) } else { None }, Option<I>);
            opaque!(k_url, U, uw, any_u(), U);
            opaque!(k_urr, U, uw, any_u(), U);
            opaque!(k_irl, I, iw, any_i(), I);
            opaque!(k_irr, I, iw, any_i(), I);

            pub fn shifts(s: &mut Src) {
                let a: W = s.big();
                let n = s.amount(BITS);
                macro_rules! both {
                    ($x:expr, $name:literal) => {{
                        let x = $x;
                        agree!(t::WrappingShl::wrapping_shl(&x, n), x.wrapping_shl(n), concat!("wrapping_shl ", $name));
                        agree!(t::WrappingShr::wrapping_shr(&x, n), x.wrapping_shr(n), concat!("wrapping_shr ", $name));
                        agree!(t::CheckedShl::checked_shl(&x, n), x.checked_shl(n), concat!("checked_shl ", $name));
                        agree!(t::CheckedShr::checked_shr(&x, n), x.checked_shr(n), concat!("checked_shr ", $name));
                        agree!(t::PrimInt::rotate_left(x, n), x.rotate_left(n), concat!("rotate_left ", $name));
                        agree!(t::PrimInt::rotate_right(x, n), x.rotate_right(n), concat!("rotate_right ", $name));
                    }};
                }
                both!(uu(a), "unsigned");
                both!(ii(a), "signed");
            }

            pub fn prim_shifts(s: &mut Src) {
                let a: W = s.big();
                let n = s.below(BITS);
                let (x, y) = (uu(a), ii(a));
                agree!(t::PrimInt::signed_shl(x, n), (y << n).as_unsigned(), "signed_shl unsigned");
                agree!(t::PrimInt::signed_shl(y, n), y << n, "signed_shl signed");
                agree!(t::PrimInt::unsigned_shl(x, n), x << n, "unsigned_shl unsigned");
                agree!(t::PrimInt::unsigned_shl(y, n), (x << n).as_signed(), "unsigned_shl signed");
                agree!(t::PrimInt::signed_shr(x, n), (y >> n).as_unsigned(), "signed_shr unsigned");
                agree!(t::PrimInt::signed_shr(y, n), y >> n, "signed_shr signed");
                agree!(t::PrimInt::unsigned_shr(x, n), x >> n, "unsigned_shr unsigned");
                agree!(t::PrimInt::unsigned_shr(y, n), (x >> n).as_signed(), "unsigned_shr signed");
            }

            pub fn bits(s: &mut Src) {
                let a: W = s.big();
                let mut rev = [0u64; K];
                let mut swapped = [0u64; K];
                let mut i = 0;
                while i < K {
                    rev[i] = a[K - 1 - i].reverse_bits();
                    swapped[i] = a[K - 1 - i].swap_bytes();
                    i += 1;
                }
                let (be, le) = if cfg!(target_endian = "big") { (a, swapped) } else { (swapped, a) };
                macro_rules! both {
                    ($t:ty, $is:ident, $x:expr, $name:literal) => {{
                        let x = $x;
                        ens!(t::PrimInt::count_ones(x) == ones(a), concat!("count_ones ", $name));
                        ens!(t::PrimInt::count_zeros(x) == BITS - ones(a), concat!("count_zeros ", $name));
                        ens!(t::PrimInt::leading_zeros(x) == leading_zeros(a), concat!("leading_zeros ", $name));
                        ens!(t::PrimInt::leading_ones(x) == leading_zeros(not(a)), concat!("leading_ones ", $name));
                        ens!(t::PrimInt::trailing_zeros(x) == trailing_zeros(a), concat!("trailing_zeros ", $name));
                        ens!(t::PrimInt::trailing_ones(x) == trailing_zeros(not(a)), concat!("trailing_ones ", $name));
                        ens!($is(t::PrimInt::reverse_bits(x), rev), concat!("reverse_bits ", $name));
                        ens!($is(t::PrimInt::swap_bytes(x), swapped), concat!("swap_bytes ", $name));
                        ens!($is(t::PrimInt::to_be(x), be), concat!("to_be ", $name));
                        ens!($is(t::PrimInt::to_le(x), le), concat!("to_le ", $name));
                        ens!($is(<$t as t::PrimInt>::from_be(x), be), concat!("from_be ", $name));
                        ens!($is(<$t as t::PrimInt>::from_le(x), le), concat!("from_le ", $name));
                    }};
                }
                both!(U, is_u, uu(a), "unsigned");
                both!(I, is_i, ii(a), "signed");
            }

            pub fn signs(s: &mut Src) {
                let (a, b): (W, W) = (s.big(), s.big());
                let (x, y) = (ii(a), ii(b));
                if !eq(a, smin()) {
                    ens!(is_i(t::Signed::abs(&x), abs(a)), "abs");
                }
                let e = sub(xs(a), xs(b));
                if is_neg(e) {
                    ens!(is_i(t::Signed::abs_sub(&x, &y), [0; K]), "abs_sub of a smaller value");
                } else if fits_s(e) {
                    ens!(is_i(t::Signed::abs_sub(&x, &y), lo(e)), "abs_sub");
                }
                let sign = if is_neg(a) { [u64::MAX; K] } else { small(!is_zero(a) as u64) };
                ens!(is_i(t::Signed::signum(&x), sign), "signum");
                ens!(t::Signed::is_negative(&x) == is_neg(a), "is_negative");
                ens!(t::Signed::is_positive(&x) == (!is_neg(a) && !is_zero(a)), "is_positive");
            }

            /// The conversions from primitive types.
            pub fn from_primitive(s: &mut Src) {
                let n = s.u128();
                macro_rules! from {
                    ($f:ident, $t:ty) => {{
                        let v = n as $t;
                        // The exact value.
                        let negative = (v as i128) < 0 && <$t>::MIN != 0;
                        let w: W = if negative { from_i128(v as i128) } else { from_u128(v as u128) };
                        ens!(maybe_u(<U as t::FromPrimitive>::$f(v), !negative, w), concat!(stringify!($f), " unsigned"));
                        ens!(maybe_i(<I as t::FromPrimitive>::$f(v), true, w), concat!(stringify!($f), " signed"));
                        ens!(maybe_u(<U as t::NumCast>::from(v), !negative, w), concat!("NumCast ", stringify!($f), " unsigned"));
                        ens!(maybe_i(<I as t::NumCast>::from(v), true, w), concat!("NumCast ", stringify!($f), " signed"));
                        ens!(is_u(<$t as t::AsPrimitive<U>>::as_(v), w), concat!("AsPrimitive ", stringify!($f), " unsigned"));
                        ens!(is_i(<$t as t::AsPrimitive<I>>::as_(v), w), concat!("AsPrimitive ", stringify!($f), " signed"));
                    }};
                }
                from!(from_u8, u8);
                from!(from_u16, u16);
                from!(from_u32, u32);
                from!(from_u64, u64);
                from!(from_u128, u128);
                from!(from_usize, usize);
                from!(from_i8, i8);
                from!(from_i16, i16);
                from!(from_i32, i32);
                from!(from_i64, i64);
                from!(from_i128, i128);
                from!(from_isize, isize);
                let b = n % 2 == 1;
                ens!(is_u(t::AsPrimitive::<U>::as_(b), small(b as u64)), "AsPrimitive from bool unsigned");
                ens!(is_i(t::AsPrimitive::<I>::as_(b), small(b as u64)), "AsPrimitive from bool signed");
                if let Some(c) = char::from_u32(n as u32) {
                    ens!(is_u(t::AsPrimitive::<U>::as_(c), small(c as u64)), "AsPrimitive from char unsigned");
                    ens!(is_i(t::AsPrimitive::<I>::as_(c), small(c as u64)), "AsPrimitive from char signed");
                }
            }

            /// The conversions to primitive types.
            pub fn to_primitive(s: &mut Src) {
                let mut a: W = s.big();
                if cfg!(not(kani)) {
                    // Mostly close to the bounds of the types.
                    match s.below(4) {
                        0 => {},
                        k => {
                            let n = [7, 8, 15, 16, 31, 32, 63, 64, 127, 128][s.below(10) as usize];
                            a = shl(small(1), n);
                            a = sub(add(a, small(s.below(3) as u64)), small(1));
                            if k == 1 {
                                a = neg(a);
                            }
                        },
                    }
                }
                let n = word(a);
                macro_rules! to {
                    ($f:ident, $t:ty) => {{
                        let v = n as $t;
                        let negative = (v as i128) < 0 && <$t>::MIN != 0;
                        let w: W = if negative { from_i128(v as i128) } else { from_u128(v as u128) };
                        // Converting back gives the exact value of the target.
                        let fits_unsigned = !negative && eq(w, a);
                        let fits_signed = eq(w, a) && is_neg(a) == negative;
                        match t::ToPrimitive::$f(&uu(a)) {
                            Some(r) => ens!(fits_unsigned && r == v, concat!(stringify!($f), " unsigned")),
                            None => ens!(!fits_unsigned, concat!(stringify!($f), " unsigned nothing")),
                        }
                        match t::ToPrimitive::$f(&ii(a)) {
                            Some(r) => ens!(fits_signed && r == v, concat!(stringify!($f), " signed")),
                            None => ens!(!fits_signed, concat!(stringify!($f), " signed nothing")),
                        }
                        ens!(t::AsPrimitive::<$t>::as_(uu(a)) == v, concat!("AsPrimitive ", stringify!($f), " unsigned"));
                        ens!(t::AsPrimitive::<$t>::as_(ii(a)) == v, concat!("AsPrimitive ", stringify!($f), " signed"));
                    }};
                }
                to!(to_u8, u8);
                to!(to_u16, u16);
                to!(to_u32, u32);
                to!(to_u64, u64);
                to!(to_u128, u128);
                to!(to_usize, usize);
                to!(to_i8, i8);
                to!(to_i16, i16);
                to!(to_i32, i32);
                to!(to_i64, i64);
                to!(to_i128, i128);
                to!(to_isize, isize);
            }

            #[cfg(kani)]
            static mut PARSED: Option<(*const u8, usize, u32, W)> = None;

            #[cfg(kani)]
            pub fn k_uparse(text: &str, radix: u32) -> Result<U, i256::ParseIntError> {
                let w: W = Src::new().big();
                unsafe { PARSED = Some((text.as_ptr(), text.len(), radix, w)) };
                Ok(uu(w))
            }

            #[cfg(kani)]
            pub fn k_iparse(text: &str, radix: u32) -> Result<I, i256::ParseIntError> {
                let w: W = Src::new().big();
                unsafe { PARSED = Some((text.as_ptr(), text.len(), radix, w)) };
                Ok(ii(w))
            }

            pub fn parse(s: &mut Src) {
                let radix = s.below(35) + 2;
                let n = s.below(8) as usize;
                let text = &"-1a+z09"[..n];
                #[cfg(kani)]
                unsafe {
                    // The callee may be called with these arguments only, and its result is passed on.
                    let r = <U as t::Num>::from_str_radix(text, radix).map(uw);
                    match (r, PARSED) {
                        (Ok(v), Some((p, l, r, w))) =>
                            ens!(p == text.as_ptr() && l == n && r == radix && eq(v, w), "from_str_radix unsigned"),
                        _ => ens!(false, "from_str_radix unsigned"),
                    }
                    PARSED = None;
                    let r = <I as t::Num>::from_str_radix(text, radix).map(iw);
                    match (r, PARSED) {
                        (Ok(v), Some((p, l, r, w))) =>
                            ens!(p == text.as_ptr() && l == n && r == radix && eq(v, w), "from_str_radix signed"),
                        _ => ens!(false, "from_str_radix signed"),
                    }
                }
                #[cfg(not(kani))]
                {
                    macro_rules! same {
                        ($t:ty, $name:literal) => {
                            match (<$t as t::Num>::from_str_radix(text, radix), <$t>::from_str_radix(text, radix)) {
                                (Ok(x), Ok(y)) => ens!(x == y, $name),
                                (Err(x), Err(y)) => ens!(x.kind() == y.kind(), $name),
                                _ => ens!(false, $name),
                            }
                        };
                    }
                    same!(U, "from_str_radix unsigned");
                    same!(I, "from_str_radix signed");
                }
            }

            harness!(
                identities bytes add_sub bits signs from_primitive to_primitive;
                stubs [
                    (::i256::$U::wrapping_shl, super::k_uwshl) (::i256::$U::wrapping_shr, super::k_uwshr)
                    (::i256::$I::wrapping_shl, super::k_iwshl) (::i256::$I::wrapping_shr, super::k_iwshr)
                    (::i256::$U::checked_shl, super::k_ucshl) (::i256::$U::checked_shr, super::k_ucshr)
                    (::i256::$I::checked_shl, super::k_icshl) (::i256::$I::checked_shr, super::k_icshr)
                    (::i256::$U::rotate_left, super::k_url) (::i256::$U::rotate_right, super::k_urr)
                    (::i256::$I::rotate_left, super::k_irl) (::i256::$I::rotate_right, super::k_irr)
                ]
                shifts prim_shifts;
                stubs [
                    (crate::callee::kernel::wrapping, super::k_wrapping) (crate::callee::kernel::overflowing, super::k_overflowing)
                ]
                mul_unsigned mul_signed mul_add_unsigned mul_add_signed;
                stubs [
                    (::i256::math::div::full, super::k_full) (::i256::math::div::wide, super::k_wide)
                    (::i256::math::div::limb, super::k_limb) (::i256::math::div::from_u128, super::k_u128)
                ]
                div_unsigned div_signed div_euclid_unsigned div_euclid_signed rem_euclid_unsigned rem_euclid_signed;
                stubs [
                    (::i256::$U::overflowing_pow, super::k_upow) (::i256::$I::overflowing_pow, super::k_ipow)
                    (::i256::$U::wrapping_pow, super::k_uwpow) (::i256::$I::wrapping_pow, super::k_iwpow)
                ]
                powers;
                stubs [
                    (::i256::$U::from_str_radix, super::k_uparse) (::i256::$I::from_str_radix, super::k_iparse)
                ]
                parse
            );
        }
    };
}

widths!(def);
