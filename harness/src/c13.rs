//! Parsing accepts exactly the numerals and returns their value.
//!
//! `from_str_radix` and `from_str` themselves are proved with Verus for strings of any length
//! (proofs/parse.ann). Here are the contracts of what they call, and the same contract to be run.

use i256::{IntErrorKind, ParseIntError};

/// The value of a digit, whatever the radix.
#[cfg(not(kani))]
pub fn digit(c: u8) -> u32 {
    match c {
        b'0'..=b'9' => (c - b'0') as u32,
        b'A'..=b'Z' => (c - b'A') as u32 + 10,
        b'a'..=b'z' => (c - b'a') as u32 + 10,
        _ => 255,
    }
}

/// The same kinds for errors of the standard library.
pub fn errors(s: &mut crate::src::Src) {
    let (e, k) = match s.below(4) {
        0 => ("".parse::<u8>().unwrap_err(), IntErrorKind::Empty),
        1 => ("x".parse::<u8>().unwrap_err(), IntErrorKind::InvalidDigit),
        2 => ("300".parse::<u8>().unwrap_err(), IntErrorKind::PosOverflow),
        _ => ("-300".parse::<i8>().unwrap_err(), IntErrorKind::NegOverflow),
    };
    ens!(ParseIntError::from(e).kind() == &k, "kind of the error");
}

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;
            use i256::{IntErrorKind, ParseIntError};

            width!($U, $I, $K);
            kernels!();
            products!();
            callees!();
            callees_mul!();

            pub use super::errors;

            #[cfg(not(kani))]
            fn outcome(v: Result<W, ParseIntError>, text: &str, radix: u32, signed: bool) -> bool {
                let b = text.as_bytes();
                let minus = signed && b.first() == Some(&b'-');
                let first = (minus || b.first() == Some(&b'+')) as usize;
                let mut good = b.len() > first;
                let (mut value, mut fits): (W, bool) = ([0; K], true);
                for c in &b[first..] {
                    let d = super::digit(*c);
                    if d >= radix {
                        good = false;
                        break;
                    }
                    let mut p = uprod(value, small(radix as u64));
                    p = add(p, small(d as u64));
                    fits &= pfits_u(p);
                    value = low(p);
                    if signed {
                        fits &= if minus { !ult(smin(), value) } else { !is_neg(value) };
                    }
                }
                let value = if minus { neg(value) } else { value };
                match v {
                    Ok(r) => good && fits && eq(r, value),
                    Err(e) => match e.kind() {
                        IntErrorKind::Empty => b.is_empty(),
                        IntErrorKind::InvalidDigit => !b.is_empty() && !good,
                        IntErrorKind::PosOverflow => !minus && !fits,
                        IntErrorKind::NegOverflow => if minus { !fits } else { b.first() == Some(&b'-') },
                        _ => false,
                    },
                }
            }

            /// Numerals of values of all sizes, many of them close to the bounds, some with a slip.
            #[cfg(not(kani))]
            fn numeral(s: &mut Src, radix: u32) -> String {
                let mut v: D = zext::<K, KD>(s.big());
                match s.below(8) {
                    0 => v = shl(small(1), BITS),
                    1 => v = shl(small(1), BITS - 1),
                    2 => {
                        let more: D = s.big();
                        v = shr(more, s.below(2 * BITS));
                    },
                    3 => {
                        // A power of the radix.
                        v = small(1);
                        let n = s.below(BITS / 2);
                        let mut i = 0;
                        while i < n && is_zero(shr(v, 2 * BITS - 8)) {
                            let mut t: D = [0; KD];
                            let mut j = 0;
                            while j < radix {
                                t = add(t, v);
                                j += 1;
                            }
                            v = t;
                            i += 1;
                        }
                    },
                    4 => v = shr(v, s.below(BITS)),
                    _ => {},
                }
                v = sub(add(v, small(s.below(5) as u64)), small(2));
                let mut text = Vec::new();
                while !is_zero(v) {
                    let (q, r) = crate::callee::quotient(v, small(radix as u64));
                    let c = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[r[0] as usize];
                    text.push(if s.bool() { c.to_ascii_lowercase() } else { c });
                    v = q;
                }
                let zeros = if s.below(4) == 0 { s.below(40) } else { 0 };
                for _ in 0..zeros {
                    text.push(b'0');
                }
                match s.below(6) {
                    0 | 1 => text.push(b'-'),
                    2 => text.push(b'+'),
                    _ => {},
                }
                text.reverse();
                if s.below(8) == 0 && !text.is_empty() {
                    let i = s.below(text.len() as u32) as usize;
                    text[i] = s.u8() & 0x7f;
                }
                if s.below(16) == 0 {
                    text.truncate(s.below(3) as usize);
                }
                String::from_utf8(text).unwrap()
            }

            #[cfg(not(kani))]
            pub fn parse(s: &mut Src) {
                let radix = match s.below(4) {
                    0 => 10,
                    1 => 16,
                    _ => s.below(35) + 2,
                };
                let text = numeral(s, radix);
                ens!(outcome(U::from_str_radix(&text, radix).map(uw), &text, radix, false), "from_str_radix unsigned");
                ens!(outcome(I::from_str_radix(&text, radix).map(iw), &text, radix, true), "from_str_radix signed");
            }

            #[cfg(not(kani))]
            pub fn decimal(s: &mut Src) {
                let text = numeral(s, 10);
                ens!(outcome(text.parse::<U>().map(uw), &text, 10, false), "from_str unsigned");
                ens!(outcome(text.parse::<I>().map(iw), &text, 10, true), "from_str signed");
            }

            /// Short strings, and lengths at which the algorithm changes.
            #[cfg(not(kani))]
            pub fn short(s: &mut Src) {
                let n = match s.below(3) {
                    0 => s.below(4),
                    1 => 36 + s.below(6),
                    _ => s.below(2 * BITS / 4),
                };
                let digits = match s.below(3) {
                    0 => b'9',
                    1 => b'1',
                    _ => 0,
                };
                let mut text = String::new();
                for i in 0..n {
                    let c = if digits == 0 || (i == 0 && s.bool()) {
                        let k = s.below(13) as usize;
                        b"0123456789+-z"[k]
                    } else {
                        digits
                    };
                    text.push(c as char);
                }
                ens!(outcome(text.parse::<U>().map(uw), &text, 10, false), "from_str unsigned");
                ens!(outcome(text.parse::<I>().map(iw), &text, 10, true), "from_str signed");
                ens!(outcome(U::from_str_radix(&text, 36).map(uw), &text, 36, false), "from_str_radix unsigned");
                ens!(outcome(I::from_str_radix(&text, 36).map(iw), &text, 36, true), "from_str_radix signed");
            }

            harness!(
                errors c_constants c_limb_add;
                stubs [
                    (crate::callee::kernel::wrapping, super::k_wrapping) (crate::callee::kernel::overflowing, super::k_overflowing)
                ]
                c_limb_mul_u c_limb_mul_i;
                native parse decimal short
            );
        }
    };
}

widths!(def);
