//! Printing yields the canonical numeral of the value.
//!
//! `to_str_radix` itself is proved with Verus (proofs/write.ann), with the round trip through the contract
//! of parsing. Here are the contracts of what it calls, and of the formatting traits on top of it.

use core::fmt;

/// Looks at one byte of what is written, any.
#[cfg(kani)]
pub struct Sink {
    pub at: usize,
    pub len: usize,
    pub byte: u8,
}

#[cfg(kani)]
impl fmt::Write for Sink {
    fn write_str(&mut self, text: &str) -> fmt::Result {
        let b = text.as_bytes();
        if self.at >= self.len && self.at - self.len < b.len() {
            self.byte = b[self.at - self.len];
        }
        self.len += b.len();
        Ok(())
    }
}

/// The index of the text that is looked at.
#[cfg(kani)]
pub static mut AT: usize = 0;

/// Every byte of what is converted is a digit (the one looked at stands for all).
#[cfg(kani)]
pub fn k_utf8(b: &[u8]) -> Result<&str, core::str::Utf8Error> {
    unsafe {
        if AT < b.len() {
            assert!(b[AT] < 128, "ensures: a digit");
        }
        Ok(core::str::from_utf8_unchecked(b))
    }
}

macro_rules! def {
    ($m:ident, $U:ident, $I:ident, $K:literal) => {
        pub mod $m {
            use crate::spec::*;
            use crate::src::Src;
            #[cfg(kani)]
            use core::fmt::Write;

            width!($U, $I, $K);
            kernels!();
            quotients!();
            products!();
            callees!();
            callees_div!();

            const BYTES: usize = BITS as usize;

            #[cfg(kani)]
            static mut TEXT: ([u8; BYTES], usize) = ([0; BYTES], 0);
            #[cfg(kani)]
            static mut ARGS: Option<(W, u32)> = None;

            #[cfg(kani)]
            pub fn k_text(x: U, buffer: &mut [u8], radix: u32) -> &[u8] {
                assert!(2 <= radix && radix <= 36 && buffer.len() >= BYTES, "precondition of to_str_radix");
                unsafe {
                    let (mut text, mut n): ([u8; BYTES], usize) = TEXT;
                    match ARGS {
                        Some((y, r)) if eq(uw(x), y) && r == radix => {},
                        _ => {
                            (text, n) = (kani::any(), kani::any());
                            kani::assume(1 <= n && n <= BYTES && super::AT < n);
                            let c = text[BYTES - n + super::AT];
                            kani::assume((c >= b'0' && c <= b'9') || (c >= b'A' && c <= b'F' && radix == 16));
                            TEXT = (text, n);
                            ARGS = Some((uw(x), radix));
                        },
                    }
                    let end = buffer.len();
                    buffer[end - BYTES..].copy_from_slice(&text);
                    &buffer[end - n..]
                }
            }

            #[cfg(kani)]
            fn lower(c: u8) -> u8 {
                if c >= b'A' && c <= b'F' { c + 32 } else { c }
            }

            macro_rules! shown {
                ($name:ident, $text:literal, $radix:literal, $prefix:literal, $magnitude:expr, $case:ident) => {
                    pub fn $name(s: &mut Src) {
                        let a: W = s.big();
                        let signed = s.bool();
                        let at = s.below(BITS) as usize;
                        let minus = signed && $magnitude && is_neg(a);
                        let m = if minus { neg(a) } else { a };
                        #[cfg(kani)]
                        unsafe {
                            super::AT = at;
                            let skip = minus as usize + $prefix.len();
                            let front = s.bool();
                            let p = if front { s.below(skip as u32 + 1) as usize } else { skip + at };
                            let mut sink = super::Sink { at: p, len: 0, byte: 0 };
                            let ok = if signed { write!(sink, $text, ii(a)) } else { write!(sink, $text, uu(a)) };
                            ens!(ok.is_ok(), concat!($text, " succeeds"));
                            match ARGS {
                                Some((x, r)) => ens!(eq(x, m) && r == $radix, concat!($text, " value and radix")),
                                None => ens!(false, concat!($text, " text")),
                            }
                            let (text, n) = TEXT;
                            ens!(sink.len == skip + n, concat!($text, " length"));
                            let want = if p < skip {
                                if minus && p == 0 { b'-' } else { $prefix.as_bytes()[p - minus as usize] }
                            } else {
                                $case(text[BYTES - n + p - skip])
                            };
                            if p >= skip + n || (front && p == skip) {
                                return;
                            }
                            ens!(sink.byte == want, concat!($text, " text"));
                        }
                        #[cfg(not(kani))]
                        {
                            let _ = at;
                            let got = if signed { format!($text, ii(a)) } else { format!($text, uu(a)) };
                            let mut want = String::from(if minus { "-" } else { "" });
                            want.push_str($prefix);
                            want.push_str(&$case(&text(m, $radix)));
                            ens!(got == want, $text);
                        }
                    }
                };
            }

            #[cfg(kani)]
            fn upper(c: u8) -> u8 {
                c
            }

            #[cfg(not(kani))]
            fn upper(t: &str) -> String {
                t.to_string()
            }

            #[cfg(not(kani))]
            fn lower(t: &str) -> String {
                t.to_lowercase()
            }

            #[cfg(not(kani))]
            fn text(mut v: W, radix: u32) -> String {
                let mut t = Vec::new();
                loop {
                    let (q, r) = crate::callee::quotient(v, small(radix as u64));
                    t.push(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[r[0] as usize]);
                    v = q;
                    if is_zero(v) {
                        break;
                    }
                }
                t.reverse();
                String::from_utf8(t).unwrap()
            }

            shown!(display, "{}", 10, "", true, upper);
            shown!(debug, "{:?}", 10, "", true, upper);
            shown!(binary, "{:b}", 2, "", false, upper);
            shown!(octal, "{:o}", 8, "", false, upper);
            shown!(lower_hex, "{:x}", 16, "", false, lower);
            shown!(upper_hex, "{:X}", 16, "", false, upper);
            shown!(binary_prefix, "{:#b}", 2, "0b", false, upper);
            shown!(octal_prefix, "{:#o}", 8, "0o", false, upper);
            shown!(lower_hex_prefix, "{:#x}", 16, "0x", false, lower);
            shown!(upper_hex_prefix, "{:#X}", 16, "0x", false, upper);

            #[cfg(not(kani))]
            fn value(s: &mut Src, radix: u32) -> W {
                let mut v: W = s.big();
                match s.below(4) {
                    0 => v = shr(v, s.below(BITS)),
                    1 => {
                        // Next to a multiple of a power of the radix.
                        let mut p: W = small(1);
                        let n = s.below(BITS);
                        let mut i = 0;
                        while i < n {
                            let next = uprod(p, small(radix as u64));
                            if !pfits_u(next) {
                                break;
                            }
                            p = low(next);
                            i += 1;
                        }
                        let next = uprod(p, small(1 + s.below(radix) as u64));
                        v = sub(add(low(next), small(s.below(3) as u64)), small(1));
                    },
                    _ => {},
                }
                if s.bool() { neg(v) } else { v }
            }

            #[cfg(not(kani))]
            pub fn write(s: &mut Src) {
                let radix = s.below(35) + 2;
                let a = value(s, radix);
                let mut buffer = vec![s.u8(); BYTES + 1 + s.below(3) as usize];
                ens!(uu(a).to_str_radix(&mut buffer, radix) == text(a, radix).as_bytes(), "to_str_radix unsigned");
                let want = if is_neg(a) { format!("-{}", text(neg(a), radix)) } else { text(a, radix) };
                ens!(ii(a).to_str_radix(&mut buffer, radix) == want.as_bytes(), "to_str_radix signed");
                let mut buffer = vec![s.u8(); BYTES];
                ens!(uu(a).to_str_radix(&mut buffer, radix) == text(a, radix).as_bytes(), "to_str_radix unsigned, shortest buffer");
            }

            #[cfg(not(kani))]
            pub fn round_trip(s: &mut Src) {
                let radix = s.below(35) + 2;
                let a = value(s, radix);
                let mut buffer = vec![0; BYTES + 1];
                let t = core::str::from_utf8(uu(a).to_str_radix(&mut buffer, radix)).unwrap();
                ens!(U::from_str_radix(t, radix).map(uw).ok() == Some(a), "round trip unsigned");
                let t = core::str::from_utf8(ii(a).to_str_radix(&mut buffer, radix)).unwrap();
                ens!(I::from_str_radix(t, radix).map(iw).ok() == Some(a), "round trip signed");
                ens!(uu(a).to_string().parse::<U>().map(uw).ok() == Some(a), "decimal round trip unsigned");
                ens!(ii(a).to_string().parse::<I>().map(iw).ok() == Some(a), "decimal round trip signed");
                ens!(U::from_str_radix(&format!("{:x}", ii(a)), 16).map(uw).ok() == Some(a), "hexadecimal round trip signed");
            }

            /// Mantissa and exponent stand for the value; how many zeros are written is left open.
            #[cfg(not(kani))]
            fn scientific(t: &str, e: char, minus: bool, m: W) -> bool {
                let Some(t) = (if minus { t.strip_prefix('-') } else { Some(t) }) else { return false };
                let Some((mantissa, exponent)) = t.split_once(e) else { return false };
                let (whole, fraction) = mantissa.split_once('.').unwrap_or((mantissa, ""));
                let Ok(exponent) = exponent.parse::<usize>() else { return false };
                let mut digits = format!("{whole}{fraction}");
                if whole.len() != 1 || (whole == "0" && !is_zero(m)) || !digits.bytes().all(|c| c.is_ascii_digit()) {
                    return false;
                }
                while digits.len() < exponent + 1 {
                    digits.push('0');
                }
                digits[exponent + 1..].bytes().all(|c| c == b'0') && digits[..exponent + 1] == text(m, 10)
            }

            #[cfg(not(kani))]
            pub fn exponent(s: &mut Src) {
                let a = value(s, 10);
                ens!(scientific(&format!("{:e}", uu(a)), 'e', false, a), "{:e} unsigned");
                ens!(scientific(&format!("{:E}", uu(a)), 'E', false, a), "{:E} unsigned");
                let m = if is_neg(a) { neg(a) } else { a };
                ens!(scientific(&format!("{:e}", ii(a)), 'e', is_neg(a), m), "{:e} signed");
                ens!(scientific(&format!("{:E}", ii(a)), 'E', is_neg(a), m), "{:E} signed");
            }

            harness!(
                c_words c_constants c_compare c_convert;
                stubs [
                    (::i256::math::div::full, super::k_full) (::i256::math::div::limb, super::k_limb)
                ]
                c_limb_div;
                stubs [
                    (::i256::$U::to_str_radix, super::k_text) (::core::str::from_utf8, crate::c14::k_utf8)
                ]
                display debug binary octal lower_hex upper_hex binary_prefix octal_prefix lower_hex_prefix upper_hex_prefix;
                native write round_trip exponent
            );
        }
    };
}

widths!(def);
