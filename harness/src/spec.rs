//! The mathematical side of the contracts: integers as little-endian arrays of 64-bit words in
//! two's complement, independent of the crate under verification.

/// Sum modulo 2^(64 K).
pub fn add<const K: usize>(a: [u64; K], b: [u64; K]) -> [u64; K] {
    let mut r = [0u64; K];
    let mut c = false;
    let mut i = 0;
    while i < K {
        let (t, c0) = a[i].overflowing_add(b[i]);
        let (t, c1) = t.overflowing_add(c as u64);
        r[i] = t;
        c = c0 | c1;
        i += 1;
    }
    r
}

pub fn not<const K: usize>(a: [u64; K]) -> [u64; K] {
    let mut r = [0u64; K];
    let mut i = 0;
    while i < K {
        r[i] = !a[i];
        i += 1;
    }
    r
}

/// A small value.
pub fn small<const K: usize>(v: u64) -> [u64; K] {
    let mut r = [0u64; K];
    r[0] = v;
    r
}

/// Negation modulo 2^(64 K).
pub fn neg<const K: usize>(a: [u64; K]) -> [u64; K] {
    add(not(a), small(1))
}

/// Difference modulo 2^(64 K).
pub fn sub<const K: usize>(a: [u64; K], b: [u64; K]) -> [u64; K] {
    let mut r = [0u64; K];
    let mut c = false;
    let mut i = 0;
    while i < K {
        let (t, c0) = a[i].overflowing_sub(b[i]);
        let (t, c1) = t.overflowing_sub(c as u64);
        r[i] = t;
        c = c0 | c1;
        i += 1;
    }
    r
}

pub fn is_neg<const K: usize>(a: [u64; K]) -> bool {
    (a[K - 1] >> 63) == 1
}

pub fn is_zero<const K: usize>(a: [u64; K]) -> bool {
    let mut z = true;
    let mut i = 0;
    while i < K {
        z &= a[i] == 0;
        i += 1;
    }
    z
}

pub fn eq<const K: usize>(a: [u64; K], b: [u64; K]) -> bool {
    let mut z = true;
    let mut i = 0;
    while i < K {
        z &= a[i] == b[i];
        i += 1;
    }
    z
}

/// Unsigned comparison.
pub fn ult<const K: usize>(a: [u64; K], b: [u64; K]) -> bool {
    let mut lt = false;
    let mut i = 0;
    while i < K {
        lt = a[i] < b[i] || (a[i] == b[i] && lt);
        i += 1;
    }
    lt
}

/// Signed comparison.
pub fn slt<const K: usize>(a: [u64; K], b: [u64; K]) -> bool {
    let (x, y) = (is_neg(a), is_neg(b));
    if x != y {
        x
    } else {
        ult(a, b)
    }
}

/// Zero extension (or truncation) to another number of words.
pub fn zext<const K: usize, const L: usize>(a: [u64; K]) -> [u64; L] {
    let mut r = [0u64; L];
    let mut i = 0;
    while i < K && i < L {
        r[i] = a[i];
        i += 1;
    }
    r
}

/// Sign extension (or truncation) to another number of words.
pub fn sext<const K: usize, const L: usize>(a: [u64; K]) -> [u64; L] {
    let mut r = [if is_neg(a) { u64::MAX } else { 0 }; L];
    let mut i = 0;
    while i < K && i < L {
        r[i] = a[i];
        i += 1;
    }
    r
}

pub fn bit<const K: usize>(a: [u64; K], i: u32) -> bool {
    (a[(i / 64) as usize] >> (i % 64)) & 1 == 1
}

/// The smallest signed value.
pub fn smin<const K: usize>() -> [u64; K] {
    let mut r = [0u64; K];
    r[K - 1] = 1 << 63;
    r
}

/// The largest signed value.
pub fn smax<const K: usize>() -> [u64; K] {
    not(smin())
}

/// The magnitude of a signed value, as an unsigned value.
pub fn abs<const K: usize>(a: [u64; K]) -> [u64; K] {
    if is_neg(a) {
        neg(a)
    } else {
        a
    }
}

pub fn from_u128<const K: usize>(v: u128) -> [u64; K] {
    let mut r = [0u64; K];
    r[0] = v as u64;
    if K > 1 {
        r[1] = (v >> 64) as u64;
    }
    r
}

pub fn from_i128<const K: usize>(v: i128) -> [u64; K] {
    let mut r = [if v < 0 { u64::MAX } else { 0 }; K];
    r[0] = v as u64;
    if K > 1 {
        r[1] = (v as u128 >> 64) as u64;
    }
    r
}

/// Left shift modulo 2^(64 K); zero from 64 K on.
pub fn shl<const K: usize>(a: [u64; K], n: u32) -> [u64; K] {
    let (w, b) = ((n / 64) as usize, n % 64);
    let mut r = [0u64; K];
    // One case for every number of whole words, so that all indexes are constants.
    let mut j = 0;
    while j < K {
        if j == w {
            let mut i = j;
            while i < K {
                r[i] = a[i - j] << b;
                if b != 0 && i > j {
                    r[i] |= a[i - j - 1] >> (64 - b);
                }
                i += 1;
            }
        }
        j += 1;
    }
    r
}

/// Right shift by `n < 64 K`, shifting in the given word.
pub fn shr_with<const K: usize>(a: [u64; K], n: u32, fill: u64) -> [u64; K] {
    let (w, b) = ((n / 64) as usize, n % 64);
    let mut r = [fill; K];
    let mut j = 0;
    while j < K {
        if j == w {
            let mut i = 0;
            while i < K - j {
                let hi = if i + j + 1 < K { a[i + j + 1] } else { fill };
                r[i] = a[i + j] >> b;
                if b != 0 {
                    r[i] |= hi << (64 - b);
                }
                i += 1;
            }
        }
        j += 1;
    }
    r
}

/// Floor of the division of an unsigned value by 2^n.
pub fn shr<const K: usize>(a: [u64; K], n: u32) -> [u64; K] {
    shr_with(a, n, 0)
}

/// Floor of the division of a signed value by 2^n.
pub fn sar<const K: usize>(a: [u64; K], n: u32) -> [u64; K] {
    shr_with(a, n, if is_neg(a) { u64::MAX } else { 0 })
}

pub fn and<const K: usize>(a: [u64; K], b: [u64; K]) -> [u64; K] {
    let mut r = [0u64; K];
    let mut i = 0;
    while i < K {
        r[i] = a[i] & b[i];
        i += 1;
    }
    r
}

pub fn or<const K: usize>(a: [u64; K], b: [u64; K]) -> [u64; K] {
    not(and(not(a), not(b)))
}

pub fn xor<const K: usize>(a: [u64; K], b: [u64; K]) -> [u64; K] {
    or(and(a, not(b)), and(not(a), b))
}

pub fn ones<const K: usize>(a: [u64; K]) -> u32 {
    let mut n = 0;
    let mut i = 0;
    while i < K {
        n += a[i].count_ones();
        i += 1;
    }
    n
}

pub fn leading_zeros<const K: usize>(a: [u64; K]) -> u32 {
    let mut n = 64 * K as u32;
    let mut i = 0;
    while i < K {
        if a[i] != 0 {
            n = 64 * (K - 1 - i) as u32 + a[i].leading_zeros();
        }
        i += 1;
    }
    n
}

pub fn trailing_zeros<const K: usize>(a: [u64; K]) -> u32 {
    let mut n = 64 * K as u32;
    let mut i = K;
    while i > 0 {
        i -= 1;
        if a[i] != 0 {
            n = 64 * i as u32 + a[i].trailing_zeros();
        }
    }
    n
}

/// The byte of weight 2^(8 i).
pub fn byte<const K: usize>(a: [u64; K], i: usize) -> u8 {
    (a[i / 8] >> (8 * (i % 8))) as u8
}
