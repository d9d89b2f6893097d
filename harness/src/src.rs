//! Sources of inputs, and the macros contracts are written with.

#[cfg(kani)]
pub struct Src {}

#[cfg(kani)]
impl Src {
    pub fn new() -> Self {
        Src {}
    }

    pub fn u8(&mut self) -> u8 {
        kani::any()
    }

    pub fn u16(&mut self) -> u16 {
        kani::any()
    }

    pub fn u32(&mut self) -> u32 {
        kani::any()
    }

    pub fn u64(&mut self) -> u64 {
        kani::any()
    }

    pub fn u128(&mut self) -> u128 {
        kani::any()
    }

    pub fn bool(&mut self) -> bool {
        kani::any()
    }

    /// A shift amount or bit index, natively often close to `bits`.
    pub fn amount(&mut self, _bits: u32) -> u32 {
        kani::any()
    }

    pub fn amount8(&mut self, _bits: u32) -> u8 {
        kani::any()
    }

    pub fn amount64(&mut self, _bits: u32) -> u64 {
        kani::any()
    }

    pub fn amount128(&mut self, _bits: u32) -> u128 {
        kani::any()
    }

    pub fn below(&mut self, n: u32) -> u32 {
        let v: u32 = kani::any();
        kani::assume(v < n);
        v
    }

    pub fn big<const K: usize>(&mut self) -> [u64; K] {
        let mut r = [0u64; K];
        let mut i = 0;
        while i < K {
            r[i] = kani::any();
            i += 1;
        }
        r
    }
}

#[cfg(not(kani))]
pub struct Skip;

#[cfg(not(kani))]
pub struct Src {
    state: u64,
    /// The values to use instead of drawn ones.
    given: Option<Vec<u128>>,
    /// The values drawn so far.
    pub log: Vec<u128>,
    /// The same for others to see while the contract runs.
    pub shown: Option<std::sync::Arc<std::sync::Mutex<Vec<u128>>>>,
    /// The large values drawn so far.
    bigs: Vec<Vec<u64>>,
}

#[cfg(not(kani))]
impl Src {
    pub fn new(seed: u64) -> Self {
        Src {
            state: seed ^ 0x9e37_79b9_7f4a_7c15,
            given: None,
            log: Vec::new(),
            shown: None,
            bigs: Vec::new(),
        }
    }

    pub fn given(values: Vec<u128>) -> Self {
        let mut s = Src::new(0);
        s.given = Some(values);
        s
    }

    fn rng(&mut self) -> u64 {
        // splitmix64
        self.state = self.state.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    fn pick(&mut self, n: u64) -> u64 {
        self.rng() % n
    }

    /// Take the next given value, or log the drawn one.
    fn put(&mut self, drawn: u128) -> u128 {
        let v = match &self.given {
            Some(g) => g.get(self.log.len()).copied().unwrap_or(0),
            None => drawn,
        };
        self.log.push(v);
        if let Some(s) = &self.shown {
            s.lock().unwrap().push(v);
        }
        v
    }

    fn edge(&mut self, bits: u32) -> u128 {
        let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let r = ((self.rng() as u128) << 64) | self.rng() as u128;
        let v = match self.pick(8) {
            0 | 1 => r,
            2 => self.pick(4) as u128,
            3 => max - self.pick(4) as u128,
            4 => (1u128 << self.pick(bits as u64)).wrapping_sub(self.pick(3) as u128).wrapping_add(1),
            5 => max ^ (1u128 << self.pick(bits as u64)),
            6 => r >> self.pick(128),
            _ => (max >> 1).wrapping_add(self.pick(4) as u128).wrapping_sub(1),
        };
        v & max
    }

    pub fn u8(&mut self) -> u8 {
        let v = self.edge(8);
        self.put(v) as u8
    }

    pub fn u16(&mut self) -> u16 {
        let v = self.edge(16);
        self.put(v) as u16
    }

    pub fn u32(&mut self) -> u32 {
        let v = self.edge(32);
        self.put(v) as u32
    }

    pub fn u64(&mut self) -> u64 {
        let v = self.edge(64);
        self.put(v) as u64
    }

    pub fn u128(&mut self) -> u128 {
        let v = self.edge(128);
        self.put(v)
    }

    pub fn bool(&mut self) -> bool {
        let v = self.pick(2) as u128;
        self.put(v) != 0
    }

    fn near(&mut self, bits: u32) -> u32 {
        match self.pick(8) {
            0 => self.edge(32) as u32,
            1 => bits.wrapping_add(self.pick(5) as u32).wrapping_sub(2),
            2 => (self.pick(40) * 32).wrapping_add(self.pick(3)).wrapping_sub(1) as u32,
            3 => self.pick(3) as u32,
            4 => (self.pick(4) as u32).wrapping_mul(bits).wrapping_add(self.pick(bits as u64) as u32),
            _ => self.pick(bits as u64) as u32,
        }
    }

    pub fn amount(&mut self, bits: u32) -> u32 {
        let v = self.near(bits);
        self.put(v as u128) as u32
    }

    pub fn amount8(&mut self, bits: u32) -> u8 {
        let v = self.near(bits);
        self.put(v as u8 as u128) as u8
    }

    pub fn amount64(&mut self, bits: u32) -> u64 {
        let v = self.near(bits);
        self.put(v as u128) as u64
    }

    pub fn amount128(&mut self, bits: u32) -> u128 {
        let v = self.near(bits);
        self.put(v as u128)
    }

    pub fn below(&mut self, n: u32) -> u32 {
        let v = self.pick(n as u64) as u128;
        let v = self.put(v) as u32;
        if v >= n {
            std::panic::panic_any(Skip);
        }
        v
    }

    pub fn big<const K: usize>(&mut self) -> [u64; K] {
        use crate::spec::*;
        let mut r = [0u64; K];
        let known: Vec<[u64; K]> = self
            .bigs
            .iter()
            .filter(|x| x.len() == K)
            .map(|x| {
                let mut y = [0u64; K];
                y.copy_from_slice(x);
                y
            })
            .collect();
        let mut kind = self.pick(15);
        if known.is_empty() && kind >= 11 {
            kind -= 11;
        }
        match kind {
            // uniform
            0 => {
                for w in r.iter_mut() {
                    *w = self.rng();
                }
            },
            // independent words from a set of extremes
            1 | 2 | 3 => {
                for w in r.iter_mut() {
                    *w = self.edge(64) as u64;
                }
            },
            // extreme 32-bit halves
            4 => {
                for w in r.iter_mut() {
                    *w = (self.edge(32) as u64) | ((self.edge(32) as u64) << 32);
                }
            },
            // all words from { 0, MAX }
            5 => {
                for w in r.iter_mut() {
                    *w = if self.pick(2) == 0 { 0 } else { u64::MAX };
                }
                let d = self.pick(3);
                r = sub(add(r, small(d)), small(1));
            },
            // a single bit, more or less
            6 | 7 => {
                let b = self.pick(64 * K as u64) as usize;
                r[b / 64] = 1 << (b % 64);
                let d = self.pick(3);
                r = sub(add(r, small(d)), small(1));
                if self.pick(2) == 0 {
                    r = neg(r);
                }
            },
            // few significant words or bits, any sign
            8 | 9 => {
                let n = self.pick(64 * K as u64 + 1) as usize;
                for i in 0..n {
                    if self.pick(2) == 0 {
                        r[i / 64] |= 1 << (i % 64);
                    }
                }
                if self.pick(3) == 0 {
                    for i in 0..K - 1 {
                        if self.pick(2) == 0 {
                            r[i] = 0;
                        }
                    }
                }
                if self.pick(4) == 0 {
                    r = neg(r);
                }
            },
            // extremes of the type
            10 => {
                let d = self.pick(4);
                r = match self.pick(4) {
                    0 => small(d),
                    1 => neg(small(d)),
                    2 => add(smin(), small(d)),
                    _ => sub(smax(), small(d)),
                };
            },
            // the leading bits of a value drawn before, as a divisor or a factor of about that size
            11 => {
                let n = self.pick(known.len() as u64) as usize;
                let b = self.pick(64 * K as u64) as u32;
                let b = if self.pick(2) == 0 { b } else { b / 32 * 32 };
                r = shr(known[n], b);
                match self.pick(4) {
                    0 => {
                        let d = self.pick(3);
                        r = sub(add(r, small(d)), small(1));
                    },
                    1 => {
                        let i = self.pick(K as u64) as usize;
                        r[i] = self.edge(64) as u64;
                    },
                    2 => r = neg(r),
                    _ => {},
                }
            },
            // close to a value drawn before, its negation or complement
            _ => {
                let n = self.pick(known.len() as u64) as usize;
                r = known[n];
                match self.pick(6) {
                    0 => {},
                    1 => r = neg(r),
                    2 => r = not(r),
                    3 => {
                        let d = self.pick(3);
                        r = sub(add(r, small(d)), small(1));
                    },
                    4 => {
                        let b = self.pick(64 * K as u64) as usize;
                        r[b / 64] ^= 1 << (b % 64);
                    },
                    _ => {
                        let i = self.pick(K as u64) as usize;
                        r[i] = self.edge(64) as u64;
                    },
                }
            },
        }
        for w in r.iter_mut() {
            *w = self.put(*w as u128) as u64;
        }
        self.bigs.push(r.to_vec());
        r
    }
}

/// State the precondition.
#[macro_export]
macro_rules! req {
    ($e:expr) => {{
        #[cfg(kani)]
        kani::assume($e);
        #[cfg(not(kani))]
        if !$e {
            std::panic::panic_any($crate::src::Skip);
        }
    }};
}

/// State a postcondition.
#[macro_export]
macro_rules! ens {
    ($e:expr, $name:expr) => {{
        #[cfg(kani)]
        kani::assert($e, concat!("ensures ", $name));
        #[cfg(not(kani))]
        if !$e {
            panic!("{}", concat!("ensures ", $name));
        }
    }};
}

/// State something for every index below `n`: for an arbitrary one under Kani, for all natively.
#[macro_export]
macro_rules! for_bit {
    ($s:ident, $n:expr, $i:ident => $body:block) => {{
        let $i = $s.below($n);
        #[cfg(kani)]
        $body
        #[cfg(not(kani))]
        {
            _ = $i;
            let mut $i = 0;
            while $i < $n {
                $body
                $i += 1;
            }
        }
    }};
}

/// State that the expression panics.
#[macro_export]
macro_rules! panics {
    ($e:expr, $name:expr) => {{
        #[cfg(kani)]
        {
            _ = $e;
            // Reaching this is not a panic, so it fails a harness that has to panic.
            unsafe { core::hint::unreachable_unchecked() }
        }
        #[cfg(not(kani))]
        {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                _ = $e;
            }));
            match r {
                Ok(_) => panic!(concat!("panics ", $name)),
                Err(e) => {
                    if e.is::<$crate::src::Skip>() {
                        std::panic::resume_unwind(e);
                    }
                },
            }
        }
    }};
}

/// Make the proof harnesses and the list of contracts of a module.
///
/// The contracts after `stubs [...]` are proved against the contracts of the listed functions
/// instead of their bodies. Those after `native` are proved elsewhere (with Verus) and only run.
#[macro_export]
macro_rules! harness {
    (
        $($name:ident)*
        $(; panics $($pname:ident)*)?
        $(; stubs $stubs:tt $($sname:ident)* $(, panics $($spname:ident)*)?)*
        $(; native $($nname:ident)*)?
    ) => {
        #[cfg(kani)]
        mod k {
            $($crate::harness_one!([] proof $name);)*
            $($($crate::harness_one!([] panics $pname);)*)?
        }

        // The proofs that use contracts of callees.
        #[cfg(kani)]
        mod ks {
            $(
                $crate::harness_all!($stubs proof $($sname)*);
                $($crate::harness_all!($stubs panics $($spname)*);)?
            )*
        }

        pub fn contracts(v: &mut Vec<$crate::Contract>) {
            $(v.push((concat!(module_path!(), "::", stringify!($name)), $name));)*
            $($(v.push((concat!(module_path!(), "::", stringify!($pname)), $pname));)*)?
            $(
                $(v.push((concat!(module_path!(), "::", stringify!($sname)), $sname));)*
                $($(v.push((concat!(module_path!(), "::", stringify!($spname)), $spname));)*)?
            )*
            $(
                #[cfg(not(kani))]
                {
                    $(v.push((concat!(module_path!(), "::", stringify!($nname)), $nname));)*
                }
            )?
        }
    };
}

#[macro_export]
macro_rules! harness_all {
    ($stubs:tt $kind:ident) => {};
    ($stubs:tt $kind:ident $name:ident $($more:ident)*) => {
        $crate::harness_one!($stubs $kind $name);
        $crate::harness_all!($stubs $kind $($more)*);
    };
}

#[macro_export]
macro_rules! harness_one {
    ([$(($($stub:tt)*))*] proof $name:ident) => {
        #[kani::proof]
        $(#[cfg_attr(not(feature = "nostub"), kani::stub($($stub)*))])*
        fn $name() {
            super::$name(&mut $crate::src::Src::new());
            kani::cover!(true, "end reached");
        }
    };
    ([$(($($stub:tt)*))*] panics $name:ident) => {
        #[kani::proof]
        #[kani::should_panic]
        $(#[cfg_attr(not(feature = "nostub"), kani::stub($($stub)*))])*
        fn $name() {
            super::$name(&mut $crate::src::Src::new());
        }
    };
}

/// An arbitrary but fixed function, standing for a callee of which only the contract is known:
/// the result of the first call is arbitrary, and the same arguments give the same result.
#[macro_export]
macro_rules! memo {
    ($name:ident($($p:ident: $t:ty),*) -> $r:ty, same $same:expr, any $any:expr) => {
        #[cfg(kani)]
        pub fn $name($($p: $t),*) -> $r {
            static mut MEMO: Option<(($($t,)*), $r)> = None;
            let same: fn(&($($t,)*), &($($t,)*)) -> bool = $same;
            unsafe {
                match MEMO {
                    Some((args, result)) => if same(&args, &($($p,)*)) { result } else { $any },
                    None => {
                        let result = $any;
                        MEMO = Some((($($p,)*), result));
                        result
                    },
                }
            }
        }
    };
}

/// The conversions between words and the types of one width.
#[macro_export]
macro_rules! width {
    ($U:ident, $I:ident, $K:literal) => {
        pub type U = ::i256::$U;
        pub type I = ::i256::$I;
        pub const K: usize = $K;
        pub const KX: usize = $K + 1;
        pub const BITS: u32 = 64 * $K;
        pub const LIMBS: usize = (BITS / ::i256::ULimb::BITS) as usize;
        pub type W = [u64; K];
        pub type X = [u64; KX];

        pub fn limbs(w: W) -> [::i256::ULimb; LIMBS] {
            let mut r = [0 as ::i256::ULimb; LIMBS];
            let b = ::i256::ULimb::BITS as usize;
            let mut i = 0;
            while i < LIMBS {
                r[i] = (w[i * b / 64] >> (i * b % 64)) as ::i256::ULimb;
                i += 1;
            }
            r
        }

        pub fn words(l: [::i256::ULimb; LIMBS]) -> W {
            let mut r = [0u64; K];
            let b = ::i256::ULimb::BITS as usize;
            let mut i = 0;
            while i < LIMBS {
                r[i * b / 64] |= (l[i] as u64) << (i * b % 64);
                i += 1;
            }
            r
        }

        /// The unsigned value of the words.
        pub fn uu(w: W) -> U {
            U::from_ne_limbs(limbs(w))
        }

        /// The signed value of the words.
        pub fn ii(w: W) -> I {
            I::from_ne_limbs(limbs(w))
        }

        /// The words of an unsigned value.
        pub fn uw(v: U) -> W {
            words(v.to_ne_limbs())
        }

        /// The words of a signed value.
        pub fn iw(v: I) -> W {
            words(v.to_ne_limbs())
        }

        #[cfg(kani)]
        pub fn any_u() -> U {
            uu($crate::src::Src::new().big())
        }

        #[cfg(kani)]
        pub fn any_i() -> I {
            ii($crate::src::Src::new().big())
        }

        /// Whether the exact value is in the range of the unsigned type.
        pub fn fits_u(e: X) -> bool {
            e[K] == 0
        }

        /// Whether the exact value is in the range of the signed type.
        pub fn fits_s(e: X) -> bool {
            e[K] == (if (e[K - 1] >> 63) == 1 { u64::MAX } else { 0 })
        }

        /// The exact value of an unsigned value.
        pub fn xu(w: W) -> X {
            $crate::spec::zext(w)
        }

        /// The exact value of a signed value.
        pub fn xs(w: W) -> X {
            $crate::spec::sext(w)
        }

        /// The value modulo 2^BITS.
        pub fn lo(e: X) -> W {
            $crate::spec::zext(e)
        }

        pub fn is_u(v: U, w: W) -> bool {
            $crate::spec::eq(uw(v), w)
        }

        pub fn is_i(v: I, w: W) -> bool {
            $crate::spec::eq(iw(v), w)
        }

        /// Whether a checked result is right for the exact value.
        pub fn opt_u(v: Option<U>, e: X) -> bool {
            match v {
                Some(v) => fits_u(e) && is_u(v, lo(e)),
                None => !fits_u(e),
            }
        }

        pub fn opt_i(v: Option<I>, e: X) -> bool {
            match v {
                Some(v) => fits_s(e) && is_i(v, lo(e)),
                None => !fits_s(e),
            }
        }

        /// The exact value clamped to the range of the type.
        pub fn sat_u(e: X) -> W {
            if fits_u(e) {
                lo(e)
            } else if $crate::spec::is_neg(e) {
                [0; K]
            } else {
                [u64::MAX; K]
            }
        }

        pub fn sat_s(e: X) -> W {
            if fits_s(e) {
                lo(e)
            } else if $crate::spec::is_neg(e) {
                $crate::spec::smin()
            } else {
                $crate::spec::smax()
            }
        }
    };
}

/// Instantiate the contracts of a property for all selected widths.
#[macro_export]
macro_rules! widths {
    ($def:ident) => {
        $def!(w256, U256, I256, 4);
        #[cfg(feature = "w384")]
        $def!(w384, U384, I384, 6);
        #[cfg(feature = "w512")]
        $def!(w512, U512, I512, 8);
        #[cfg(feature = "w1024")]
        $def!(w1024, U1024, I1024, 16);

        pub fn contracts(v: &mut Vec<$crate::Contract>) {
            w256::contracts(v);
            #[cfg(feature = "w384")]
            w384::contracts(v);
            #[cfg(feature = "w512")]
            w512::contracts(v);
            #[cfg(feature = "w1024")]
            w1024::contracts(v);
        }
    };
}
