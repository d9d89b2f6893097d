//! Contracts of the public functions of `i256`.
//!
//! Every contract is a function over a source of inputs: it draws the arguments, states the
//! precondition (`req!`), calls the real function and states the postcondition (`ens!`). Under Kani
//! the arguments are unconstrained symbolic values, so that an accepted contract holds for all
//! arguments. Natively the same contract runs on given values (replay of a counterexample) or on
//! drawn values (search for a failing input).
#![allow(clippy::all)]
#![allow(unused_imports, unused_macros, dead_code, unused_unsafe)]

#[macro_use]
pub mod src;
pub mod spec;
#[macro_use]
pub mod callee;

use src::Src;

/// A contract: name, function, and whether it has to panic.
pub type Contract = (&'static str, fn(&mut Src));

macro_rules! props {
    ($($feature:literal $name:ident),* $(,)?) => {
        $(#[cfg(feature = $feature)] pub mod $name;)*

        /// All contracts of the selected properties.
        pub fn contracts() -> Vec<Contract> {
            #[allow(unused_mut)]
            let mut v: Vec<Contract> = Vec::new();
            $(#[cfg(feature = $feature)] $name::contracts(&mut v);)*
            v
        }
    };
}

props!(
    "c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17,
);
