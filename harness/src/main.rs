//! Run the contracts natively, on given or on drawn inputs.
//!
//! ```text
//! replay list
//! replay given <contract> <value,value,...>
//! replay search <seed> <seconds> [<substring of contract>...]
//! ```
//!
//! Prints `FAIL <contract> | <message> | <values>` for a failing input.

#![cfg_attr(kani, allow(unused))]

#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
include!("runner.rs");
