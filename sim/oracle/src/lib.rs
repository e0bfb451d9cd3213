//! vsim_oracle: scenarios (generation, text form), recorded histories, reference models and the
//! campaign driver. Nothing here is instrumented.
#![allow(static_mut_refs)]
pub mod check;
pub mod driver;
pub mod gen;
pub mod hist;
pub mod lin;
pub mod scn;
