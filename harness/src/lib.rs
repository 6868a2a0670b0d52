//! Contracts over the real functions of yeslogic/doodle.
//!
//! Every contract is a function generic over a value source `S: Src`:
//!   * under Kani (`cfg(kani)`) the source is fully symbolic, `requires!` is `kani::assume`
//!     and `ensures!` is an assertion, so the harness discharges the contract for every input;
//!   * natively the same contract text is executed on concrete values, either to replay the
//!     verifier's counterexample or as the bounded stand-in when the verifier gives no answer.
#![allow(clippy::all)]

/// Native runs: 1 while a step whose cost is not under contract is running (see bin/dv.rs)
pub static PHASE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub mod src;
#[cfg(not(kani))]
pub mod refsem;
#[cfg(not(kani))]
pub mod genexpr;
#[cfg(not(kani))]
pub mod reffmt;
#[cfg(not(kani))]
pub mod genfmt;
#[cfg(not(kani))]
pub mod gencode;

include!("registry.rs");
