//! Verification harnesses for minisign. Built twice: to LLVM IR for the symbolic executor
//! (`symx`), and natively (feature `native`, bin `replay`) to replay counterexamples.
#![allow(clippy::all, static_mut_refs, unexpected_cfgs)]
pub mod sx;
pub mod env;
#[cfg(feature = "api")]
pub mod ideal;
#[cfg(feature = "api")]
pub mod api;
#[cfg(feature = "api")]
pub mod api2;
#[cfg(feature = "kern")]
pub mod refhash;
#[cfg(feature = "kern")]
pub mod kern;
#[cfg(feature = "kern")]
pub mod big;
#[cfg(feature = "kern")]
pub mod kern2;
#[cfg(feature = "kern")]
pub mod kern3;
#[cfg(feature = "kern")]
pub mod kern4;
#[cfg(feature = "kern")]
pub mod kern5;
