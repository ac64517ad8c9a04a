//! Contracts on the asset data types, one module per property.
#![cfg_attr(kani, allow(dead_code))]
#[cfg(kani)]
#[macro_use]
pub mod env;
#[cfg(all(kani, feature = "p20"))]
pub mod p20;
#[cfg(all(kani, feature = "p21"))]
pub mod p21;
#[cfg(all(kani, feature = "p22"))]
pub mod p22;
#[cfg(all(kani, feature = "p23"))]
pub mod p23;
#[cfg(all(kani, feature = "p24"))]
pub mod p24;
#[cfg(all(kani, test, feature = "replay"))]
mod replay;
