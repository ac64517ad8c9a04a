//! Contracts on the Asset program's entry point, one module per property.
#![recursion_limit = "256"]
#![cfg_attr(kani, allow(dead_code))]
#[cfg(kani)]
#[macro_use]
pub mod env;
#[cfg(all(kani, feature = "p01"))]
pub mod p01;
#[cfg(all(kani, feature = "p02"))]
pub mod p02;
#[cfg(all(kani, feature = "p03"))]
pub mod p03;
#[cfg(all(kani, feature = "p04"))]
pub mod p04;
#[cfg(all(kani, feature = "p05"))]
pub mod p05;
#[cfg(all(kani, feature = "p06"))]
pub mod p06;
#[cfg(all(kani, feature = "p07"))]
pub mod p07;
#[cfg(all(kani, feature = "p08"))]
pub mod p08;
#[cfg(all(kani, feature = "p10"))]
pub mod p10;
#[cfg(all(kani, feature = "p11"))]
pub mod p11;
#[cfg(all(kani, feature = "p12"))]
pub mod p12;
#[cfg(all(kani, feature = "p13"))]
pub mod p13;
#[cfg(all(kani, feature = "p14"))]
pub mod p14;
#[cfg(all(kani, feature = "p15"))]
pub mod p15;
#[cfg(all(kani, feature = "p16"))]
pub mod p16;
#[cfg(all(kani, feature = "p17"))]
pub mod p17;
#[cfg(all(kani, feature = "p18"))]
pub mod p18;
#[cfg(all(kani, test, feature = "replay"))]
mod replay;
