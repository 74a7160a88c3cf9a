//! Shared machinery of the checks: case generation and shrinking (proptest), parallel fixed-work
//! execution, evidence, replay files and known findings.
#![allow(clippy::all)]
#[macro_use]
extern crate aegir;
pub mod codegen;
pub mod runner;
pub mod tape;
pub mod ix;
pub mod buf;
pub mod tensor;
pub mod twins;

pub use runner::{guarded, main_check, panics, Case, Check, Known, Stats, Sub};
