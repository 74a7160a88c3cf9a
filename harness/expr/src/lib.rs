//! Run-time generated expressions over the library's operators, and their reference semantics.
#![allow(clippy::all)]
pub mod ast;
pub mod erase;
pub mod ids;
pub mod num;
pub mod face;
pub mod family;
pub mod check;
