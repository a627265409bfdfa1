//! Client programs of the public API of `butte`, annotated with what a user
//! relies on.  They are never run: the analyser computes the abstract values
//! that can reach each `spec_require` for *all* arguments of the function.
#![allow(unused, clippy::all)]
pub mod reader;
pub mod builder;

/// The condition must hold for every abstract state reaching this point.
#[inline(never)]
pub fn spec_require(_cond: bool, _msg: &'static str) {}
/// Whether every byte is zero.
#[inline(never)]
pub fn spec_zeroed(s: &[u8]) -> bool { s.iter().all(|b| *b == 0) }
/// Restricts the analysed arguments (the precondition of the property).
#[inline(never)]
pub fn spec_assume(_cond: bool) {}
