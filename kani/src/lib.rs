//! Contracts on the public operations of chronologic, proved by Kani on the compiled crate itself.
//! Each `contract!` names a wrapper whose only statement is the call of the real code, its
//! precondition, and its postcondition on the extended integer line. All inputs are symbolic and
//! the code is free of loops, so each harness is a proof for every input, without any bound.
#![allow(dead_code, unused_imports)]
#![cfg(kani)]
#[macro_use]
mod base;
mod c01;
mod c02;
mod c04;
mod c05;
mod c08;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c20;
mod c24;
