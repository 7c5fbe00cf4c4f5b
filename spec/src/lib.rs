//! Specification harnesses.  Nothing here is ever executed: the analyzer interprets the
//! compiler's MIR of each `h_*` function abstractly.
#![allow(dead_code, unused_imports, non_snake_case)]
#[macro_use] pub mod mac;
pub mod v;
pub mod util;
pub mod m;
pub mod b01;
pub mod b02;
pub mod b03;
pub mod b04;
pub mod b05;
pub mod b06;
pub mod b07;
pub mod b08;
pub mod r01;
pub mod r02;
pub mod d01;
pub mod i01;
pub mod p01;
pub mod s01;
pub mod tape;
pub mod c01;
pub mod c02;
pub mod c03; pub mod c04; pub mod c05; pub mod t01; pub mod t02;
pub mod w01;
pub mod w02;
pub mod w03;
#[cfg(selftest)] pub mod selftest;
