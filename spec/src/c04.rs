//! C04: what a code encodes, it decodes, consuming exactly what was emitted.
use crate::tape::*;
use crate::v::*;
fn trip<C: UniversalCode>(c: &C, v: u64) {
    allow_panic();          // of values the code does not accept (C05)
    let mut s = Log::endless();
    if c.encode(&mut s, v).is_ok() {
        forbid_panic();
        let (mut t, n) = s.replay();
        match c.decode(&mut t) {
            Ok(Some(w)) => {
                require(w == v, "the value decoded is the value encoded");
                require(t.pos == n, "decoding consumes exactly the bits emitted");
            }
            _ => require(false, "an emitted code word can be decoded"),
        }
    }
}
fn word<C: UniversalCode>(c: &C) { let v: u64 = any_word(); trip(c, v) }
fn range<C: UniversalCode>(c: &C, lo: u64, hi: u64) {
    let v: u64 = any(); assume(v >= lo && v <= hi);
    trip(c, v)
}
macro_rules! words { ($($m:ident: $c:expr, $f:ident;)*) => { $( pub mod $m { use super::*; pub fn $f() { word(&$c) } } )* } }
macro_rules! ranges { ($($m:ident: $c:expr, $lo:expr, $hi:expr, $f:ident;)*) => { $( pub mod $m { use super::*; pub fn $f() { range(&$c, $lo, $hi) } } )* } }
words! {
    gamma: GAMMA, h_all;
    delta: DELTA, h_all;
    omega: Omega, h_all;
    lift_gamma: Lift0(GAMMA), h_all;
    lift_delta: Lift0(DELTA), h_all;
    lift_omega: Lift0(Omega), h_all;
    elias_delta: Elias(Lift0(DELTA)), h_t_all;
    elias_omega: Elias(Lift0(Omega)), h_t_all;
}
ranges! {
    unary: Unary, 0, 40, h_small;
    unary_lift: Lift0(Unary), 0, 40, h_small;
    fib: Fibonacci, 0, 60, h_small;
    fib_mid: Fibonacci, 0, 6000, h_fib;
    comma2: Comma(2), 0, 100, h_small;
    comma3: Comma(3), 0, 200, h_small;
    comma8: Comma(8), 0, 600, h_small;
    comma32: Comma(32), 0xFFFFFF00, 0x100000100, h_window;
    comma63: Comma(63), 0, u64::MAX, h_all;
    comma62: Comma(62), 0, u64::MAX, h_all;
    comma2_top: Comma(2), u64::MAX - 4, u64::MAX, h_window;
    comma8_top: Comma(8), u64::MAX - 300, u64::MAX, h_window;
    comma33_all: Comma(33), 0, u64::MAX, h_all;
    fib_top: Fibonacci, 12200160415121876730, 12200160415121876745, h_window;
    fib_t1: Fibonacci, 6000, 500000, h_t_fib;
    fib_t2: Fibonacci, 500000, 5000000, h_t_fib;
    comma2_t: Comma(2), 0, 20000, h_t_small;
    comma3_t: Comma(3), 0, 100000, h_t_small;
    comma4_t: Comma(4), 0, 1000000, h_t_small;
    comma5_t: Comma(5), 0, 20000000, h_t_small;
    comma6_t: Comma(6), 0, u64::MAX, h_t_all;
    comma8_t: Comma(8), 0, u64::MAX, h_t_all;
    comma16_t: Comma(16), 0, u64::MAX, h_t_all;
    comma22_t: Comma(22), 0, u64::MAX, h_t_all;
    elias_comma: Elias(COMMA), 0, u64::MAX, h_t_all;
    unary_t: Unary, 0, 300, h_t_small;
}
