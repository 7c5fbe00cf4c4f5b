//! C05: a value the code cannot represent is refused before anything is emitted.
use crate::tape::*;
use crate::v::*;
fn refused<C: UniversalCode>(c: &C, v: u64) {
    allow_panic();
    finish_within(5000);
    if let Ok(_) = c.encode(&mut Closed, v) { forbid_panic(); require(false, "a value the code cannot represent is not accepted") }
}
fn accepted<C: UniversalCode>(c: &C, v: u64) {
    let mut s = Log::endless();
    finish_within(100_000);
    let r = c.encode(&mut s, v);
    require(r.is_ok(), "a value the code can represent is accepted");
    require(s.bits.len() > 0, "a value is never represented by nothing");
}
macro_rules! one { ($($m:ident: $c:expr, $v:expr, $f:ident;)*) => { $( pub mod $m { use super::*; pub fn $f() { refused(&$c, $v) } } )* } }
one! {
    gamma: GAMMA, 0, h_zero;
    delta: DELTA, 0, h_zero;
    omega: Omega, 0, h_zero;
    fib: Fibonacci, 0, h_zero;
    elias_omega: Elias(Omega), 0, h_zero;
    elias_omega_one: Elias(Omega), 1, h_header;
    elias_fib_one: Elias(Fibonacci), 1, h_header;
    lift_unary: Lift0(Unary), u64::MAX, h_largest;
    lift_gamma: Lift0(GAMMA), u64::MAX, h_largest;
    lift_delta: Lift0(DELTA), u64::MAX, h_largest;
    lift_omega: Lift0(Omega), u64::MAX, h_largest;
    lift_fib: Lift0(Fibonacci), u64::MAX, h_largest;
    lift_comma: Lift0(COMMA), u64::MAX, h_largest;
    lift_lift: Lift0(Lift0(DELTA)), u64::MAX - 1, h_largest;
    lift_lift_max: Lift0(Lift0(DELTA)), u64::MAX, h_largest;
}
/// The largest Fibonacci number below 2^64: from there on code words would need the next.
const FIB93: u64 = 12200160415121876738;
pub mod fib_large { use super::*;
    pub fn h_large() { let v: u64 = any(); assume(v >= FIB93); refused(&Fibonacci, v) }
    pub fn h_largest_lifted() { let v: u64 = any(); assume(v >= FIB93 - 1); refused(&Lift0(Fibonacci), v) }
}
/// Digit sizes which leave no digit, or do not fit the word.
pub mod comma_width { use super::*;
    pub fn h_zero() { let v: u64 = any(); refused(&Comma(0), v) }
    pub fn h_one() { let v: u64 = any(); refused(&Comma(1), v) }
    pub fn h_wide() { let v: u64 = any(); let n: u8 = any(); assume(n >= 64); refused(&Comma(n), v) }
}
/// The refusals are not of everything.
macro_rules! fine { ($($m:ident: $c:expr, $lo:expr, $hi:expr, $f:ident;)*) => { $( pub mod $m { use super::*; pub fn $f() { let v: u64 = any_word(); assume(v >= $lo && v <= $hi); accepted(&$c, v) } } )* } }
fine! {
    gamma_ok: GAMMA, 1, u64::MAX, h_accepted;
    delta_ok: DELTA, 1, u64::MAX, h_accepted;
    omega_ok: Omega, 1, u64::MAX, h_accepted;
    lift_gamma_ok: Lift0(GAMMA), 0, u64::MAX - 1, h_accepted;
    lift_omega_ok: Lift0(Omega), 0, u64::MAX - 1, h_accepted;
}
macro_rules! some { ($($m:ident: $c:expr, $lo:expr, $hi:expr, $f:ident;)*) => { $( pub mod $m { use super::*; pub fn $f() { let v: u64 = any(); assume(v >= $lo && v <= $hi); accepted(&$c, v) } } )* } }
some! {
    unary_ok: Unary, 0, 30, h_accepted;
    fib_ok: Fibonacci, 1, 40, h_accepted;
    comma_ok: Comma(2), 0, 60, h_accepted;
    comma63_ok: Comma(63), 0, u64::MAX, h_accepted;
}
