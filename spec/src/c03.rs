//! C03: a failure of the source or the sink is answered at once and is the last thing done.
use crate::tape::*;
use crate::v::*;
fn read<C: UniversalCode>(c: &C, n: u64) {
    let mut t = Tape::failing(n);
    let r = c.decode(&mut t);
    require(t.stopped == is_failure(&r), "a failure of the source, and only that, is what the decoder answers");
}
fn write<C: UniversalCode>(c: &C, n: u64) {
    let v: u64 = any_word();
    written(c, v, n)
}
fn written<C: UniversalCode>(c: &C, v: u64, n: u64) {
    allow_panic();          // of values the code cannot represent (C05)
    let mut s = Log::failing(n);
    let r = c.encode(&mut s, v);
    require(s.stopped == is_failure(&r), "a failure of the sink, and only that, is what the encoder answers");
}
fn below<C: UniversalCode>(c: &C, n: u64, hi: u64) {
    let v: u64 = any(); assume(v <= hi);
    written(c, v, n)
}
macro_rules! decoders { ($($m:ident: $c:expr, $n:expr, $f:ident;)*) => { $( pub mod $m { use super::*; pub fn $f() { read(&$c, $n) } } )* } }
macro_rules! encoders { ($($m:ident: $c:expr, $n:expr, $f:ident;)*) => { $( pub mod $m { use super::*; pub fn $f() { write(&$c, $n) } } )* } }
macro_rules! encoders_below { ($($m:ident: $c:expr, $n:expr, $hi:expr, $f:ident;)*) => { $( pub mod $m { use super::*; pub fn $f() { below(&$c, $n, $hi) } } )* } }
decoders! {
    d_unary: Unary, 40, h_decode;
    d_gamma: GAMMA, 60, h_decode;
    d_delta: DELTA, 60, h_decode;
    d_omega: Omega, 60, h_decode;
    d_fib: Fibonacci, 40, h_decode;
    d_comma2: Comma(2), 40, h_decode;
    d_comma8: Comma(8), 40, h_decode;
    d_lift_delta: Lift0(DELTA), 30, h_decode;
    d_lift_comma: Lift0(COMMA), 16, h_decode;
    d_elias_comma: Elias(COMMA), 16, h_decode;
    d_gamma_long: GAMMA, 130, h_t_decode;
    d_delta_long: DELTA, 130, h_t_decode;
    d_omega_long: Omega, 130, h_t_decode;
    d_fib_long: Fibonacci, 100, h_t_decode;
    d_comma_long: Comma(2), 100, h_t_decode;
}
encoders! {
    e_gamma: GAMMA, 130, h_encode;
    e_delta: DELTA, 80, h_encode;
    e_omega: Omega, 80, h_encode;
    e_lift_delta: Lift0(DELTA), 80, h_t_encode;
    e_lift_omega: Lift0(Omega), 80, h_t_encode;
}
encoders_below! {
    e_unary: Unary, 12, 10, h_encode;
    e_fib: Fibonacci, 12, 20, h_encode;
    e_comma2: Comma(2), 12, 30, h_encode;
    e_comma8: Comma(8), 24, 300, h_encode;
    e_comma63: Comma(63), 66, 3, h_encode;
    e_elias_comma: Elias(COMMA), 12, 40, h_encode;
    e_unary_long: Unary, 42, 40, h_t_encode;
    e_fib_long: Fibonacci, 14, 100, h_t_encode;
    e_comma_long: Comma(2), 12, 100, h_t_encode;
}
fn reads<N: num_traits::PrimInt>(be: bool) {
    let w = 8 * std::mem::size_of::<N>() as u64;
    let n: u64 = any(); assume(n <= w); let n = split(n);
    let mut t = Tape::failing(n);
    let r = if be { t.read_int_be::<N>(n as usize) } else { t.read_int::<N>(n as usize) };
    require(t.stopped == is_failure(&r), "a failure of the source, and only that, is what the reader answers");
}
fn writes<N: num_traits::PrimInt>(be: bool) {
    let w = 8 * std::mem::size_of::<N>() as u64;
    let n: u64 = any(); assume(n <= w); let n = split(n);
    let x: N = any_word();
    let mut t = Log::failing(n);
    let r = if be { t.write_int_be::<N>(n as usize, x) } else { t.write_int::<N>(n as usize, x) };
    require(t.stopped == is_failure(&r), "a failure of the sink, and only that, is what the writer answers");
}
fn h_read_int<N: num_traits::PrimInt>() { reads::<N>(false) }
fn h_read_int_be<N: num_traits::PrimInt>() { reads::<N>(true) }
fn h_write_int<N: num_traits::PrimInt>() { writes::<N>(false) }
fn h_write_int_be<N: num_traits::PrimInt>() { writes::<N>(true) }
inst! { [u8_: u8, u16_: u16, u32_: u32, u64_: u64, usize_: usize, i8_p: i8, i64_p: i64] [h_read_int h_read_int_be h_write_int h_write_int_be] }
