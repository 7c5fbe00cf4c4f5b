//! C02: end-of-stream is answered exactly when the stream ends before the first bit.
use crate::tape::*;
use crate::v::*;
fn judge<T>(t: &Tape, r: &Result<Option<T>>) {
    match *r {
        Ok(Some(_)) => require(!t.stopped, "no value is answered once the stream has ended"),
        Ok(None) => {
            require(t.stopped, "end-of-stream is answered only when the stream has ended");
            require(t.pos == 0, "end-of-stream is answered only before the first bit of a code word");
        }
        Err(_) => require(!t.stopped || t.pos > 0, "a stream which ends before a code word is not an error"),
    }
}
fn go<C: UniversalCode>(c: &C, n: u64) {
    let mut t = Tape::ending(n);
    let r = c.decode(&mut t);
    judge(&t, &r);
}
codes! { [
    unary: Unary, 70, h_decode;
    gamma: GAMMA, 80, h_decode;
    delta: DELTA, 76, h_decode;
    omega: Omega, 74, h_decode;
    fib: Fibonacci, 96, h_decode;
    comma2: Comma(2), 86, h_decode;
    comma3: Comma(3), 40, h_decode;
    comma8: Comma(8), 40, h_decode;
    comma63: Comma(63), 140, h_decode;
    lift_unary: Lift0(Unary), 40, h_decode;
    lift_gamma: Lift0(GAMMA), 40, h_decode;
    lift_delta: Lift0(DELTA), 40, h_decode;
    lift_omega: Lift0(Omega), 74, h_decode;
    lift_fib: Lift0(Fibonacci), 14, h_decode;
    lift_comma: Lift0(COMMA), 16, h_decode;
    elias_comma: Elias(COMMA), 20, h_decode;
    elias_omega: Elias(Lift0(Omega)), 40, h_decode;
    unary_long: Unary, 300, h_t_decode;
    gamma_long: GAMMA, 140, h_t_decode;
    delta_long: DELTA, 140, h_t_decode;
    omega_long: Omega, 140, h_t_decode;
    fib_long: Fibonacci, 200, h_t_decode;
    comma2_long: Comma(2), 110, h_t_decode;
    comma16_long: Comma(16), 110, h_t_decode;
    comma33_long: Comma(33), 200, h_t_decode;
] }
fn reads<N: num_traits::PrimInt>(be: bool) {
    let w = 8 * std::mem::size_of::<N>() as u64;
    let n: u64 = any(); assume(n <= w); let n = split(n);
    let mut t = Tape::ending(n);
    let r = if be { t.read_int_be::<N>(n as usize) } else { t.read_int::<N>(n as usize) };
    judge(&t, &r);
    if let Ok(Some(_)) = r { require(t.pos == n, "a value is answered only when all its bits were there"); }
}
fn h_read_int<N: num_traits::PrimInt>() { reads::<N>(false) }
fn h_read_int_be<N: num_traits::PrimInt>() { reads::<N>(true) }
inst! { [u8_: u8, u16_: u16, u32_: u32, u64_: u64, usize_: usize, i8_p: i8, i64_p: i64] [h_read_int h_read_int_be] }
