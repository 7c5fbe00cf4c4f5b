//! C01: decoding an arbitrary stream never panics, and a value answered is the exact value
//! of the code word at the front of the stream.
use crate::tape::*;
use crate::v::*;
fn go<C: UniversalCode + RefCode>(c: &C, n: u64) {
    let mut t = Tape::endless(n);
    finish_within(100_000);
    let r = c.decode(&mut t);
    finish_within(0);
    if let Ok(Some(v)) = r {
        match c.refd(&t.bits, 0) {
            Some((w, end)) => {
                require(v as u128 == w, "the decoded value is the value of the code word");
                require(t.pos == end, "exactly the code word is consumed");
            }
            None => require(false, "a value is answered only for a code word whose value fits"),
        }
    }
}
codes! { [
    unary: Unary, 300, h_decode;
    gamma: GAMMA, 132, h_decode;
    delta: DELTA, 90, h_decode;
    omega: Omega, 90, h_decode;
    fib: Fibonacci, 96, h_decode;
    comma2: Comma(2), 88, h_decode;
    comma3: Comma(3), 75, h_decode;
    comma8: Comma(8), 88, h_decode;
    comma32: Comma(32), 130, h_decode;
    comma33: Comma(33), 130, h_decode;
    comma63: Comma(63), 200, h_decode;
    lift_unary: Lift0(Unary), 72, h_decode;
    lift_gamma: Lift0(GAMMA), 132, h_decode;
    lift_delta: Lift0(DELTA), 90, h_decode;
    lift_omega: Lift0(Omega), 90, h_decode;
    lift_fib: Lift0(Fibonacci), 18, h_decode;
    lift_comma: Lift0(COMMA), 20, h_decode;
    elias_comma: Elias(COMMA), 24, h_decode;
    elias_omega: Elias(Lift0(Omega)), 90, h_decode;
    unary_long: Unary, 1100, h_t_decode;
    gamma_long: GAMMA, 400, h_t_decode;
    delta_long: DELTA, 400, h_t_decode;
    omega_long: Omega, 400, h_t_decode;
    fib_long: Fibonacci, 200, h_t_decode;
    comma2_long: Comma(2), 100, h_t_decode;
    comma4_long: Comma(4), 100, h_t_decode;
    comma5_long: Comma(5), 100, h_t_decode;
    comma16_long: Comma(16), 128, h_t_decode;
    comma17_long: Comma(17), 119, h_t_decode;
    comma31_long: Comma(31), 200, h_t_decode;
    comma62_long: Comma(62), 260, h_t_decode;
] }

/// Integer readers: every type, every number of bits.
fn reads<N: num_traits::PrimInt>(be: bool) {
    let w = 8 * std::mem::size_of::<N>() as u64;
    let n: u64 = any(); assume(n <= w); let n = split(n);
    let mut t = Tape::endless(n);
    let r = if be { t.read_int_be::<N>(n as usize) } else { t.read_int::<N>(n as usize) };
    require(r.is_ok(), "an integer reader does not fail by itself");
}
fn h_read_int<N: num_traits::PrimInt>() { reads::<N>(false) }
fn h_read_int_be<N: num_traits::PrimInt>() { reads::<N>(true) }
inst! { [u8_: u8, u16_: u16, u32_: u32, u64_: u64, usize_: usize, i8_p: i8, i16_p: i16, i32_p: i32, i64_p: i64, isize_p: isize] [h_read_int h_read_int_be] }
