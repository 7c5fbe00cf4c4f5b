//! T01: integer readers and writers transfer exactly the named bits in the named order.
use crate::tape::*;
use crate::util::nb;
use crate::v::*;
use std::collections::VecDeque;
fn width<N>() -> u64 { let w = nb::<N>(); let n: u64 = any(); assume(n <= w); split(n) }
fn emitted<N: Copy>(s: &Vec<bool>, x: N, n: u64, be: bool) {
    require(s.len() as u64 == n, "exactly n bits are emitted");
    let mut j = 0;
    while j < n {
        let e = if be { n - 1 - j } else { j };
        require(s[j as usize] == bit(x, e), "the bits emitted are the low bits in the named order");
        j += 1;
    }
}
fn spelled<N: Copy>(s: &Vec<bool>, x: N, n: u64, be: bool) {
    let w = nb::<N>();
    let mut j = 0;
    while j < w {
        let want = if j < n { s[(if be { n - 1 - j } else { j }) as usize] } else { false };
        require(bit(x, j) == want, "the integer read is the one its bits spell");
        j += 1;
    }
}
fn h_write_int<N: num_traits::PrimInt>() {
    let n = width::<N>(); let x: N = any_word();
    let mut s = Log::endless();
    require(s.write_int::<N>(n as usize, x).is_ok(), "writing to a sink which does not fail succeeds");
    emitted(&s.bits, x, n, false)
}
fn h_write_int_be<N: num_traits::PrimInt>() {
    let n = width::<N>(); let x: N = any_word();
    let mut s = Log::endless();
    require(s.write_int_be::<N>(n as usize, x).is_ok(), "writing to a sink which does not fail succeeds");
    emitted(&s.bits, x, n, true)
}
fn read<N: num_traits::PrimInt>(be: bool) {
    let n = width::<N>();
    let mut t = Tape::endless(n);
    let r = if be { t.read_int_be::<N>(n as usize) } else { t.read_int::<N>(n as usize) };
    match r {
        Ok(Some(x)) => { require(t.pos == n, "exactly n bits are consumed"); spelled(&t.bits, x, n, be) }
        _ => require(false, "bits which are there are read"),
    }
}
fn h_read_int<N: num_traits::PrimInt>() { read::<N>(false) }
fn h_read_int_be<N: num_traits::PrimInt>() { read::<N>(true) }
fn trip<N: num_traits::PrimInt>(be: bool) {
    let n = width::<N>(); let x: N = any_word(); let last: bool = any();
    let mut q: VecDeque<bool> = VecDeque::new();
    let r = if be { q.write_int_be::<N>(n as usize, x) } else { q.write_int::<N>(n as usize, x) };
    require(r.is_ok(), "writing to a queue succeeds");
    require(q.len() as u64 == n, "exactly n bits are emitted");
    require(q.write_bit(last).is_ok(), "writing to a queue succeeds");
    let r = if be { q.read_int_be::<N>(n as usize) } else { q.read_int::<N>(n as usize) };
    match r {
        Ok(Some(y)) => {
            let w = nb::<N>(); let mut j = 0;
            while j < w { require(bit(y, j) == (j < n && bit(x, j)), "reading back gives the low n bits"); j += 1; }
        }
        _ => require(false, "bits which were written are read"),
    }
    require(match q.read_bit() { Ok(Some(b)) => b == last, _ => false }, "the next bit is the one written next");
    require(match q.read_bit() { Ok(None) => true, _ => false }, "an empty queue is at its end");
}
fn h_round_trip<N: num_traits::PrimInt>() { trip::<N>(false) }
fn h_round_trip_be<N: num_traits::PrimInt>() { trip::<N>(true) }
inst! { [u8_: u8, u16_: u16, u32_: u32, u64_: u64, usize_: usize, i8_p: i8, i16_p: i16, i32_p: i32, i64_p: i64, isize_p: isize]
    [h_write_int h_write_int_be h_read_int h_read_int_be h_round_trip h_round_trip_be] }
