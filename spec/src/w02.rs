//! W02: bytewise parallel comparisons never leak between lanes.
use crate::util::*;
use succinct::broadword::*;

fn lane() -> u64 { let i: u64 = any(); assume(i < 8); split(i) }
fn chk(r: u64, i: u64, want: bool) {
    let got = extract(r, 8 * i, 8);
    require(if want { got == 0x80 } else { got == 0 }, "a lane is 0x80 exactly when its own comparison holds, 0 otherwise");
}
pub fn h_u_le8() {
    let x: u64 = any_word(); let y: u64 = any_word(); let i = lane();
    chk(u_le8(x, y), i, extract(x, 8 * i, 8) as u8 <= extract(y, 8 * i, 8) as u8)
}
/// (as signed bytes: the order of the unsigned bytes with the sign bit flipped)
pub fn h_le8() {
    let x: u64 = any_word(); let y: u64 = any_word(); let i = lane();
    chk(le8(x, y), i, (extract(x, 8 * i, 8) ^ 0x80) <= (extract(y, 8 * i, 8) ^ 0x80))
}
pub fn h_u_nz8() {
    let x: u64 = any_word(); let i = lane();
    chk(u_nz8(x), i, extract(x, 8 * i, 8) != 0)
}
pub fn h_consts() { require(L8 == 0x0101_0101_0101_0101 && H8 == 0x8080_8080_8080_8080, "lane masks") }
