//! W01: broadword population count and select are exact.
use crate::util::*;
use succinct::broadword::*;
use succinct::select::Select1Support;

pub fn h_count_ones() {
    let x: u64 = any_word();
    require(count_ones(x) as u64 == popcount(x), "count_ones is the number of one bits");
}
/// All three entry points, for the ranks `lo .. lo + 8`.
fn ranks(lo: u64) {
    let x: u64 = any_word();
    let r: u64 = any();
    assume(r >= lo && r < lo + 8);
    let r = split(r);
    let g = select1_raw(r as usize, x) as u64;
    if g == 72 {
        require(popcount(x) <= r, "select answers None only when there are at most r ones");
        require(select1(r as usize, x).is_none() && Broadword(x).select1(r).is_none(), "72 stands for None");
    } else {
        require(g < 64, "select answers a position of the word");
        let i = split(g);
        require(bit(x, i), "select answers the position of a one");
        require(popcount(extract(x, 0, i)) == r, "exactly r ones precede the answer of select");
        require(select1(r as usize, x) == Some(i as usize) && Broadword(x).select1(r) == Some(i), "all entry points agree");
    }
}
pub fn h_select_r00() { ranks(0) }
pub fn h_select_r08() { ranks(8) }
pub fn h_select_r16() { ranks(16) }
pub fn h_select_r24() { ranks(24) }
pub fn h_select_r32() { ranks(32) }
pub fn h_select_r40() { ranks(40) }
pub fn h_select_r48() { ranks(48) }
pub fn h_select_r56() { ranks(56) }
pub fn h_large() {
    let x: u64 = any_word(); let r: u64 = any();
    assume(r >= 64);
    require(select1(r as usize, x).is_none() && select1_raw(r as usize, x) == 72 && Broadword(x).select1(r).is_none(), "no word has a 65th one");
}
