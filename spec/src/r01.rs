//! R01: rank structures count exactly.
use crate::util::*;
use succinct::broadword::Broadword;
use succinct::rank::*;

/// The reference: ones at positions up to and including `p`, counted block by block.
fn ones<V: BitVec>(v: &V, p: u64) -> u64 {
    let n = nb::<V::Block>();
    let q = p / n;
    let mut s = 0u64;
    let mut k = 0u64;
    while k < q { s += popcount(v.get_block(k as usize)); k += 1; }
    s + popcount(extract(v.get_block(q as usize), 0, p % n + 1))
}
/// A store of a fixed number of blocks with arbitrary contents, also past its last bit.
pub fn store<B: BlockType>(blocks: u64) -> ByBlock<B> {
    let s: ByBlock<B> = any();
    assume(s.v.len() as u64 == blocks);
    assume(blocks_for::<B>(s.bits) == blocks);
    s
}
pub fn some_blocks(lo: u64, hi: u64) -> u64 { let b: u64 = any(); assume(b >= lo && b <= hi); split(b) }
fn pos(limit: u64) -> u64 { let p: u64 = any(); assume(p < limit); p }

fn rank9(lo: u64, hi: u64) {
    let r = Rank9::new(store::<u64>(some_blocks(lo, hi)));
    let p = pos(r.bit_len());
    split(p / 64);
    require(r.rank1(p) == ones(r.inner(), p), "Rank9::rank1 counts the ones up to and including the position");
}
pub fn h_rank9_1_4() { rank9(1, 4) }
pub fn h_rank9_7_9() { rank9(7, 9) }
pub fn h_rank9_10() { rank9(10, 10) }
pub fn h_t_rank9_5_6() { rank9(5, 6) }
pub fn h_t_rank9_11_12() { rank9(11, 12) }
pub fn h_t_rank9_15_16() { rank9(15, 16) }
pub fn h_t_rank9_17() { rank9(17, 17) }
pub fn h_t_rank9_18() { rank9(18, 18) }
pub fn h_t_rank9_25() { rank9(25, 25) }
pub fn h_t_rank9_33() { rank9(33, 33) }

fn jacobson<B: BlockType>(lo: u64, hi: u64) {
    let r = JacobsonRank::new(store::<B>(some_blocks(lo, hi)));
    let p = pos(r.bit_len());
    split(p / nb::<B>());
    require(r.rank1(p) == ones(r.inner(), p), "JacobsonRank::rank1 counts the ones up to and including the position");
}
pub mod u8_ {
    pub fn h_jacobson_1() { super::jacobson::<u8>(1, 1) }
    pub fn h_jacobson_2_3() { super::jacobson::<u8>(2, 3) }
    pub fn h_jacobson_4_5() { super::jacobson::<u8>(4, 5) }
    pub fn h_jacobson_8_9() { super::jacobson::<u8>(8, 9) }
    pub fn h_t_jacobson_6_7() { super::jacobson::<u8>(6, 7) }
    pub fn h_t_jacobson_10_13() { super::jacobson::<u8>(10, 13) }
    pub fn h_t_jacobson_14_15() { super::jacobson::<u8>(14, 15) }
    pub fn h_jacobson_16_17() { super::jacobson::<u8>(16, 17) }
    pub fn h_t_jacobson_64_65() { super::jacobson::<u8>(64, 65) }
    pub fn h_t_jacobson_32_33() { super::jacobson::<u8>(32, 33) }
}
pub mod u16_ {
    pub fn h_jacobson_1_3() { super::jacobson::<u16>(1, 3) }
    pub fn h_t_jacobson_4_6() { super::jacobson::<u16>(4, 6) }
    pub fn h_t_jacobson_7_9() { super::jacobson::<u16>(7, 9) }
}
pub mod u32_ {
    pub fn h_t_jacobson_1_4() { super::jacobson::<u32>(1, 4) }
}
pub mod u64_ {
    pub fn h_jacobson_1() { super::jacobson::<u64>(1, 1) }
    pub fn h_jacobson_3() { super::jacobson::<u64>(3, 3) }
    pub fn h_t_jacobson_2() { super::jacobson::<u64>(2, 2) }
    pub fn h_t_jacobson_4_5() { super::jacobson::<u64>(4, 5) }
}
/// The structures over the crate's own vector, whatever its length: the empty one included.
pub fn h_empty() {
    let r = Rank9::new(store::<u64>(0));
    require(r.limit() == 0 && r.bit_len() == 0, "an empty store has limit zero");
    let r = JacobsonRank::new(store::<u8>(0));
    require(r.limit() == 0 && r.bit_len() == 0, "an empty store has limit zero");
}
pub fn h_prim<B: BlockType + BitRankSupport>() {
    let w: B = any_word();
    let p = pos(nb::<B>());
    require(w.rank1(p) == popcount(extract(w, 0, p + 1)), "rank1 of a word counts the ones up to and including the position");
}
inst! { [u8_p: u8, u16_p: u16, u32_p: u32, u64_p: u64, usize_p: usize] [h_prim] }
pub fn h_broadword() {
    let w: u64 = any_word();
    let p = pos(64);
    let p = split(p);
    require(Broadword(w).rank1(p) == popcount(extract(w, 0, p + 1)), "Broadword::rank1 counts the ones up to and including the position");
}
