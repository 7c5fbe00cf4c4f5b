//! R02: rank queries agree with each other and reject positions past the end.
use crate::util::*;
use crate::r01::{store, some_blocks};
use succinct::broadword::Broadword;
use succinct::rank::*;
use succinct::select::BinSearchSelect;

/// A third-party rank structure implementing only the required methods.
pub struct ByRank { pub n: u64, pub r: Vec<u64> }
impl RankSupport for ByRank {
    type Over = bool;
    fn rank(&self, p: u64, v: bool) -> u64 { let c = self.r[p as usize]; if v { c } else { p + 1 - c } }
    fn limit(&self) -> u64 { self.n }
}
impl BitRankSupport for ByRank {}

fn agree<R: BitRankSupport>(r: &R, bits: u64) {
    require(r.limit() == bits, "the limit is the number of bits");
    let p: u64 = any();
    assume(p < bits);
    let one = r.rank1(p);
    let zero = r.rank0(p);
    require(r.rank(p, true) == one, "rank(p, true) is rank1(p)");
    require(r.rank(p, false) == zero, "rank(p, false) is rank0(p)");
    require(zero + one == p + 1, "rank0(p) + rank1(p) is p + 1");
}
fn reject<R: BitRankSupport>(r: &R, bits: u64) {
    let p: u64 = any();
    assume(p >= bits);
    allow_panic();
    let k: u64 = any();
    assume(k < 4);
    match split(k) {
        0 => { r.rank1(p); }
        1 => { r.rank0(p); }
        2 => { r.rank(p, true); }
        _ => { r.rank(p, false); }
    }
    require(false, "a rank query at or past the limit is not rejected");
}
fn any_rank9() -> Rank9<ByBlock<u64>> { let r: Rank9<ByBlock<u64>> = any(); assume(r.inner().v.len() as u64 == blocks_for::<u64>(r.inner().bits)); r }
fn any_jac<B: BlockType>() -> JacobsonRank<ByBlock<B>> { let r: JacobsonRank<ByBlock<B>> = any(); assume(r.inner().v.len() as u64 == blocks_for::<B>(r.inner().bits)); r }
fn rank9(lo: u64, hi: u64) { let r = Rank9::new(store::<u64>(some_blocks(lo, hi))); let n = r.inner().bits; agree(&r, n) }
pub fn h_rank9_agree() { rank9(1, 3) }
pub fn h_rank9_agree_9() { rank9(9, 9) }
pub fn h_t_rank9_agree_17() { rank9(17, 17) }
fn jacobson<B: BlockType>(lo: u64, hi: u64) { let r = JacobsonRank::new(store::<B>(some_blocks(lo, hi))); let n = r.inner().bits; agree(&r, n) }
pub fn h_jacobson_agree() { jacobson::<u8>(1, 5) }
pub fn h_jacobson_agree_16() { jacobson::<u16>(1, 2) }
pub fn h_t_jacobson_agree() { jacobson::<u8>(6, 10) }
pub fn h_t_jacobson_agree_64() { jacobson::<u64>(1, 3) }
/// The structures' private state is arbitrary here: rejection must not depend on how it was built.
pub fn h_rank9_reject() { let r = any_rank9(); let n = r.inner().bits; reject(&r, n) }
pub fn h_jacobson_reject<B: BlockType>() { let r = any_jac::<B>(); let n = r.inner().bits; reject(&r, n) }
pub fn h_prim_agree<B: BlockType + BitRankSupport>() { let w: B = any_word(); agree(&w, nb::<B>()) }
pub fn h_prim_reject<B: BlockType + BitRankSupport>() { let w: B = any_word(); reject(&w, nb::<B>()) }
inst! { [u8_: u8, u16_: u16, u32_: u32, u64_: u64, usize_: usize] [h_prim_agree h_prim_reject h_jacobson_reject] }
pub fn h_broadword_agree() { let w: u64 = any_word(); agree(&Broadword(w), 64) }
pub fn h_broadword_reject() { let w: u64 = any_word(); reject(&Broadword(w), 64) }
pub fn h_select_agree() { let r = Rank9::new(store::<u64>(some_blocks(1, 2))); let n = r.inner().bits; agree(&BinSearchSelect::new(r), n) }
pub fn h_select_reject() { let r = any_rank9(); let n = r.inner().bits; reject(&BinSearchSelect::new(r), n) }
pub fn h_default_agree() { let r: ByRank = any(); assume(r.n == r.r.len() as u64); let n = r.n; let p: u64 = any(); assume(p < n); let c = r.rank1(p); assume(c <= p + 1); require(r.rank(p, true) == c && r.rank0(p) == p + 1 - c && r.rank(p, false) == r.rank0(p), "the provided rank methods agree") }
/// Structures as they are built: within the last block and beyond it.
pub fn h_rank9_built_reject() { let r = Rank9::new(store::<u64>(some_blocks(0, 2))); let n = r.inner().bits; reject(&r, n) }
pub fn h_jacobson_built_reject() { let r = JacobsonRank::new(store::<u8>(some_blocks(0, 3))); let n = r.inner().bits; reject(&r, n) }
pub fn h_jacobson_built_reject_64() { let r = JacobsonRank::new(store::<u64>(1)); let n = r.inner().bits; reject(&r, n) }
