//! S01: select is the inverse of rank, over an arbitrary rank structure.
use crate::util::*;
use succinct::rank::*;
use succinct::select::*;
use std::cell::Cell;

/// A rank structure written by somebody else: arbitrary bits, counting its queries.
pub struct Bits { v: Vec<bool>, n: Cell<u64> }
impl Bits {
    fn any(limit: u64) -> Self {
        let v: Vec<bool> = any();
        assume(v.len() as u64 == limit);
        Bits { v, n: Cell::new(0) }
    }
    fn ask(&self, p: u64) {
        require(p < self.v.len() as u64, "only positions inside the structure are queried");
        self.n.set(self.n.get() + 1);
        require(self.n.get() <= 64 * (self.v.len() as u64 + 2), "the search terminates");
    }
    fn count(&self, p: u64, x: bool) -> u64 {
        let mut s = 0u64; let mut i = 0u64;
        while i <= p { s += if x { self.v[i as usize] as u64 } else { 1 - self.v[i as usize] as u64 }; i += 1; }
        s
    }
}
impl RankSupport for Bits {
    type Over = bool;
    fn rank(&self, p: u64, x: bool) -> u64 { self.ask(p); self.count(p, x) }
    fn limit(&self) -> u64 { self.v.len() as u64 }
}
impl BitRankSupport for Bits {
    fn rank1(&self, p: u64) -> u64 { self.ask(p); self.count(p, true) }
    fn rank0(&self, p: u64) -> u64 { self.ask(p); self.count(p, false) }
}
fn judge(b: &Bits, k: u64, x: bool, r: Option<u64>) {
    let n = b.v.len() as u64;
    match r {
        Some(p) => {
            require(p < n, "select answers a position inside the structure");
            let p = split(p);
            require(b.v[p as usize] == x, "the selected position holds the selected value");
            require(p != 0 || k == 0, "the selected position is the k-th one");
            if p > 0 { require(b.count(p - 1, x) == k, "the selected position is the k-th one") }
        }
        None => if n > 0 { require(b.count(n - 1, x) <= k, "select answers None only when there is no such position") },
    }
}
fn small(lo: u64, hi: u64, which: u64) {
    let n: u64 = any(); assume(n >= lo && n <= hi); let n = split(n);
    let s = BinSearchSelect::new(Bits::any(n));
    let k: u64 = any();
    if which == 0 { let r = s.select1(k); judge(s.inner(), k, true, r) }
    else if which == 1 { let r = s.select0(k); judge(s.inner(), k, false, r) }
    else { let x: bool = any(); let x = split(x as u64) == 1; let r = s.select(k, x); judge(s.inner(), k, x, r) }
}
pub fn h_small_select1() { small(0, 5, 0) }
pub fn h_small_select0() { small(0, 5, 1) }
pub fn h_small_select() { small(0, 4, 2) }
pub fn h_t_small_select1_8() { small(6, 8, 0) }
pub fn h_t_small_select0_8() { small(6, 8, 1) }
pub fn h_t_small_select_7() { small(5, 7, 2) }
pub fn h_t_small_select1_11() { small(9, 11, 0) }

/// A rank structure of any size, known only by where its rank passes the target: the
/// search can tell positions apart only by comparing their rank with the target.
pub struct Step { limit: u64, at: u64, below: u64, ones: bool, n: Cell<u64> }
impl Step {
    fn get(&self, p: u64, x: bool) -> u64 {
        require(p < self.limit, "only positions inside the structure are queried");
        self.n.set(self.n.get() + 1);
        require(self.n.get() <= 1000, "the search terminates quickly");
        // such a structure is known by the rank of one value only; `Bits` has both
        assume(x == self.ones);
        if p < self.at { self.below } else { self.below + 1 }
    }
}
impl RankSupport for Step {
    type Over = bool;
    fn rank(&self, p: u64, x: bool) -> u64 { self.get(p, x) }
    fn limit(&self) -> u64 { self.limit }
}
impl BitRankSupport for Step {
    fn rank1(&self, p: u64) -> u64 { self.get(p, true) }
    fn rank0(&self, p: u64) -> u64 { self.get(p, false) }
}
/// the rank passes the target k + 1 at position `at` (`at == limit`: nowhere)
fn step(limit: u64, at: u64) {
    let k: u64 = any(); assume(k < u64::MAX);
    assume(at == limit || k <= at);
    let ones: bool = any();
    let s = BinSearchSelect::new(Step { limit, at, below: k, ones, n: Cell::new(0) });
    let which: u64 = any(); assume(which < 2); let which = split(which);
    let r = if which == 0 { s.select(k, ones) } else if ones { s.select1(k) } else { s.select0(k) };
    match r {
        Some(p) => require(p == at && at < limit, "select answers the first position whose rank exceeds k"),
        None => require(at == limit, "select answers None only when no position's rank exceeds k"),
    }
}
fn window(limit: u64, lo: u64, hi: u64) { let at: u64 = any(); assume(at >= lo && at <= hi); step(limit, at) }
pub fn h_step_7() { window(7, 0, 7) }
pub fn h_step_16() { window(16, 0, 16) }
pub fn h_step_33() { window(33, 0, 33) }
pub fn h_t_step_64() { window(64, 0, 64) }
pub fn h_t_step_100() { window(100, 0, 100) }
pub fn h_t_step_511() { window(511, 0, 511) }
pub fn h_low() { window(u64::MAX, 0, 3) }
pub fn h_high() { window(u64::MAX, u64::MAX - 3, u64::MAX) }
pub fn h_middle() { window(u64::MAX, (1 << 63) - 2, (1 << 63) + 2) }
pub fn h_high_odd() { window(u64::MAX - 2, u64::MAX - 6, u64::MAX - 2) }
pub fn h_half() { window(1 << 63, (1 << 63) - 3, 1 << 63) }
pub fn h_three_quarters() { window(3 << 62, (3 << 61) - 2, (3 << 61) + 1) }
pub fn h_t_any_size_small() { let n: u64 = any(); assume(n <= 24); let at: u64 = any(); assume(at <= n); step(n, at) }

/// the largest index: nothing has 2^64 occurrences
pub fn h_largest() {
    let limit: u64 = any();
    let ones: bool = any();
    let s = BinSearchSelect::new(Step { limit, at: u64::MAX, below: 0, ones, n: Cell::new(0) });
    assume(limit <= 40);
    let r = if ones { s.select1(u64::MAX) } else { s.select0(u64::MAX) };
    require(r.is_none(), "select of the largest index is None");
    require(s.select(u64::MAX, ones).is_none(), "select of the largest index is None");
}
/// values other than booleans
pub struct Sym { limit: u64, at: u64, below: u64, want: u8 }
impl RankSupport for Sym {
    type Over = u8;
    fn rank(&self, p: u64, x: u8) -> u64 {
        require(p < self.limit, "only positions inside the structure are queried");
        require(x == self.want, "the rank of the selected value is queried");
        if p < self.at { self.below } else { self.below + 1 }
    }
    fn limit(&self) -> u64 { self.limit }
}
pub fn h_symbols() {
    let at: u64 = any(); assume(at <= 9);
    let k: u64 = any(); assume(k < u64::MAX);
    assume(at == 9 || k <= at);
    let want: u8 = any();
    let s = BinSearchSelect::new(Sym { limit: 9, at, below: k, want });
    match s.select(k, want) {
        Some(p) => require(p == at && at < 9, "select answers the first position whose rank exceeds k"),
        None => require(at == 9, "select answers None only when no position's rank exceeds k"),
    }
}
/// on the crate's own word
pub fn h_t_word() {
    let w: u8 = any_word(); let k: u64 = any(); assume(k <= 9); let k = split(k);
    match BinSearchSelect::new(w).select1(k) {
        Some(p) => { let p = split(p); require(bit(w, p) && popcount(extract(w, 0, p)) == k, "the selected position is the k-th one") }
        None => require(popcount(w) <= k, "select answers None only when there is no such position"),
    }
}
/// the broadword word: its own select
fn broadword(lo: u64, hi: u64) {
    use succinct::broadword::Broadword;
    let x: u64 = any_word(); let r: u64 = any();
    assume(r >= lo && r <= hi);
    let r = split(r);
    match Broadword(x).select1(r) {
        None => require(popcount(x) <= r, "select answers None only when there is no such position"),
        Some(p) => {
            require(p < 64, "select answers a position inside the structure");
            let p = split(p);
            require(bit(x, p), "the selected position holds the selected value");
            require(popcount(extract(x, 0, p)) == r, "the selected position is the k-th one");
        }
    }
}
pub fn h_broadword_low() { broadword(0, 3) }
pub fn h_broadword_high() { broadword(60, 63) }
pub fn h_broadword_large() {
    let x: u64 = any_word(); let r: u64 = any();
    assume(r >= 64);
    require(succinct::broadword::Broadword(x).select1(r).is_none(), "no word has a 65th one");
}
/// indices no word has, at the widths an index may get cut to
fn beyond(r: u64) {
    let x: u64 = any_word();
    require(succinct::broadword::Broadword(x).select1(r).is_none(), "no word has a 65th one");
}
pub fn h_broadword_beyond_byte() { beyond(64); beyond(127); beyond(128); beyond(255); beyond(256); beyond(258) }
pub fn h_broadword_beyond_word() { beyond(1 << 16); beyond(1 << 31); beyond(1 << 32); beyond((1 << 32) + 1); beyond(1 << 63); beyond(u64::MAX); beyond(u64::MAX - 63) }
pub fn h_t_broadword_a() { broadword(4, 17) }
pub fn h_t_broadword_b() { broadword(18, 31) }
pub fn h_t_broadword_c() { broadword(32, 45) }
pub fn h_t_broadword_d() { broadword(46, 59) }
