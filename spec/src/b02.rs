//! B02: bit reads and writes address exactly the requested bits.
use crate::util::*;

// ---- words
pub fn h_word_get_bit<B: BlockType>() {
    let w: B = any_word(); let i: usize = any();
    assume((i as u64) < nb::<B>());
    require(BlockType::get_bit(w, i) == bit(w, i as u64), "word get_bit");
    require(BitVec::get_bit(&w, i as u64) == bit(w, i as u64), "BitVec for word: get_bit");
    require(BitVec::bit_len(&w) == nb::<B>() && BitVec::block_len(&w) == 1, "word length");
}
pub fn h_word_with_bit<B: BlockType>() {
    let w: B = any_word(); let i: usize = any(); let x: bool = any(); let one: B = any_word();
    assume((i as u64) < nb::<B>());
    assume(bit(one, 0) == x);
    require(w.with_bit(i, x) == splice(w, i as u64, 1, one), "word with_bit");
    let mut u = w;
    BitVecMut::set_bit(&mut u, i as u64, x);
    require(u == splice(w, i as u64, 1, one), "BitVecMut for word: set_bit");
}
pub fn h_word_get_bits<B: BlockType>() {
    let w: B = any_word(); let s: usize = any(); let n: usize = any();
    assume(n as u64 <= nb::<B>() && s as u64 <= nb::<B>() - n as u64);
    let r = extract(w, s as u64, n as u64);
    require(BlockType::get_bits(w, s, n) == r, "word get_bits");
}
pub fn h_word_bv_get_bits<B: BlockType<Block = B>>() {
    let w: B = any_word(); let s: usize = any(); let n: usize = any();
    assume(n as u64 <= nb::<B>() && s as u64 <= nb::<B>() - n as u64);
    let r = extract(w, s as u64, n as u64);
    require(BitVec::get_bits(&w, s as u64, n) == r, "BitVec for word: get_bits");
    require(BitVec::get_block(&w, 0) == w, "BitVec for word: get_block");
}
pub fn h_word_with_bits<B: BlockType>() {
    let w: B = any_word(); let x: B = any_word(); let s: usize = any(); let n: usize = any();
    assume(n as u64 <= nb::<B>() && s as u64 <= nb::<B>() - n as u64);
    require(w.with_bits(s, n, x) == splice(w, s as u64, n as u64, x), "word with_bits");
}
pub fn h_word_bv_set_bits<B: BlockType<Block = B>>() {
    let w: B = any_word(); let x: B = any_word(); let s: usize = any(); let n: usize = any();
    assume(n as u64 <= nb::<B>() && s as u64 <= nb::<B>() - n as u64);
    let mut u = w;
    BitVecMut::set_bits(&mut u, s as u64, n, x);
    require(u == splice(w, s as u64, n as u64, x), "BitVecMut for word: set_bits");
    let mut u = w;
    BitVecMut::set_block(&mut u, 0, x);
    require(u == x, "BitVecMut for word: set_block");
}

// ---- stores
fn chk_get_bit<V: BitVec>(v: &V) {
    let p: u64 = any();
    assume(p < v.bit_len());
    let n = nb::<V::Block>();
    require(v.get_bit(p) == bit(v.get_block((p / n) as usize), p % n), "get_bit agrees with get_block");
}
fn chk_get_bits<V: BitVec>(v: &V) {
    let s: u64 = any(); let c: usize = any();
    assume(c as u64 <= nb::<V::Block>());
    assume(s <= v.bit_len() && c as u64 <= v.bit_len() - s);
    require(v.get_bits(s, c) == ref_span(v, s, c as u64), "get_bits returns exactly the requested span");
}
fn chk_set_bit<V: BitVecMut>(v: &mut V) {
    let p: u64 = any(); let x: bool = any(); let k: usize = any(); let one: V::Block = any_word();
    assume(p < v.bit_len() && k < v.block_len());
    assume(bit(one, 0) == x);
    let n = nb::<V::Block>();
    let (len, bl, old) = (v.bit_len(), v.block_len(), v.get_block(k));
    v.set_bit(p, x);
    let new = v.get_block(k);
    require(v.bit_len() == len && v.block_len() == bl, "set_bit keeps the length");
    if k as u64 == p / n { require(new == splice(old, p % n, 1, one), "set_bit writes exactly the bit") }
    else { require(new == old, "set_bit leaves other blocks alone") }
}
fn chk_set_bits<V: BitVecMut>(v: &mut V) {
    let s: u64 = any(); let c: usize = any(); let x: V::Block = any_word(); let k: usize = any();
    let n = nb::<V::Block>();
    assume(c as u64 <= n);
    assume(s <= v.bit_len() && c as u64 <= v.bit_len() - s);
    assume(k < v.block_len());
    let (len, bl, old) = (v.bit_len(), v.block_len(), v.get_block(k));
    v.set_bits(s, c, x);
    let new = v.get_block(k);
    require(v.bit_len() == len && v.block_len() == bl, "set_bits keeps the length");
    let c = c as u64; let q = s / n; let o = s % n;
    if c == 0 { require(new == old, "an empty set_bits changes nothing"); return; }
    let first = if o + c <= n { c } else { n - o };
    if k as u64 == q { require(new == splice(old, o, first, x), "set_bits writes exactly the span in its first block") }
    else if k as u64 == q + 1 && o + c > n {
        require(new == splice(old, 0, c - first, extract(x, first, c - first)), "set_bits writes exactly the span in its second block")
    } else { require(new == old, "set_bits leaves other blocks alone") }
}
fn chk_set_block<V: BitVecMut>(v: &mut V) {
    let i: usize = any(); let x: V::Block = any_word(); let k: usize = any();
    let n = nb::<V::Block>();
    assume(i < v.block_len() && k < v.block_len());
    let (len, bl, old) = (v.bit_len(), v.block_len(), v.get_block(k));
    v.set_block(i, x);
    let new = v.get_block(k);
    require(v.bit_len() == len && v.block_len() == bl, "set_block keeps the length");
    if i != k { require(new == old, "set_block leaves other blocks alone"); }
    else {
        let used = if i + 1 == bl && len % n != 0 { len % n } else { n };
        require(extract(new, 0, used) == extract(x, 0, used), "set_block writes the whole block")
    }
}

macro_rules! store {
    ($m:ident, $mk:expr) => { pub mod $m {
        use super::*;
        pub fn h_get_bit<B: BlockType>() { let v = $mk; super::chk_get_bit(&v) }
        pub fn h_get_bits<B: BlockType>() { let v = $mk; super::chk_get_bits(&v) }
        pub fn h_set_bit<B: BlockType>() { let mut v = $mk; super::chk_set_bit(&mut v) }
        pub fn h_set_bits<B: BlockType>() { let mut v = $mk; super::chk_set_bits(&mut v) }
        pub fn h_set_block<B: BlockType>() { let mut v = $mk; super::chk_set_block(&mut v) }
        blocks! { [h_get_bit h_get_bits h_set_bit h_set_bits h_set_block] }
    } };
}
store!(bitvector, any_bv::<B>());
store!(vec, any::<Vec<B>>());
store!(by_block, any_by_block::<B>());
store!(mut_slice, any::<&mut [B]>());
store!(by_bit, any::<ByBit<B>>());
/// What the provided `get_block` of a bit-by-bit store must answer.
fn chk_block_of_bits<V: BitVec>(v: &V) {
    let n = nb::<V::Block>();
    let k: usize = any();
    assume(k < v.block_len());
    let w = v.get_block(k);
    let used = if (k as u64 + 1) * n <= v.bit_len() { n } else { v.bit_len() - k as u64 * n };
    require(zero_above(w, used), "a block has zeros above the last bit");
    let o: u64 = any();
    assume(o < used);
    require(bit(w, o) == v.get_bit(k as u64 * n + o), "get_block returns exactly the bits of the block");
}
pub fn h_by_bit_block<B: BlockType>() { let v = any::<ByBit<B>>(); chk_block_of_bits(&v) }
pub fn h_iv_block<B: BlockType>() { let v = any_iv::<B>(); chk_block_of_bits(&v) }
pub fn h_bv_block<B: BlockType>() { let v = any_bv::<B>(); chk_block_of_bits(&v) }
pub mod bools {
    use super::*;
    fn mk() -> Vec<bool> { any() }
    pub fn h_get_bit() { let v = mk(); super::chk_get_bit(&v) }
    pub fn h_get_bits() { let v = mk(); super::chk_get_bits(&v) }
    pub fn h_set_bit() { let mut v = mk(); super::chk_set_bit(&mut v) }
    pub fn h_t_set_bits() { let mut v = mk(); super::chk_set_bits(&mut v) }
    pub fn h_set_block() { let mut v = mk(); super::chk_set_block(&mut v) }
    pub fn h_block() { let v = mk(); super::chk_block_of_bits(&v) }
}
pub mod shared_slice {
    use super::*;
    pub fn h_get_bit<B: BlockType>() { let v = any::<&[B]>(); super::chk_get_bit(&v) }
    pub fn h_get_bits<B: BlockType>() { let v = any::<&[B]>(); super::chk_get_bits(&v) }
    blocks! { [h_get_bit h_get_bits] }
}
pub mod intvector_bits {
    use super::*;
    pub fn h_get_bit<B: BlockType>() { let v = any_iv::<B>(); super::chk_get_bit(&v) }
    pub fn h_get_bits<B: BlockType>() { let v = any_iv::<B>(); super::chk_get_bits(&v) }
    pub fn h_set_bit<B: BlockType>() { let mut v = any_iv::<B>(); super::chk_set_bit(&mut v) }
    pub fn h_set_bits<B: BlockType>() { let mut v = any_iv::<B>(); super::chk_set_bits(&mut v) }
    pub fn h_set_block<B: BlockType>() { let mut v = any_iv::<B>(); super::chk_set_block(&mut v) }
    blocks! { [h_get_bit h_get_bits h_set_bit h_set_bits h_set_block] }
}
blocks! { [h_by_bit_block h_iv_block h_bv_block h_word_get_bit h_word_with_bit h_word_get_bits h_word_bv_get_bits h_word_with_bits h_word_bv_set_bits] }
