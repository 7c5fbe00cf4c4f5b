pub use crate::v::*;
pub use succinct::storage::{Address, BlockType};
pub use succinct::bit_vec::*;
pub use succinct::int_vec::*;

pub fn nb<B>() -> u64 { 8 * std::mem::size_of::<B>() as u64 }
/// `ceil(bits / nbits)`, without overflow
pub fn blocks_for<B>(bits: u64) -> u64 {
    let n = nb::<B>();
    bits / n + if bits % n == 0 { 0 } else { 1 }
}
/// Reference value of a span of at most one block, read through `get_block`.
pub fn ref_span<V: BitVec>(v: &V, start: u64, count: u64) -> V::Block {
    let n = nb::<V::Block>();
    let zero = zero_word::<V::Block>();
    if count == 0 { return zero; }
    let k = start / n;
    let o = start % n;
    let w0 = v.get_block(k as usize);
    if o + count <= n { return extract(w0, o, count); }
    let w1 = v.get_block(k as usize + 1);
    splice(extract(w0, o, n - o), n - o, o + count - n, w1)
}
pub fn zero_word<B: BlockType>() -> B { B::zero() }
/// Canonical storage: exactly the blocks needed, no stray bits.
pub fn inv<V: BitVec>(v: &V) -> bool {
    let n = nb::<V::Block>();
    let len = v.bit_len();
    if stored_blocks(v) != blocks_for::<V::Block>(len) { return false; }
    if len % n == 0 { return true; }
    zero_above(stored_block::<V, V::Block>(v, len / n), len % n)
}
/// An arbitrary bit vector in canonical storage (the class of states every operation keeps: B04).
pub fn any_bv<B: BlockType>() -> BitVector<B> {
    let mut v: BitVector<B> = any();
    let len = v.bit_len();
    assume(stored_blocks(&v) == blocks_for::<B>(len));
    gate_tail::<_, B>(&mut v, len);
    v
}
/// An arbitrary bit vector with the right number of blocks (stray bits allowed).
pub fn any_bv_loose<B: BlockType>() -> BitVector<B> {
    let v: BitVector<B> = any();
    assume(stored_blocks(&v) == blocks_for::<B>(v.bit_len()));
    v
}
/// A third-party store implementing only `get_block` / `set_block`.
pub struct ByBlock<B> { pub bits: u64, pub v: Vec<B> }
impl<B: BlockType> BitVec for ByBlock<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.bits }
    fn get_block(&self, i: usize) -> B { self.v[i] }
}
impl<B: BlockType> BitVecMut for ByBlock<B> {
    fn set_block(&mut self, i: usize, x: B) { self.v[i] = x; }
}
pub fn any_by_block<B: BlockType>() -> ByBlock<B> {
    let s: ByBlock<B> = any();
    assume(s.v.len() as u64 == blocks_for::<B>(s.bits));
    s
}

/// A third-party store implementing only `get_bit` / `set_bit`.
pub struct ByBit<B> { pub v: Vec<bool>, pub p: std::marker::PhantomData<B> }
impl<B: BlockType> BitVec for ByBit<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.v.len() as u64 }
    fn get_bit(&self, i: u64) -> bool { self.v[i as usize] }
}
impl<B: BlockType> BitVecMut for ByBit<B> {
    fn set_bit(&mut self, i: u64, x: bool) { self.v[i as usize] = x; }
}
/// An arbitrary integer vector in canonical storage.
pub fn any_iv<B: BlockType>() -> IntVector<B> {
    let mut v: IntVector<B> = any();
    let eb = v.element_bits();
    assume(eb >= 1 && eb as u64 <= nb::<B>());
    assume(v.len() <= 1 << 57);
    let bits = v.len() * eb as u64;
    assume(stored_blocks(&v) == blocks_for::<B>(bits));
    gate_tail::<_, B>(&mut v, bits);
    v
}
/// An arbitrary in-range span of `v`.
pub fn any_range<V: BitVec + ?Sized>(v: &V) -> std::ops::Range<u64> {
    let s: u64 = any(); let e: u64 = any();
    assume(s <= e && e <= v.bit_len());
    s..e
}
/// The call before this point was out of range and must have panicked.
pub fn must_panic() { require(false, "an out-of-range access is not rejected") }
/// Block `k` of `old` with bits `s .. s+c` replaced by `x`
pub fn put<B: BlockType>(old: B, k: u64, s: u64, c: u64, x: B) -> B {
    let n = nb::<B>();
    if c == 0 { return old; }
    let q = s / n; let o = s % n;
    let first = if o + c <= n { c } else { n - o };
    if k == q { splice(old, o, first, x) }
    else if k == q + 1 && o + c > n { splice(old, 0, c - first, extract(x, first, c - first)) }
    else { old }
}
