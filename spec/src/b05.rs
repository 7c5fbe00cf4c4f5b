//! B05: oversized requests and values are rejected, never wrapped or truncated.
use crate::util::*;

fn cap_bits<T, B>(v: &T) -> u128 { block_capacity(v) as u128 * nb::<B>() as u128 }
fn rejects() { require(false, "a request that cannot be represented is not rejected") }

// ---- bit vectors: any request that returns gave exactly what was asked for
pub fn h_bv_with_capacity<B: BlockType>() {
    allow_panic(); let n: u64 = any();
    let v = BitVector::<B>::with_capacity(n);
    require(cap_bits::<_, B>(&v) >= n as u128, "with_capacity returns only with the whole capacity");
}
pub fn h_bv_block_with_capacity<B: BlockType>() {
    allow_panic(); let n: usize = any();
    let v = BitVector::<B>::block_with_capacity(n);
    require(block_capacity(&v) >= n as u64, "block_with_capacity returns only with the whole capacity");
}
pub fn h_bv_with_fill<B: BlockType>() {
    allow_panic(); let n: u64 = any();
    let v = BitVector::<B>::with_fill(n, any());
    require(v.bit_len() == n && stored_blocks(&v) == blocks_for::<B>(n), "with_fill returns only with the whole length");
}
pub fn h_bv_block_with_fill<B: BlockType>() {
    allow_panic(); let n: usize = any();
    let v = BitVector::<B>::block_with_fill(n, any_word());
    require(stored_blocks(&v) == n as u64 && v.bit_len() as u128 == n as u128 * nb::<B>() as u128, "block_with_fill returns only with the whole length");
}
pub fn h_bv_resize<B: BlockType>() {
    allow_panic(); let mut v = any_bv::<B>(); let n: u64 = any();
    v.resize(n, any());
    require(v.bit_len() == n && stored_blocks(&v) == blocks_for::<B>(n), "resize returns only with the whole length");
}
pub fn h_bv_block_resize<B: BlockType>() {
    allow_panic(); let mut v = any_bv::<B>(); let n: usize = any();
    v.block_resize(n, any_word());
    require(stored_blocks(&v) == n as u64 && v.bit_len() as u128 == n as u128 * nb::<B>() as u128, "block_resize returns only with the whole length");
}
pub fn h_bv_reserve<B: BlockType>() {
    allow_panic(); let mut v = any_bv::<B>(); let n: u64 = any(); let len = v.bit_len();
    v.reserve(n);
    require(cap_bits::<_, B>(&v) >= len as u128 + n as u128, "reserve returns only with the whole capacity");
}
pub fn h_bv_reserve_exact<B: BlockType>() {
    allow_panic(); let mut v = any_bv::<B>(); let n: u64 = any(); let len = v.bit_len();
    v.reserve_exact(n);
    require(cap_bits::<_, B>(&v) >= len as u128 + n as u128, "reserve_exact returns only with the whole capacity");
}
pub fn h_bv_block_reserve<B: BlockType>() {
    allow_panic(); let mut v = any_bv::<B>(); let n: usize = any(); let bl = v.block_len();
    v.block_reserve(n);
    require(block_capacity(&v) as u128 >= bl as u128 + n as u128, "block_reserve returns only with the whole capacity");
}
pub fn h_bv_block_reserve_exact<B: BlockType>() {
    allow_panic(); let mut v = any_bv::<B>(); let n: usize = any(); let bl = v.block_len();
    v.block_reserve_exact(n);
    require(block_capacity(&v) as u128 >= bl as u128 + n as u128, "block_reserve_exact returns only with the whole capacity");
}

// ---- integer vectors
fn eb<B>() -> usize { let e: usize = any(); assume(e >= 1 && e as u64 <= nb::<B>()); split(e as u64) as usize }
fn split_eb<B: BlockType>(v: &IntVector<B>) -> usize { split(v.element_bits() as u64) as usize }
pub fn h_iv_with_capacity<B: BlockType>() {
    allow_panic(); let e = eb::<B>(); let n: u64 = any();
    let v = IntVector::<B>::with_capacity(e, n);
    require(cap_bits::<_, B>(&v) >= n as u128 * e as u128, "with_capacity returns only with the whole capacity");
}
pub fn h_iv_block_with_capacity<B: BlockType>() {
    allow_panic(); let n: usize = any();
    let v = IntVector::<B>::block_with_capacity(eb::<B>(), n);
    require(block_capacity(&v) >= n as u64, "block_with_capacity returns only with the whole capacity");
}
pub fn h_iv_block_with_fill<B: BlockType>() {
    allow_panic(); let n: usize = any(); let e = eb::<B>();
    let v = IntVector::<B>::block_with_fill(e, n, any_word());
    require(stored_blocks(&v) == n as u64, "block_with_fill returns only with all the blocks");
    let bits = v.len() as u128 * e as u128; let all = n as u128 * nb::<B>() as u128;
    require(bits <= all && all - bits < e as u128, "block_with_fill holds every element that fits");
}
pub fn h_iv_block_resize<B: BlockType>() {
    allow_panic(); let mut v = any_iv::<B>(); let n: usize = any(); let e = split_eb(&v);
    v.block_resize(n, any_word());
    require(stored_blocks(&v) == n as u64, "block_resize returns only with all the blocks");
    let bits = v.len() as u128 * e as u128; let all = n as u128 * nb::<B>() as u128;
    require(bits <= all && all - bits < e as u128, "block_resize holds every element that fits");
}
pub fn h_iv_reserve<B: BlockType>() {
    allow_panic(); let mut v = any_iv::<B>(); let n: u64 = any(); let len = v.len(); let e = split_eb(&v);
    v.reserve(n);
    require(cap_bits::<_, B>(&v) >= (len as u128 + n as u128) * e as u128, "reserve returns only with the whole capacity");
}
pub fn h_iv_reserve_exact<B: BlockType>() {
    allow_panic(); let mut v = any_iv::<B>(); let n: u64 = any(); let len = v.len(); let e = split_eb(&v);
    v.reserve_exact(n);
    require(cap_bits::<_, B>(&v) >= (len as u128 + n as u128) * e as u128, "reserve_exact returns only with the whole capacity");
}
pub fn h_iv_block_reserve<B: BlockType>() {
    allow_panic(); let mut v = any_iv::<B>(); let n: usize = any(); let bl = v.block_len();
    v.block_reserve(n);
    require(block_capacity(&v) as u128 >= bl as u128 + n as u128, "block_reserve returns only with the whole capacity");
}
pub fn h_iv_block_reserve_exact<B: BlockType>() {
    allow_panic(); let mut v = any_iv::<B>(); let n: usize = any(); let bl = v.block_len();
    v.block_reserve_exact(n);
    require(block_capacity(&v) as u128 >= bl as u128 + n as u128, "block_reserve_exact returns only with the whole capacity");
}
/// more bits than can be indexed
fn too_long(n: u64, e: usize) -> bool { n as u128 * e as u128 > u64::MAX as u128 }
pub fn h_iv_with_fill_overflow<B: BlockType>() {
    let e = eb::<B>(); let n: u64 = any();
    assume(too_long(n, e));
    allow_panic(); IntVector::<B>::with_fill(e, n, B::zero()); rejects()
}
pub fn h_iv_resize_overflow<B: BlockType>() {
    let mut v = any_iv::<B>(); let e = split_eb(&v); let n: u64 = any();
    assume(too_long(n, e));
    allow_panic(); v.resize(n, B::zero()); rejects()
}
// element widths
pub fn h_iv_element_bits<B: BlockType>() {
    let e: usize = any(); let k: u64 = any();
    assume(e == 0 || e as u64 > nb::<B>());
    assume(k <= 3);
    allow_panic();
    match split(k) {
        0 => { IntVector::<B>::new(e); }
        1 => { IntVector::<B>::with_capacity(e, any()); }
        2 => { IntVector::<B>::block_with_capacity(e, any()); }
        _ => { IntVector::<B>::with_fill(e, any(), any_word()); }
    }
    require(false, "an impossible element width is not rejected")
}
pub fn h_iv_element_bits_fill<B: BlockType>() {
    let e: usize = any();
    assume(e == 0 || e as u64 > nb::<B>());
    assume(e as u64 <= nb::<B>() + 2);
    split(e as u64);
    allow_panic();
    IntVector::<B>::block_with_fill(e, any(), any_word());
    require(false, "an impossible element width is not rejected")
}
// values
fn misfit<B: BlockType>(e: usize) -> B { let x: B = any_word(); assume(!zero_above(x, e as u64)); x }
fn truncated() { require(false, "a value wider than the element is not rejected") }
pub fn h_iv_push_misfit<B: BlockType>() {
    let mut v = any_iv::<B>(); let x = misfit(split_eb(&v));
    allow_panic(); v.push(x); truncated()
}
pub fn h_iv_set_misfit<B: BlockType>() {
    let mut v = any_iv::<B>(); let i: u64 = any(); let x = misfit(split_eb(&v));
    allow_panic(); v.set(i, x); truncated()
}
pub fn h_iv_set_random_misfit<B: BlockType>() {
    let mut v = any_iv::<B>(); let i: u64 = any(); let off: u64 = any(); let e = eb::<B>(); let x = misfit(e);
    allow_panic(); v.set_random(off, e, i, x); truncated()
}
pub fn h_iv_with_fill_misfit<B: BlockType>() {
    let e = eb::<B>(); let n: u64 = any(); let x = misfit::<B>(e);
    assume(n >= 1 && n <= 3);
    allow_panic(); IntVector::<B>::with_fill(e, n, x); truncated()
}
pub fn h_iv_resize_misfit<B: BlockType>() {
    let mut v = any_iv::<B>(); let n: u64 = any(); let x = misfit(split_eb(&v));
    assume(n > v.len() && n - v.len() <= 3);
    allow_panic(); v.resize(n, x); truncated()
}
blocks! { [h_bv_with_capacity h_bv_block_with_capacity h_bv_with_fill h_bv_block_with_fill h_bv_resize h_bv_block_resize h_bv_reserve
           h_bv_reserve_exact h_bv_block_reserve h_bv_block_reserve_exact h_iv_with_capacity h_iv_block_with_capacity h_iv_block_with_fill
           h_iv_block_resize h_iv_reserve h_iv_reserve_exact h_iv_block_reserve h_iv_block_reserve_exact h_iv_with_fill_overflow
           h_iv_resize_overflow h_iv_element_bits h_iv_element_bits_fill h_iv_push_misfit h_iv_set_misfit h_iv_set_random_misfit
           h_iv_with_fill_misfit h_iv_resize_misfit] }
