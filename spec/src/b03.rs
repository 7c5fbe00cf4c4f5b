//! B03: bit vectors are plain sequences of bits under every sizing operation.
use crate::util::*;

/// `v` has `len` bits; those below `keep` are those of `old`, the others are `fill`.
/// Compared block by block at an arbitrary block.
fn check<B: BlockType>(v: &BitVector<B>, old: &BitVector<B>, len: u64, keep: u64, fill: bool) {
    require(v.bit_len() == len, "the length is exactly the requested one");
    require(v.block_len() as u64 == blocks_for::<B>(len), "the block length follows the bit length");
    let k: usize = any();
    assume(k < v.block_len());
    let n = nb::<B>();
    let base = k as u64 * n;
    let got = v.get_block(k);
    let used = if len - base < n { len - base } else { n };
    let kept = if keep <= base { 0 } else if keep - base < used { keep - base } else { used };
    if kept > 0 {
        let o = old.get_block(k);
        require(extract(got, 0, kept) == extract(o, 0, kept), "kept bits are unchanged");
    }
    if kept < used {
        let f = if fill { !B::zero() } else { B::zero() };
        require(extract(got, kept, used - kept) == extract(f, 0, used - kept), "added bits have the fill value");
    }
}
fn same<B: BlockType>(v: &BitVector<B>, old: &BitVector<B>) { check(v, old, old.bit_len(), old.bit_len(), false) }

pub fn h_push_bit<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v); let x: bool = any();
    let len = old.bit_len();
    v.push_bit(x);
    check(&v, &old, len + 1, len, x);
    require(v.get_bit(len) == x, "the pushed bit is the last one");
}
pub fn h_pop_bit<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v);
    let len = old.bit_len();
    let r = v.pop_bit();
    if len == 0 { require(r.is_none() && v.bit_len() == 0 && v.block_len() == 0, "nothing to pop"); return; }
    require(r == Some(old.get_bit(len - 1)), "pop returns the last bit");
    check(&v, &old, len - 1, len - 1, false);
}
pub fn h_push_block<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v); let x: B = any_word();
    let len = old.bit_len(); let bl = old.block_len();
    finish_within(50_000);
    v.push_block(x);
    finish_within(0);
    // pads with zeros up to a block boundary, then appends the block
    let n = nb::<B>();
    require(v.bit_len() == (bl as u64 + 1) * n && v.block_len() == bl + 1, "push_block appends one block");
    require(v.get_block(bl) == x, "the pushed block is the last one");
    let k: usize = any();
    assume(k < bl);
    let o = if k as u64 == len / n { extract(old.get_block(k), 0, len % n) } else { old.get_block(k) };
    require(v.get_block(k) == o, "push_block keeps the earlier bits and pads with zeros");
}
pub fn h_truncate<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v); let n: u64 = any();
    let len = old.bit_len();
    v.truncate(n);
    let l = if n < len { n } else { len };
    check(&v, &old, l, l, false);
}
pub fn h_block_truncate<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v); let n: usize = any();
    v.block_truncate(n);
    if n >= old.block_len() { same(&v, &old) }
    else { check(&v, &old, n as u64 * nb::<B>(), n as u64 * nb::<B>(), false) }
}
pub fn h_resize<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v); let n: u64 = any(); let x: bool = any();
    let len = old.bit_len();
    assume(n <= 1 << 50);
    v.resize(n, x);
    check(&v, &old, n, if n < len { n } else { len }, x);
}
pub fn h_block_resize<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v); let n: usize = any(); let x: B = any_word();
    assume(n as u64 <= 1 << 50);
    let len = old.bit_len(); let bl = old.block_len(); let w = nb::<B>();
    v.block_resize(n, x);
    require(v.bit_len() == n as u64 * w && v.block_len() == n, "block_resize gives exactly the requested blocks");
    let k: usize = any();
    assume(k < n);
    if k >= bl { require(v.get_block(k) == x, "added blocks have the fill value") }
    else {
        let o = if k as u64 == len / w { extract(old.get_block(k), 0, len % w) } else { old.get_block(k) };
        require(v.get_block(k) == o, "kept blocks are unchanged")
    }
}
pub fn h_with_fill<B: BlockType>() {
    let n: u64 = any(); let x: bool = any();
    assume(n <= 1 << 50);
    let v = BitVector::<B>::with_fill(n, x);
    check(&v, &v, n, 0, x);
}
pub fn h_block_with_fill<B: BlockType>() {
    let n: usize = any(); let x: B = any_word();
    assume(n as u64 <= 1 << 50);
    let v = BitVector::<B>::block_with_fill(n, x);
    require(v.bit_len() == n as u64 * nb::<B>() && v.block_len() == n, "block_with_fill has exactly the requested blocks");
    let k: usize = any();
    assume(k < n);
    require(v.get_block(k) == x, "every block has the fill value");
}
pub fn h_clear<B: BlockType>() {
    let mut v = any_bv::<B>();
    v.clear();
    require(v.bit_len() == 0 && v.block_len() == 0, "clear empties the vector");
    require(v.pop_bit().is_none(), "a cleared vector has nothing to pop");
}
pub fn h_new<B: BlockType>() {
    let v = BitVector::<B>::new();
    require(v.bit_len() == 0 && v.block_len() == 0, "new is empty");
    let v: BitVector<B> = Default::default();
    require(v.bit_len() == 0 && v.block_len() == 0, "default is empty");
    let c: u64 = any();
    assume(c <= 1 << 50);
    let v = BitVector::<B>::with_capacity(c);
    require(v.bit_len() == 0 && v.block_len() == 0, "with_capacity is empty");
    require(v.capacity() >= c && v.block_capacity() as u64 >= blocks_for::<B>(c), "with_capacity provides the capacity");
    let c: usize = any();
    assume(c as u64 <= 1 << 50);
    let v = BitVector::<B>::block_with_capacity(c);
    require(v.bit_len() == 0 && v.block_len() == 0, "block_with_capacity is empty");
    require(v.block_capacity() >= c && v.capacity() >= c as u64 * nb::<B>(), "block_with_capacity provides the capacity");
}
fn any_small() -> u64 { let a: u64 = any(); assume(a <= 1 << 50); a }
pub fn h_reserve<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v); let a = any_small();
    v.reserve(a);
    require(v.capacity() >= old.bit_len() + a, "reserve provides the capacity");
    same(&v, &old);
}
pub fn h_reserve_exact<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v); let a = any_small();
    v.reserve_exact(a);
    require(v.capacity() >= old.bit_len() + a, "reserve_exact provides the capacity");
    same(&v, &old);
}
pub fn h_block_reserve<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v); let a = any_small() as usize;
    v.block_reserve(a);
    require(v.block_capacity() >= old.block_len() + a, "block_reserve provides the capacity");
    same(&v, &old);
}
pub fn h_block_reserve_exact<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v); let a = any_small() as usize;
    v.block_reserve_exact(a);
    require(v.block_capacity() >= old.block_len() + a, "block_reserve_exact provides the capacity");
    same(&v, &old);
}
pub fn h_shrink_to_fit<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v);
    v.shrink_to_fit();
    require(v.block_capacity() <= old.block_capacity(), "shrink_to_fit never grows the allocation");
    same(&v, &old);
}
pub fn h_align_block<B: BlockType>() {
    let mut v = any_bv::<B>(); let old = snapshot(&v); let x: bool = any();
    finish_within(50_000);
    v.align_block(x);
    finish_within(0);
    let len = old.bit_len();
    check(&v, &old, blocks_for::<B>(len) * nb::<B>(), len, x);
}
impl<B: BlockType> BitVecPush for ByBit<B> {
    fn push_bit(&mut self, x: bool) { self.v.push(x) }
    fn pop_bit(&mut self) -> Option<bool> { self.v.pop() }
}
fn by_bit<B: BlockType>() -> ByBit<B> { let s: ByBit<B> = any(); assume(s.v.len() <= 1 << 50); s }
pub fn h_by_bit_push_block<B: BlockType>() {
    let mut v = by_bit::<B>(); let old = snapshot(&v); let x: B = any_word(); let k: usize = any();
    finish_within(50_000);
    v.push_block(x);
    finish_within(0);
    let n = nb::<B>(); let al = blocks_for::<B>(old.v.len() as u64) * n;
    require(v.bit_len() == al + n, "push_block appends one block after padding");
    assume(k < v.v.len());
    let want = if k < old.v.len() { old.v[k] } else if (k as u64) < al { false } else { bit(x, k as u64 - al) };
    require(v.v[k] == want, "push_block pads with zeros and appends the block, least significant bit first");
}
pub fn h_by_bit_align_block<B: BlockType>() {
    let mut v = by_bit::<B>(); let old = snapshot(&v); let x: bool = any(); let k: usize = any();
    finish_within(50_000);
    v.align_block(x);
    finish_within(0);
    require(v.bit_len() == blocks_for::<B>(old.v.len() as u64) * nb::<B>(), "align_block stops at the next block boundary");
    assume(k < v.v.len());
    require(v.v[k] == if k < old.v.len() { old.v[k] } else { x }, "align_block pads with the given bit");
}
// ---- the provided methods of BitVecPush, on a store which pushes single bits
pub mod provided {
    use super::*;
    fn any_bools() -> Vec<bool> { let v = any::<Vec<bool>>(); assume(v.len() <= 1 << 50); v }
    pub fn h_push_bit() {
        let mut v = any_bools(); let old = snapshot(&v); let x: bool = any(); let k: usize = any();
        v.push_bit(x);
        require(v.len() == old.len() + 1 && v.bit_len() == v.len() as u64, "push_bit appends one bit");
        require(v.get_bit(old.len() as u64) == x, "the pushed bit is the last one");
        assume(k < old.len());
        require(v[k] == old[k], "push_bit keeps the earlier bits");
    }
    pub fn h_pop_bit() {
        let mut v = any_bools(); let old = snapshot(&v); let k: usize = any();
        let r = v.pop_bit();
        if old.len() == 0 { require(r.is_none() && v.len() == 0, "nothing to pop"); return; }
        require(r == Some(old[old.len() - 1]) && v.len() == old.len() - 1, "pop returns the last bit");
        assume(k < v.len());
        require(v[k] == old[k], "pop_bit keeps the earlier bits");
    }
    pub fn h_push_block() {
        let mut v = any_bools(); let old = snapshot(&v); let x: u8 = any_word(); let k: usize = any();
        finish_within(50_000);
        v.push_block(x);
        finish_within(0);
        let al = blocks_for::<u8>(old.len() as u64) * 8;
        require(v.len() as u64 == al + 8, "push_block appends one block after padding");
        assume(k < v.len());
        let want = if k < old.len() { old[k] } else if (k as u64) < al { false } else { bit(x, k as u64 - al) };
        require(v[k] == want, "push_block pads with zeros and appends the block, least significant bit first");
    }
    pub fn h_align_block() {
        let mut v = any_bools(); let old = snapshot(&v); let x: bool = any(); let k: usize = any();
        finish_within(50_000);
        v.align_block(x);
        finish_within(0);
        require(v.len() as u64 == blocks_for::<u8>(old.len() as u64) * 8, "align_block stops at the next block boundary");
        assume(k < v.len());
        require(v[k] == if k < old.len() { old[k] } else { x }, "align_block pads with the given bit");
    }
}
blocks! { [h_push_bit h_pop_bit h_push_block h_truncate h_block_truncate h_resize h_block_resize h_with_fill h_block_with_fill h_clear h_new
           h_reserve h_reserve_exact h_block_reserve h_block_reserve_exact h_shrink_to_fit h_align_block h_by_bit_push_block h_by_bit_align_block] }
