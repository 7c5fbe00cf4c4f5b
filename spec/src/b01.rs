//! B01: accesses that leave the object panic; accesses inside it do not.
use crate::util::*;

fn outside(len: u64, s: u64, c: u64) -> bool { s > len || c > len - s }

// ---- words
pub fn h_word_get_bit<B: BlockType>() {
    let w: B = any_word(); let i: usize = any();
    if (i as u64) < nb::<B>() { BlockType::get_bit(w, i); return; }
    allow_panic(); BlockType::get_bit(w, i); must_panic()
}
pub fn h_word_with_bit<B: BlockType>() {
    let w: B = any_word(); let i: usize = any(); let x: bool = any();
    if (i as u64) < nb::<B>() { w.with_bit(i, x); return; }
    allow_panic(); w.with_bit(i, x); must_panic()
}
pub fn h_word_get_bits<B: BlockType>() {
    let w: B = any_word(); let s: usize = any(); let n: usize = any();
    if !outside(nb::<B>(), s as u64, n as u64) { BlockType::get_bits(w, s, n); return; }
    allow_panic(); BlockType::get_bits(w, s, n); must_panic()
}
pub fn h_word_with_bits<B: BlockType>() {
    let w: B = any_word(); let x: B = any_word(); let s: usize = any(); let n: usize = any();
    if !outside(nb::<B>(), s as u64, n as u64) { w.with_bits(s, n, x); return; }
    allow_panic(); w.with_bits(s, n, x); must_panic()
}

// ---- stores
fn chk_get_bit<V: BitVec>(v: &V) {
    let p: u64 = any();
    if p < v.bit_len() { v.get_bit(p); return; }
    allow_panic(); v.get_bit(p); must_panic()
}
fn chk_get_bits<V: BitVec>(v: &V) {
    let s: u64 = any(); let c: usize = any();
    assume(outside(v.bit_len(), s, c as u64) || c as u64 > nb::<V::Block>());
    allow_panic(); v.get_bits(s, c); must_panic()
}
fn chk_get_block<V: BitVec>(v: &V) {
    let i: usize = any();
    if i < v.block_len() { v.get_block(i); return; }
    allow_panic(); v.get_block(i); must_panic()
}
fn chk_set_bit<V: BitVecMut>(v: &mut V) {
    let p: u64 = any(); let x: bool = any();
    if p < v.bit_len() { v.set_bit(p, x); return; }
    allow_panic(); v.set_bit(p, x); must_panic()
}
fn chk_set_bits<V: BitVecMut>(v: &mut V) {
    let s: u64 = any(); let c: usize = any(); let x: V::Block = any_word();
    assume(outside(v.bit_len(), s, c as u64) || c as u64 > nb::<V::Block>());
    allow_panic(); v.set_bits(s, c, x); must_panic()
}
fn chk_set_block<V: BitVecMut>(v: &mut V) {
    let i: usize = any(); let x: V::Block = any_word();
    if i < v.block_len() { v.set_block(i, x); return; }
    allow_panic(); v.set_block(i, x); must_panic()
}
macro_rules! store {
    ($m:ident, $mk:expr) => { pub mod $m {
        use super::*;
        pub fn h_get_bit<B: BlockType<Block = B>>() { let v = $mk; super::chk_get_bit(&v) }
        pub fn h_get_bits<B: BlockType<Block = B>>() { let v = $mk; super::chk_get_bits(&v) }
        pub fn h_get_block<B: BlockType<Block = B>>() { let v = $mk; super::chk_get_block(&v) }
        pub fn h_set_bit<B: BlockType<Block = B>>() { let mut v = $mk; super::chk_set_bit(&mut v) }
        pub fn h_set_bits<B: BlockType<Block = B>>() { let mut v = $mk; super::chk_set_bits(&mut v) }
        pub fn h_set_block<B: BlockType<Block = B>>() { let mut v = $mk; super::chk_set_block(&mut v) }
        blocks! { [h_get_bit h_get_bits h_get_block h_set_bit h_set_bits h_set_block] }
    } };
}
store!(word, any_word::<B>());
store!(bitvector, any_bv::<B>());
store!(intvector_bits, any_iv::<B>());
store!(vec, any::<Vec<B>>());
store!(mut_slice, any::<&mut [B]>());
store!(by_block, any_by_block::<B>());
store!(by_bit, any::<ByBit<B>>());
pub mod shared_slice {
    use super::*;
    pub fn h_get_bit<B: BlockType>() { let v = any::<&[B]>(); super::chk_get_bit(&v) }
    pub fn h_get_bits<B: BlockType>() { let v = any::<&[B]>(); super::chk_get_bits(&v) }
    pub fn h_get_block<B: BlockType>() { let v = any::<&[B]>(); super::chk_get_block(&v) }
    blocks! { [h_get_bit h_get_bits h_get_block] }
}
pub mod bools {
    use super::*;
    pub fn h_get_bit() { let v = any::<Vec<bool>>(); super::chk_get_bit(&v) }
    pub fn h_get_bits() { let v = any::<Vec<bool>>(); super::chk_get_bits(&v) }
    pub fn h_get_block() { let v = any::<Vec<bool>>(); super::chk_get_block(&v) }
    pub fn h_set_bit() { let mut v = any::<Vec<bool>>(); super::chk_set_bit(&mut v) }
    pub fn h_set_bits() { let mut v = any::<Vec<bool>>(); super::chk_set_bits(&mut v) }
    pub fn h_set_block() { let mut v = any::<Vec<bool>>(); super::chk_set_block(&mut v) }
}
pub mod bit_slice {
    use super::*;
    macro_rules! sl { ($name:ident, $f:ident) => {
        pub fn $name<B: BlockType>() { let base = any_bv::<B>(); let r = any_range(&base); let v = BitSlice::new(&base, r); super::$f(&v) }
    } }
    macro_rules! slm { ($name:ident, $f:ident) => {
        pub fn $name<B: BlockType>() { let mut base = any_bv::<B>(); let r = any_range(&base); let mut v = BitSliceMut::new(&mut base, r); super::$f(&mut v) }
    } }
    sl!(h_get_bit, chk_get_bit); sl!(h_get_bits, chk_get_bits); sl!(h_get_block, chk_get_block);
    slm!(h_mut_get_bit, chk_get_bit); slm!(h_mut_get_bits, chk_get_bits); slm!(h_mut_get_block, chk_get_block);
    slm!(h_set_bit, chk_set_bit); slm!(h_set_bits, chk_set_bits); slm!(h_set_block, chk_set_block);
    blocks! { [h_get_bit h_get_bits h_get_block h_mut_get_bit h_mut_get_bits h_mut_get_block h_set_bit h_set_bits h_set_block] }
}

// ---- elements
pub fn h_int_get<B: BlockType>() {
    let v = any_iv::<B>(); let i: u64 = any();
    if i < v.len() { v.get(i); return; }
    allow_panic(); v.get(i); must_panic()
}
pub fn h_int_set<B: BlockType>() {
    let mut v = any_iv::<B>(); let i: u64 = any(); let x: B = any_word();
    if i < v.len() {
        assume(zero_above(x, v.element_bits() as u64));
        v.set(i, x); return;
    }
    allow_panic(); v.set(i, x); must_panic()
}
fn span(off: u64, eb: usize, i: u64) -> Option<u64> {
    i.checked_mul(eb as u64).and_then(|a| a.checked_add(off))
}
fn rnd_ok<B: BlockType>(v: &IntVector<B>, off: u64, eb: usize, i: u64) -> bool {
    let len = v.len() * v.element_bits() as u64;
    match span(off, eb, i) { Some(s) => !outside(len, s, eb as u64), None => false }
}
pub fn h_int_get_random<B: BlockType>() {
    let v = any_iv::<B>(); let off: u64 = any(); let i: u64 = any(); let eb: usize = any();
    assume(eb as u64 <= nb::<B>() + 2);
    split(eb as u64);
    if rnd_ok(&v, off, eb, i) && eb as u64 <= nb::<B>() { return; }
    allow_panic(); v.get_random(off, eb, i); must_panic()
}
pub fn h_int_set_random<B: BlockType>() {
    let mut v = any_iv::<B>(); let off: u64 = any(); let i: u64 = any(); let eb: usize = any(); let x: B = any_word();
    assume(eb as u64 <= nb::<B>() + 2);
    split(eb as u64);
    if rnd_ok(&v, off, eb, i) && eb as u64 <= nb::<B>() { return; }
    allow_panic(); v.set_random(off, eb, i, x); must_panic()
}
blocks! { [h_word_get_bit h_word_with_bit h_word_get_bits h_word_with_bits h_int_get h_int_set h_int_get_random h_int_set_random] }
