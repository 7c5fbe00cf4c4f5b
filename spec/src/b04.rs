//! B04: storage stays canonical, hence equality, order and hash depend on contents alone.
use crate::util::*;
use std::hash::{Hash, Hasher};
use std::cmp::Ordering;

const C: &'static str = "storage is canonical: exactly the blocks needed, zero above the last element";
fn can<V: BitVec>(v: &V) { require(inv(v), C) }
fn small() -> u64 { let a: u64 = any(); assume(a <= 1 << 50); a }

// ---- bit vectors
pub fn h_bv_ctor<B: BlockType>() {
    can(&BitVector::<B>::new());
    can::<BitVector<B>>(&Default::default());
    can(&BitVector::<B>::with_capacity(small()));
    can(&BitVector::<B>::block_with_capacity(small() as usize));
}
pub fn h_bv_with_fill<B: BlockType>() { can(&BitVector::<B>::with_fill(small(), any())) }
pub fn h_bv_block_with_fill<B: BlockType>() { can(&BitVector::<B>::block_with_fill(small() as usize, any_word())) }
/// `v` has the contents of `of`.
fn copy<V: BitVec>(v: &V, of: &V) {
    require(v.bit_len() == of.bit_len() && v.block_len() == of.block_len(), "a clone has the length of the original");
    let k: usize = any();
    assume(k < of.block_len());
    require(v.get_block(k) == of.get_block(k), "a clone has the contents of the original");
}
pub fn h_bv_clone<B: BlockType>() { let v = any_bv::<B>(); let c = v.clone(); can(&c); copy(&c, &v) }
pub fn h_bv_clone_from<B: BlockType>() { let v = any_bv::<B>(); let mut c = any_bv::<B>(); c.clone_from(&v); can(&c); copy(&c, &v) }
pub fn h_bv_push_bit<B: BlockType>() { let mut v = any_bv::<B>(); v.push_bit(any()); can(&v) }
pub fn h_bv_pop_bit<B: BlockType>() { let mut v = any_bv::<B>(); v.pop_bit(); can(&v) }
pub fn h_bv_push_block<B: BlockType>() { let mut v = any_bv::<B>(); v.push_block(any_word()); can(&v) }
pub fn h_bv_align_block<B: BlockType>() { let mut v = any_bv::<B>(); v.align_block(any()); can(&v) }
pub fn h_bv_truncate<B: BlockType>() { let mut v = any_bv::<B>(); v.truncate(any()); can(&v) }
pub fn h_bv_block_truncate<B: BlockType>() { let mut v = any_bv::<B>(); v.block_truncate(any()); can(&v) }
pub fn h_bv_resize<B: BlockType>() { let mut v = any_bv::<B>(); v.resize(small(), any()); can(&v) }
pub fn h_bv_block_resize<B: BlockType>() { let mut v = any_bv::<B>(); v.block_resize(small() as usize, any_word()); can(&v) }
pub fn h_bv_clear<B: BlockType>() { let mut v = any_bv::<B>(); v.clear(); can(&v) }
pub fn h_bv_reserve<B: BlockType>() {
    let mut v = any_bv::<B>(); v.reserve(small()); can(&v);
    v.reserve_exact(small()); can(&v);
    v.block_reserve(small() as usize); can(&v);
    v.block_reserve_exact(small() as usize); can(&v);
    v.shrink_to_fit(); can(&v)
}
pub fn h_bv_set_bit<B: BlockType>() {
    let mut v = any_bv::<B>(); let p: u64 = any();
    assume(p < v.bit_len());
    v.set_bit(p, any()); can(&v)
}
pub fn h_bv_set_bits<B: BlockType>() {
    let mut v = any_bv::<B>(); let s: u64 = any(); let c: usize = any();
    assume(c as u64 <= nb::<B>());
    assume(s <= v.bit_len() && c as u64 <= v.bit_len() - s);
    v.set_bits(s, c, any_word()); can(&v)
}
pub fn h_bv_set_block<B: BlockType>() {
    let mut v = any_bv::<B>(); let i: usize = any();
    assume(i < v.block_len());
    v.set_block(i, any_word()); can(&v)
}

// ---- integer vectors: `wide` fixes no width, every width is analysed
fn iv_inv<B: BlockType>(v: &IntVector<B>) {
    let n = nb::<B>();
    let len = v.len() * v.element_bits() as u64;
    require(stored_blocks(v) == blocks_for::<B>(len), C);
    if len % n != 0 { require(zero_above(stored_block::<_, B>(v, len / n), len % n), C); }
}
fn any_eb<B>() -> usize {
    let eb: usize = any();
    assume(eb >= 1 && eb as u64 <= nb::<B>());
    split(eb as u64) as usize
}
fn val<B: BlockType>(eb: usize) -> B { let x: B = any_word(); assume(zero_above(x, eb as u64)); x }
pub fn h_iv_ctor<B: BlockType>() {
    let eb = any_eb::<B>();
    iv_inv(&IntVector::<B>::new(eb));
    iv_inv(&IntVector::<B>::with_capacity(eb, small()));
    iv_inv(&IntVector::<B>::block_with_capacity(eb, small() as usize));
}
pub fn h_iv_block_with_fill<B: BlockType>() { iv_inv(&IntVector::<B>::block_with_fill(any_eb::<B>(), small() as usize, any_word())) }
pub fn h_iv_with_fill<B: BlockType>() {
    let eb = any_eb::<B>(); let n: u64 = any();
    assume(n <= 4);
    iv_inv(&IntVector::<B>::with_fill(eb, n, val(eb)))
}
fn iv_copy<B: BlockType>(v: &IntVector<B>, of: &IntVector<B>) {
    require(v.element_bits() == of.element_bits() && v.len() == of.len(), "a clone has the length of the original");
    iv_inv(v); copy(v, of)
}
pub fn h_iv_clone<B: BlockType>() { let v = any_iv::<B>(); iv_copy(&v.clone(), &v) }
pub fn h_iv_clone_from<B: BlockType>() { let v = any_iv::<B>(); let mut c = any_iv::<B>(); c.clone_from(&v); iv_copy(&c, &v) }
pub fn h_iv_push<B: BlockType>() { let mut v = any_iv::<B>(); let x = val(v.element_bits()); v.push(x); iv_inv(&v) }
pub fn h_iv_pop<B: BlockType>() { let mut v = any_iv::<B>(); v.pop(); iv_inv(&v) }
pub fn h_iv_truncate<B: BlockType>() { let mut v = any_iv::<B>(); v.truncate(any()); iv_inv(&v) }
pub fn h_iv_block_truncate<B: BlockType>() { let mut v = any_iv::<B>(); v.block_truncate(any()); iv_inv(&v) }
pub fn h_iv_resize<B: BlockType>() {
    let mut v = any_iv::<B>(); let n = small(); let x = val(split(v.element_bits() as u64) as usize);
    assume(n <= v.len() || n - v.len() <= 3);
    v.resize(n, x); iv_inv(&v)
}
pub fn h_iv_block_resize<B: BlockType>() { let mut v = any_iv::<B>(); v.block_resize(small() as usize, any_word()); iv_inv(&v) }
pub fn h_iv_clear<B: BlockType>() { let mut v = any_iv::<B>(); v.clear(); iv_inv(&v) }
pub fn h_iv_reserve<B: BlockType>() { let mut v = any_iv::<B>(); v.reserve(small()); iv_inv(&v) }
pub fn h_iv_reserve_exact<B: BlockType>() { let mut v = any_iv::<B>(); v.reserve_exact(small()); iv_inv(&v) }
pub fn h_iv_block_reserve<B: BlockType>() {
    let mut v = any_iv::<B>(); v.block_reserve(small() as usize); iv_inv(&v);
    v.block_reserve_exact(small() as usize); iv_inv(&v);
    v.shrink_to_fit(); iv_inv(&v)
}
pub fn h_iv_set<B: BlockType>() {
    let mut v = any_iv::<B>(); let i: u64 = any();
    assume(i < v.len());
    let x = val(v.element_bits());
    v.set(i, x); iv_inv(&v)
}
pub fn h_iv_set_random<B: BlockType>() {
    let mut v = any_iv::<B>(); let off: u64 = any(); let eb = any_eb::<B>();
    assume(off <= v.bit_len() && eb as u64 <= v.bit_len() - off);
    v.set_random(off, eb, 0, val(eb)); iv_inv(&v)
}
pub fn h_iv_set_bit<B: BlockType>() {
    let mut v = any_iv::<B>(); let p: u64 = any();
    assume(p < v.bit_len());
    v.set_bit(p, any()); iv_inv(&v)
}
pub fn h_iv_set_block<B: BlockType>() {
    let mut v = any_iv::<B>(); let i: usize = any();
    assume(i < v.block_len());
    v.set_block(i, any_word()); iv_inv(&v)
}

// ---- equality, order and hash are functions of the contents (vectors of at most two blocks)
pub struct Rec { pub n: usize, pub a: u64, pub b: u64, pub c: u64, pub d: u64, pub e: u64 }
impl Rec {
    fn new() -> Rec { Rec { n: 0, a: 0, b: 0, c: 0, d: 0, e: 0 } }
    fn put(&mut self, x: u64) {
        match self.n { 0 => self.a = x, 1 => self.b = x, 2 => self.c = x, 3 => self.d = x, _ => self.e = x }
        self.n += 1;
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.put(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.put(x as u64) }
    fn write_u16(&mut self, x: u16) { self.put(x as u64) }
    fn write_u32(&mut self, x: u32) { self.put(x as u64) }
    fn write_u64(&mut self, x: u64) { self.put(x) }
    fn write_usize(&mut self, x: usize) { self.put(x as u64) }
}
fn chk_rel<V: BitVec + Eq + Ord + Hash>(a: &V, b: &V, same: bool) {
    require((a == b) == same && (a != b) == !same, "equality is equality of contents");
    let o = a.cmp(b);
    require((o == Ordering::Equal) == same, "order is consistent with equality");
    require(b.cmp(a) == o.reverse(), "order is antisymmetric");
    require(a.partial_cmp(b) == Some(o), "partial order agrees with order");
    require((a < b) == (o == Ordering::Less) && (a >= b) == (o != Ordering::Less), "the comparison operators agree with order");
    if same {
        let mut h = Rec::new(); a.hash(&mut h);
        let mut k = Rec::new(); b.hash(&mut k);
        require(h.n == k.n && h.a == k.a && h.b == k.b && h.c == k.c && h.d == k.d && h.e == k.e, "equal contents hash equally");
    }
}
fn contents_equal<V: BitVec>(a: &V, b: &V) -> bool {
    if a.bit_len() != b.bit_len() { return false; }
    let n = a.block_len();
    if n >= 1 && a.get_block(0) != b.get_block(0) { return false; }
    if n >= 2 && a.get_block(1) != b.get_block(1) { return false; }
    true
}
pub fn h_bv_rel<B: BlockType + Hash>() {
    let a = any_bv::<B>(); let b = any_bv::<B>();
    assume(a.block_len() <= 2 && b.block_len() <= 2);
    let same = contents_equal(&a, &b);
    chk_rel(&a, &b, same);
}
pub fn h_iv_rel<B: BlockType + Hash>() {
    let a = any_iv::<B>(); let b = any_iv::<B>();
    assume(a.block_len() <= 2 && b.block_len() <= 2);
    let same = a.element_bits() == b.element_bits() && contents_equal(&a, &b);
    chk_rel(&a, &b, same);
}
blocks! { [h_bv_ctor h_bv_with_fill h_bv_block_with_fill h_bv_clone h_bv_clone_from h_bv_push_bit h_bv_pop_bit h_bv_push_block h_bv_align_block h_bv_truncate
           h_bv_block_truncate h_bv_resize h_bv_block_resize h_bv_clear h_bv_reserve h_bv_set_bit h_bv_set_bits h_bv_set_block
           h_iv_ctor h_iv_block_with_fill h_iv_with_fill h_iv_clone h_iv_clone_from h_iv_push h_iv_pop h_iv_truncate h_iv_block_truncate h_iv_resize
           h_iv_block_resize h_iv_clear h_iv_reserve h_iv_reserve_exact h_iv_block_reserve h_iv_set h_iv_set_random h_iv_set_bit h_iv_set_block h_bv_rel h_iv_rel] }
