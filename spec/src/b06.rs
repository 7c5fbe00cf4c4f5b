//! B06: integer vectors are exact sequences of fixed-width integers.
use crate::util::*;

fn width<B: BlockType>(v: &IntVector<B>) -> u64 { split(v.element_bits() as u64) }
fn fit<B: BlockType>(e: u64) -> B { let x: B = any_word(); assume(zero_above(x, e)); x }
fn old_block<B: BlockType>(old: &IntVector<B>, k: usize) -> B { if k < old.block_len() { old.get_block(k) } else { B::zero() } }

pub fn h_get<B: BlockType>() {
    let v = any_iv::<B>(); let i: u64 = any(); let e = width(&v);
    assume(i < v.len());
    require(v.get(i) == ref_span(&v, i * e, e), "get returns the bits of the element");
    require(v.bit_len() == v.len() * e && v.block_len() as u64 == blocks_for::<B>(v.len() * e), "bit view length");
    require(v.is_empty() == (v.len() == 0), "is_empty");
    require(v.is_block_sized() == (e == nb::<B>()) && v.is_aligned() == (nb::<B>() % e == 0), "alignment predicates");
}
pub fn h_set<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let i: u64 = any(); let k: usize = any(); let e = width(&v);
    assume(i < v.len() && k < v.block_len());
    let x = fit::<B>(e);
    v.set(i, x);
    require(v.len() == old.len() && v.element_bits() as u64 == e && v.block_len() == old.block_len(), "set keeps the length and width");
    require(v.get_block(k) == put(old.get_block(k), k as u64, i * e, e, x), "set writes exactly the element");
}
pub fn h_set_get<B: BlockType>() {
    let mut v = any_iv::<B>(); let i: u64 = any(); let e = width(&v);
    assume(i < v.len());
    let x = fit::<B>(e);
    v.set(i, x);
    require(v.get(i) == x, "an element reads back the value stored");
}
pub fn h_get_random<B: BlockType>() {
    let v = any_iv::<B>(); let s: u64 = any(); let e: u64 = any(); let i: u64 = any();
    assume(e <= nb::<B>());
    let e = split(e);
    assume(i <= 1 << 57 && s <= 1 << 63);
    let at = s + i * e;
    assume(at <= v.bit_len() && e <= v.bit_len() - at);
    require(v.get_random(s, e as usize, i) == ref_span(&v, at, e), "get_random returns exactly the addressed bits");
}
pub fn h_set_random<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let s: u64 = any(); let e: u64 = any(); let i: u64 = any(); let k: usize = any();
    assume(e <= nb::<B>());
    let e = split(e);
    assume(i <= 1 << 57 && s <= 1 << 63);
    let at = s + i * e;
    assume(at <= v.bit_len() && e <= v.bit_len() - at && k < v.block_len());
    let x = fit::<B>(e);
    v.set_random(s, e as usize, i, x);
    require(v.len() == old.len() && v.block_len() == old.block_len(), "set_random keeps the length");
    require(v.get_block(k) == put(old.get_block(k), k as u64, at, e, x), "set_random writes exactly the addressed bits");
}
pub fn h_push<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let k: usize = any(); let e = width(&v);
    let len = old.len(); let x = fit::<B>(e);
    v.push(x);
    require(v.len() == len + 1 && v.element_bits() as u64 == e, "push appends one element");
    require(v.block_len() as u64 == blocks_for::<B>((len + 1) * e), "push: blocks");
    assume(k < v.block_len());
    require(v.get_block(k) == put(old_block(&old, k), k as u64, len * e, e, x), "push writes exactly the new element");
}
pub fn h_pop<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let k: usize = any(); let e = width(&v);
    let len = old.len();
    let r = v.pop();
    if len == 0 { require(r.is_none() && v.len() == 0, "nothing to pop"); return; }
    require(r == Some(ref_span(&old, (len - 1) * e, e)), "pop returns the last element");
    require(v.len() == len - 1 && v.element_bits() as u64 == e, "pop removes one element");
    assume(k < v.block_len());
    require(v.get_block(k) == put(old.get_block(k), k as u64, (len - 1) * e, e, B::zero()), "pop keeps the earlier elements");
}
fn kept<B: BlockType>(v: &IntVector<B>, old: &IntVector<B>, e: u64, len: u64) {
    require(v.len() == len && v.element_bits() as u64 == e, "the length is exactly the requested one");
    let k: usize = any(); let n = nb::<B>();
    assume(k < v.block_len());
    let base = k as u64 * n; let bits = len * e;
    assume(base < bits);
    let used = if bits - base < n { bits - base } else { n };
    require(extract(v.get_block(k), 0, used) == extract(old.get_block(k), 0, used), "kept elements are unchanged");
}
pub fn h_truncate<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let n: u64 = any(); let e = width(&v);
    v.truncate(n);
    kept(&v, &old, e, if n < old.len() { n } else { old.len() });
}
pub fn h_block_truncate<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let n: usize = any(); let e = width(&v);
    v.block_truncate(n);
    kept(&v, &old, e, if n < old.block_len() { n as u64 * nb::<B>() / e } else { old.len() });
}
pub fn h_resize_down<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let n: u64 = any(); let e = width(&v);
    assume(n <= old.len());
    v.resize(n, fit::<B>(e));
    kept(&v, &old, e, n);
}
pub fn h_resize_up<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let n: u64 = any(); let e = width(&v); let k: usize = any();
    let len = old.len();
    assume(n > len && n - len <= 2);
    let x = fit::<B>(e);
    v.resize(n, x);
    require(v.len() == n && v.element_bits() as u64 == e, "resize gives exactly the requested length");
    require(v.block_len() as u64 == blocks_for::<B>(n * e), "resize: blocks");
    assume(k < v.block_len());
    let mut w = put(old_block(&old, k), k as u64, len * e, e, x);
    if n - len == 2 { w = put(w, k as u64, (len + 1) * e, e, x); }
    require(v.get_block(k) == w, "resize fills exactly the new elements");
}
pub fn h_with_fill<B: BlockType>() {
    let e: u64 = any(); let n: u64 = any(); let i: u64 = any();
    assume(e >= 1 && e <= nb::<B>());
    let e = split(e);
    assume(n <= 3);
    let x = fit::<B>(e);
    let v = IntVector::<B>::with_fill(e as usize, n, x);
    require(v.len() == n && v.element_bits() as u64 == e && v.bit_len() == n * e, "with_fill gives exactly the requested length");
    assume(i < n);
    require(v.get(i) == x, "every element has the fill value");
}
pub fn h_block_ops<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let n: usize = any(); let k: usize = any(); let e = width(&v); let x: B = any_word();
    assume(n as u64 <= 1 << 50);
    v.block_resize(n, x);
    let w = nb::<B>();
    require(v.len() == n as u64 * w / e && v.element_bits() as u64 == e, "block_resize: as many elements as fit the blocks");
    assume(k < n);
    let base = k as u64 * w; let bits = v.len() * e;
    assume(base < bits);
    let used = if bits - base < w { bits - base } else { w };
    let src = if k < old.block_len() { old.get_block(k) } else { x };
    require(extract(v.get_block(k), 0, used) == extract(src, 0, used), "block_resize keeps the old blocks and fills the new ones");
}
pub fn h_block_with_fill<B: BlockType>() {
    let n: usize = any(); let k: usize = any(); let e: u64 = any(); let x: B = any_word();
    assume(e >= 1 && e <= nb::<B>());
    let e = split(e);
    assume(n as u64 <= 1 << 50);
    let v = IntVector::<B>::block_with_fill(e as usize, n, x);
    let w = nb::<B>();
    require(v.len() == n as u64 * w / e && v.element_bits() as u64 == e, "block_with_fill: as many elements as fit the blocks");
    assume(k < n);
    let base = k as u64 * w; let bits = v.len() * e;
    assume(base < bits);
    let used = if bits - base < w { bits - base } else { w };
    require(extract(v.get_block(k), 0, used) == extract(x, 0, used), "block_with_fill fills every block");
}
pub fn h_set_block<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let i: usize = any(); let k: usize = any(); let e = width(&v); let x: B = any_word();
    assume(i < v.block_len() && k < v.block_len());
    v.set_block(i, x);
    require(v.len() == old.len() && v.element_bits() as u64 == e && v.block_len() == old.block_len(), "set_block keeps the length");
    if i != k { require(v.get_block(k) == old.get_block(k), "set_block leaves other blocks alone"); return; }
    let base = k as u64 * nb::<B>(); let bits = v.len() * e;
    let used = if bits - base < nb::<B>() { bits - base } else { nb::<B>() };
    require(extract(v.get_block(k), 0, used) == extract(x, 0, used), "set_block writes the whole block");
}
pub fn h_new<B: BlockType>() {
    let e: u64 = any(); let c: u64 = any(); let b: usize = any();
    assume(e >= 1 && e <= nb::<B>());
    let e = split(e);
    assume(c <= 1 << 50 && b <= 1 << 50);
    let v = IntVector::<B>::new(e as usize);
    require(v.len() == 0 && v.element_bits() as u64 == e && v.is_empty(), "new is empty");
    let v = IntVector::<B>::with_capacity(e as usize, c);
    require(v.len() == 0 && v.element_bits() as u64 == e && v.capacity() >= c, "with_capacity is empty and has the capacity");
    let v = IntVector::<B>::block_with_capacity(e as usize, b);
    require(v.len() == 0 && v.element_bits() as u64 == e && v.block_capacity() >= b, "block_with_capacity is empty and has the capacity");
}
pub fn h_reserve<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let a: u64 = any(); let e = width(&v);
    assume(a <= 1 << 50);
    v.reserve(a);
    require(v.capacity() >= old.len() + a, "reserve provides the capacity");
    kept(&v, &old, e, old.len());
}
pub fn h_reserve_exact<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let a: u64 = any(); let e = width(&v);
    assume(a <= 1 << 50);
    v.reserve_exact(a);
    require(v.capacity() >= old.len() + a, "reserve_exact provides the capacity");
    kept(&v, &old, e, old.len());
}
pub fn h_shrink_clear<B: BlockType>() {
    let mut v = any_iv::<B>(); let old = snapshot(&v); let e = width(&v);
    v.shrink_to_fit();
    kept(&v, &old, e, old.len());
    v.clear();
    require(v.len() == 0 && v.block_len() == 0 && v.element_bits() as u64 == e, "clear empties the vector");
}
/// Fills that cover whole blocks, for every width: length and width are enumerated, the values unknown.
fn many<B: BlockType>(top: u64) {
    let e: u64 = any(); let m: u64 = any(); let n: u64 = any();
    assume(e >= 1 && e <= nb::<B>() && m <= 1 && n >= 4 && n <= top);
    let e = split(e); let n = split(n); let m = split(m) * 5;
    let y = fit::<B>(e); let x = fit::<B>(e);
    let mut v = IntVector::<B>::with_fill(e as usize, m, y);
    v.resize(m + n, x);
    require(v.len() == m + n && v.element_bits() as u64 == e && v.block_len() as u64 == blocks_for::<B>((m + n) * e), "resize gives exactly the requested length");
    let mut i = 0;
    while i < m + n { require(v.get(i) == if i < m { y } else { x }, "resize fills exactly the new elements"); i += 1; }
    let w = IntVector::<B>::with_fill(e as usize, n, x);
    require(w.len() == n && w.block_len() as u64 == blocks_for::<B>(n * e), "with_fill gives exactly the requested length");
    let mut i = 0;
    while i < n { require(w.get(i) == x, "every element has the fill value"); i += 1; }
}
pub fn h_fill_many<B: BlockType>() { many::<B>(19) }
pub fn h_t_fill_many<B: BlockType>() { many::<B>(40) }
blocks! { [h_fill_many h_t_fill_many h_get h_set h_set_get h_get_random h_set_random h_push h_pop h_truncate h_block_truncate h_resize_down h_resize_up h_with_fill
           h_block_ops h_block_with_fill h_set_block h_new h_reserve h_reserve_exact h_shrink_clear] }
