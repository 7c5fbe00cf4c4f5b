//! B07: bit slices are exact windows onto their base.
use crate::util::*;

/// `v` shows exactly bits `s .. e` of `base`.
fn window<V: BitVec<Block = B>, B: BlockType>(v: &V, base: &BitVector<B>, s: u64, e: u64) {
    let n = nb::<B>(); let len = e - s;
    let what: u64 = any(); let p: u64 = any(); let c: usize = any();
    assume(what <= 3);
    match split(what) {
        3 => require(v.bit_len() == len && v.block_len() as u64 == blocks_for::<B>(len), "the length of a slice is the length of its range"),
        0 => {
            assume(p < len);
            let q = s + p;
            require(v.get_bit(p) == bit(base.get_block((q / n) as usize), q % n), "a bit of the slice is the bit of the base at start + i");
        }
        1 => {
            assume(c as u64 <= n && p <= len && c as u64 <= len - p);
            require(v.get_bits(p, c) == ref_span(base, s + p, c as u64), "a span of the slice is the span of the base at start + i");
        }
        _ => {
            assume(p < blocks_for::<B>(len));
            let left = len - p * n;
            require(v.get_block(p as usize) == ref_span(base, s + p * n, if left < n { left } else { n }), "a block of the slice is the span of the base, zero beyond the slice");
        }
    }
}
/// Writing through `v` changes exactly the addressed bits of the base; returns (start, count, value) within the slice.
fn write<V: BitVecMut>(v: &mut V) -> (u64, u64, V::Block) {
    let n = nb::<V::Block>(); let len = v.bit_len();
    let what: u64 = any(); let p: u64 = any(); let c: usize = any(); let x: V::Block = any_word();
    assume(what <= 2);
    match split(what) {
        0 => { assume(p < len); v.set_bit(p, bit(x, 0)); (p, 1, x) }
        1 => { assume(c as u64 <= n && p <= len && c as u64 <= len - p); v.set_bits(p, c, x); (p, c as u64, x) }
        _ => {
            assume(p < blocks_for::<V::Block>(len));
            let left = len - p * n;
            v.set_block(p as usize, x);
            (p * n, if left < n { left } else { n }, x)
        }
    }
}
fn written<B: BlockType>(base: &BitVector<B>, old: &BitVector<B>, at: u64, c: u64, x: B) {
    let k: usize = any();
    require(base.bit_len() == old.bit_len() && base.block_len() == old.block_len(), "writing through a slice keeps the length of the base");
    assume(k < old.block_len());
    require(base.get_block(k) == put(old.get_block(k), k as u64, at, c, x), "writing through a slice changes exactly the addressed bits of the base");
}

// ---- the four range forms
macro_rules! forms { ($ty:ident, $name:ident, $($r:tt)*) => {
    pub fn $name<B: BlockType>() {
        let mut base = any_bv::<B>(); let old = snapshot(&base); let r = any_range(&base);
        window(&$ty::new($($r)* base, r.clone()), &old, r.start, r.end)
    }
} }
forms!(BitSlice, h_range, &); forms!(BitSliceMut, h_mut_range, &mut);
pub fn h_range_to<B: BlockType>() { let base = any_bv::<B>(); let r = any_range(&base); window(&BitSlice::new(&base, .. r.end), &base, 0, r.end) }
pub fn h_range_from<B: BlockType>() { let base = any_bv::<B>(); let r = any_range(&base); window(&BitSlice::new(&base, r.start ..), &base, r.start, base.bit_len()) }
pub fn h_range_full<B: BlockType>() { let base = any_bv::<B>(); window(&BitSlice::new(&base, ..), &base, 0, base.bit_len()) }
pub fn h_inverted<B: BlockType>() {
    let base = any_bv::<B>(); let r = any_range(&base);
    let v = BitSlice::new(&base, r.end .. r.start);
    require(v.bit_len() == 0 && v.block_len() == 0, "an inverted range is empty");
    let mut m = any_bv::<B>();
    assume(m.bit_len() == base.bit_len());
    let v = BitSliceMut::new(&mut m, r.end .. r.start);
    require(v.bit_len() == 0 && v.block_len() == 0, "an inverted range is empty");
}
// ---- slices of slices
pub fn h_nested<B: BlockType>() {
    let base = any_bv::<B>(); let r = any_range(&base);
    let a = BitSlice::new(&base, r.clone()); let q = any_range(&a);
    window(&a.slice(q.clone()), &base, r.start + q.start, r.start + q.end)
}
pub fn h_nested_forms<B: BlockType>() {
    let base = any_bv::<B>(); let r = any_range(&base);
    let a = BitSlice::new(&base, r.clone()); let q = any_range(&a); let f: u64 = any();
    assume(f <= 2);
    match split(f) {
        0 => window(&a.slice(.. q.end), &base, r.start, r.start + q.end),
        1 => window(&a.slice(q.start ..), &base, r.start + q.start, r.end),
        _ => window(&a.slice(..), &base, r.start, r.end),
    }
}
// the forms with an open end, for every constructor which takes a range
fn open_form() -> (u64, u64) { let q: u64 = any(); let f: u64 = any(); assume(f <= 2); (split(f), q) }
pub fn h_mut_forms<B: BlockType>() {
    let mut base = any_bv::<B>(); let old = snapshot(&base); let (f, q) = open_form(); let len = base.bit_len();
    assume(q <= len);
    match f {
        0 => window(&BitSliceMut::new(&mut base, .. q), &old, 0, q),
        1 => window(&BitSliceMut::new(&mut base, q ..), &old, q, len),
        _ => window(&BitSliceMut::new(&mut base, ..), &old, 0, len),
    }
}
pub fn h_mut_slice_forms<B: BlockType>() {
    let mut base = any_bv::<B>(); let old = snapshot(&base); let r = any_range(&base); let (f, q) = open_form();
    let a = BitSliceMut::new(&mut base, r.clone());
    assume(q <= r.end - r.start);
    match f {
        0 => window(&a.slice(.. q), &old, r.start, r.start + q),
        1 => window(&a.slice(q ..), &old, r.start + q, r.end),
        _ => window(&a.slice(..), &old, r.start, r.end),
    }
}
pub fn h_mut_slice_mut_forms<B: BlockType>() {
    let mut base = any_bv::<B>(); let old = snapshot(&base); let r = any_range(&base); let (f, q) = open_form();
    let mut a = BitSliceMut::new(&mut base, r.clone());
    assume(q <= r.end - r.start);
    match f {
        0 => window(&a.slice_mut(.. q), &old, r.start, r.start + q),
        1 => window(&a.slice_mut(q ..), &old, r.start + q, r.end),
        _ => window(&a.slice_mut(..), &old, r.start, r.end),
    }
}
pub fn h_indirect<B: BlockType>() {
    let base = any_bv::<B>(); let r = any_range(&base);
    let a = BitSlice::new(&base, r.clone()); let q = any_range(&a);
    window(&BitSlice::new(&a, q.clone()), &base, r.start + q.start, r.start + q.end)
}
pub fn h_mut_slice<B: BlockType>() {
    let mut base = any_bv::<B>(); let old = snapshot(&base); let r = any_range(&base);
    let a = BitSliceMut::new(&mut base, r.clone()); let q = any_range(&a);
    window(&a.slice(q.clone()), &old, r.start + q.start, r.start + q.end)
}
pub fn h_mut_slice_mut<B: BlockType>() {
    let mut base = any_bv::<B>(); let old = snapshot(&base); let r = any_range(&base);
    let mut a = BitSliceMut::new(&mut base, r.clone()); let q = any_range(&a);
    window(&a.slice_mut(q.clone()), &old, r.start + q.start, r.start + q.end)
}
// ---- writing
pub fn h_write<B: BlockType>() {
    let mut base = any_bv::<B>(); let old = snapshot(&base); let r = any_range(&base);
    let (at, c, x) = write(&mut BitSliceMut::new(&mut base, r.clone()));
    written(&base, &old, r.start + at, c, x)
}
pub fn h_write_nested<B: BlockType>() {
    let mut base = any_bv::<B>(); let old = snapshot(&base); let r = any_range(&base);
    let (s, c, x) = {
        let mut a = BitSliceMut::new(&mut base, r.clone()); let q = any_range(&a);
        let (at, c, x) = write(&mut a.slice_mut(q.clone()));
        (r.start + q.start + at, c, x)
    };
    written(&base, &old, s, c, x)
}
pub fn h_write_indirect<B: BlockType>() {
    let mut base = any_bv::<B>(); let old = snapshot(&base); let r = any_range(&base);
    let (s, c, x) = {
        let mut a = BitSliceMut::new(&mut base, r.clone()); let q = any_range(&a);
        let (at, c, x) = write(&mut BitSliceMut::new(&mut a, q.clone()));
        (r.start + q.start + at, c, x)
    };
    written(&base, &old, s, c, x)
}
// ---- ranges which leave the base, accesses which leave the slice
fn bad_range(len: u64) -> (u64, u64) { let s: u64 = any(); let e: u64 = any(); assume(s > len || e > len); (s, e) }
fn rejected() { require(false, "a range which leaves the base is not rejected") }
pub fn h_bad<B: BlockType>() {
    let mut base = any_bv::<B>(); let len = base.bit_len(); let (s, e) = bad_range(len); let f: u64 = any();
    assume(f <= 5);
    allow_panic();
    match split(f) {
        0 => { BitSlice::new(&base, s .. e); }
        1 => { BitSliceMut::new(&mut base, s .. e); }
        2 => { assume(e > len); BitSlice::new(&base, .. e); }
        3 => { assume(e > len); BitSliceMut::new(&mut base, .. e); }
        4 => { assume(s > len); BitSlice::new(&base, s ..); }
        _ => { assume(s > len); BitSliceMut::new(&mut base, s ..); }
    }
    rejected()
}
pub fn h_bad_nested<B: BlockType>() {
    let mut base = any_bv::<B>(); let r = any_range(&base); let len = r.end - r.start; let (s, e) = bad_range(len); let f: u64 = any();
    assume(f <= 6);
    allow_panic();
    match split(f) {
        0 => { BitSlice::new(&base, r).slice(s .. e); }
        1 => { BitSliceMut::new(&mut base, r).slice(s .. e); }
        2 => { BitSliceMut::new(&mut base, r).slice_mut(s .. e); }
        3 => { assume(e > len); BitSlice::new(&base, r).slice(.. e); }
        4 => { assume(s > len); BitSlice::new(&base, r).slice(s ..); }
        5 => { assume(s > len); BitSliceMut::new(&mut base, r).slice(s ..); }
        _ => { assume(s > len); BitSliceMut::new(&mut base, r).slice_mut(s ..); }
    }
    rejected()
}
fn outside<V: BitVec>(v: &V) {
    let what: u64 = any(); let p: u64 = any(); let c: usize = any(); let len = v.bit_len();
    assume(what <= 2);
    allow_panic();
    match split(what) {
        0 => { assume(p >= len); v.get_bit(p); }
        1 => { assume(p > len || c as u64 > len - p); v.get_bits(p, c); }
        _ => { assume(p >= blocks_for::<V::Block>(len)); v.get_block(p as usize); }
    }
    must_panic()
}
fn outside_mut<V: BitVecMut>(v: &mut V) {
    let what: u64 = any(); let p: u64 = any(); let c: usize = any(); let len = v.bit_len();
    assume(what <= 2);
    allow_panic();
    match split(what) {
        0 => { assume(p >= len); v.set_bit(p, any()); }
        1 => { assume(p > len || c as u64 > len - p); v.set_bits(p, c, any_word()); }
        _ => { assume(p >= blocks_for::<V::Block>(len)); v.set_block(p as usize, any_word()); }
    }
    must_panic()
}
pub fn h_outside<B: BlockType>() {
    let base = any_bv::<B>(); let r = any_range(&base); let a = BitSlice::new(&base, r); let q = any_range(&a); outside(&a.slice(q))
}
pub fn h_mut_outside<B: BlockType>() {
    let mut base = any_bv::<B>(); let r = any_range(&base); let mut a = BitSliceMut::new(&mut base, r); let q = any_range(&a); outside(&a.slice_mut(q))
}
pub fn h_write_outside<B: BlockType>() {
    let mut base = any_bv::<B>(); let r = any_range(&base); let mut a = BitSliceMut::new(&mut base, r); let q = any_range(&a); outside_mut(&mut a.slice_mut(q))
}
blocks! { [h_range h_mut_range h_range_to h_range_from h_range_full h_inverted h_nested h_nested_forms h_indirect h_mut_slice h_mut_slice_mut
           h_mut_forms h_mut_slice_forms h_mut_slice_mut_forms
           h_write h_write_nested h_write_indirect h_bad h_bad_nested h_outside h_mut_outside h_write_outside] }
