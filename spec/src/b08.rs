//! B08: iterators yield each element exactly once, from either end, and stay exhausted.
use crate::util::*;
use std::iter::ExactSizeIterator;

fn bit_at<B: BlockType>(v: &BitVector<B>, i: u64) -> bool { let n = nb::<B>(); bit(v.get_block((i / n) as usize), i % n) }
fn elem<B: BlockType>(v: &IntVector<B>, i: u64) -> B { let e = v.element_bits() as u64; ref_span(v, i * e, e) }

macro_rules! chk { ($name:ident, $v:ty, $len:ident, $at:ident) => {
    /// From an arbitrary reachable iterator (`a` elements skipped from the front by nth, up to two
    /// taken from the back), any next step yields exactly the next element of that end.
    fn $name<B: BlockType>(v: &$v, deep: bool) {
        let len = v.$len();
        let mut it = v.iter();
        require(it.len() as u64 == len && it.size_hint() == (len as usize, Some(len as usize)), "the length of a fresh iterator");
        let (mut lo, mut hi) = (0u64, len);
        let skip: bool = any();
        if skip {
            let a: usize = any();
            let r = it.nth(a);
            if (a as u64) < len { require(r == Some($at(v, a as u64)), "nth yields the element after the skipped ones"); lo = a as u64 + 1; }
            else { require(r.is_none(), "nth past the end yields nothing"); lo = len; }
        }
        let b: u64 = any();
        assume(b <= 2 && (deep || (!skip && b <= 1) || b == 0));
        let b = split(b);
        if b >= 1 {
            let r = it.next_back();
            if lo < hi { hi -= 1; require(r == Some($at(v, hi)), "next_back yields the last remaining element"); }
            else { require(r.is_none(), "next_back yields nothing when exhausted"); }
        }
        if b >= 2 {
            let r = it.next_back();
            if lo < hi { hi -= 1; require(r == Some($at(v, hi)), "next_back yields the last remaining element"); }
            else { require(r.is_none(), "next_back yields nothing when exhausted"); }
        }
        let left = hi - lo;
        require(it.len() as u64 == left && it.size_hint() == (left as usize, Some(left as usize)), "the remaining length is exact");
        let op: u64 = any();
        assume(op <= 4);
        match split(op) {
            0 => {
                let r = it.next();
                if lo < hi { require(r == Some($at(v, lo)), "next yields the first remaining element"); lo += 1; }
                else { require(r.is_none(), "next yields nothing when exhausted"); }
            }
            1 => {
                let r = it.next_back();
                if lo < hi { hi -= 1; require(r == Some($at(v, hi)), "next_back yields the last remaining element"); }
                else { require(r.is_none(), "next_back yields nothing when exhausted"); }
            }
            2 => {
                let k: usize = any();
                let r = it.nth(k);
                if (k as u64) < left { require(r == Some($at(v, lo + k as u64)), "nth yields the element after the skipped ones"); lo += k as u64 + 1; }
                else { require(r.is_none(), "nth past the end yields nothing"); lo = hi; }
            }
            3 => { require(it.count() as u64 == left, "count is the remaining length"); return; }
            _ => {
                let r = it.last();
                if lo < hi { require(r == Some($at(v, hi - 1)), "last yields the last remaining element"); }
                else { require(r.is_none(), "last yields nothing when exhausted"); }
                return;
            }
        }
        let left = hi - lo;
        require(it.len() as u64 == left && it.size_hint() == (left as usize, Some(left as usize)), "the remaining length is exact after every step");
        if deep && left == 0 {
            require(it.next().is_none() && it.next_back().is_none() && it.nth(any()).is_none(), "an exhausted iterator stays exhausted");
            require(it.len() == 0, "an exhausted iterator has length zero");
        }
    }
} }
chk!(chk_bits, BitVector<B>, bit_len, bit_at);
chk!(chk_ints, IntVector<B>, len, elem);
pub fn h_bits<B: BlockType>() { chk_bits(&any_bv::<B>(), false) }
pub fn h_bits_deep<B: BlockType>() { chk_bits(&any_bv::<B>(), true) }
pub fn h_ints<B: BlockType>() { let v = any_iv::<B>(); split(v.element_bits() as u64); chk_ints(&v, false) }
pub fn h_ints_deep<B: BlockType>() { let v = any_iv::<B>(); split(v.element_bits() as u64); chk_ints(&v, true) }
pub fn h_into_iter<B: BlockType>() {
    let v = any_bv::<B>(); let i: usize = any();
    assume((i as u64) < v.bit_len());
    let mut it = (&v).into_iter();
    require(it.len() as u64 == v.bit_len() && it.nth(i) == Some(bit_at(&v, i as u64)), "into_iter is iter");
    let v = any_iv::<B>(); let i: usize = any();
    split(v.element_bits() as u64);
    assume((i as u64) < v.len());
    let mut it = (&v).into_iter();
    require(it.len() as u64 == v.len() && it.nth(i) == Some(elem(&v, i as u64)), "into_iter is iter");
}

// ---- the other ways through an iterator: by folding, from the back, past several elements at once
macro_rules! ways { ($name:ident, $v:ty, $len:ident, $at:ident) => {
    /// The iterator over at most three elements at the end of an arbitrary vector.
    fn $name<B: BlockType>(v: &$v) {
        let len = v.$len();
        let left: u64 = any(); let op: u64 = any(); let skip: usize = any();
        assume(left <= 3 && left <= len && op <= 5);
        let left = split(left);
        let mut it = v.iter();
        if left < len { it.nth((len - left) as usize - 1); }
        let lo = len - left;
        match split(op) {
            0 => { let n = it.fold(0, |i, x| { require(i < left && x == $at(v, lo + i), "fold goes through the elements in order"); i + 1 }); require(n == left, "fold goes through every element"); }
            1 => { let n = it.rfold(0, |i, x| { require(i < left && x == $at(v, len - 1 - i), "rfold goes through the elements from the back"); i + 1 }); require(n == left, "rfold goes through every element"); }
            2 => { let mut i = 0; it.for_each(|x| { require(i < left && x == $at(v, lo + i), "for_each goes through the elements in order"); i += 1; }); require(i == left, "for_each goes through every element"); }
            3 => {
                let k = skip as u64;
                let r = it.nth_back(skip);
                if k < left { require(r == Some($at(v, len - 1 - k)), "nth_back yields the element before the skipped ones"); require(it.len() as u64 == left - 1 - k, "nth_back consumes what it skips"); }
                else { require(r.is_none() && it.len() == 0, "nth_back past the start yields nothing"); }
            }
            4 => {
                let mut r = it.rev();
                require(r.len() as u64 == left, "reversing keeps the length");
                if left > 0 { require(r.next() == Some($at(v, len - 1)), "a reversed iterator starts at the back"); require(r.len() as u64 == left - 1, "reversing keeps the length"); }
                else { require(r.next().is_none(), "a reversed iterator starts at the back"); }
            }
            _ => {
                let mut c = it.clone();
                if left > 0 { require(it.next() == Some($at(v, lo)) && c.next() == Some($at(v, lo)) && c.len() == it.len(), "a cloned iterator goes on from the same place"); }
                else { require(c.next().is_none() && it.next().is_none(), "a cloned iterator goes on from the same place"); }
            }
        }
    }
} }
ways!(ways_bits, BitVector<B>, bit_len, bit_at);
ways!(ways_ints, IntVector<B>, len, elem);
pub fn h_bits_ways<B: BlockType>() { ways_bits(&any_bv::<B>()) }
pub fn h_ints_ways<B: BlockType>() { let v = any_iv::<B>(); split(v.element_bits() as u64); ways_ints(&v) }
blocks! { [h_bits_ways h_ints_ways h_bits h_bits_deep h_ints h_ints_deep h_into_iter] }
