//! Reference implementations of library operations whose bodies are not analysed.
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
pub fn vec_eq<T: PartialEq<U>, U>(a: &Vec<T>, b: &Vec<U>) -> bool {
    if a.len() != b.len() { return false; }
    for i in 0 .. a.len() { if a[i] != b[i] { return false; } }
    true
}
pub fn vec_cmp<T: Ord>(a: &Vec<T>, b: &Vec<T>) -> Ordering {
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    for i in 0 .. n { match a[i].cmp(&b[i]) { Ordering::Equal => {} o => return o } }
    a.len().cmp(&b.len())
}
pub fn vec_partial_cmp<T: PartialOrd>(a: &Vec<T>, b: &Vec<T>) -> Option<Ordering> {
    let n = if a.len() < b.len() { a.len() } else { b.len() };
    for i in 0 .. n { match a[i].partial_cmp(&b[i]) { Some(Ordering::Equal) => {} o => return o } }
    a.len().partial_cmp(&b.len())
}
pub fn vec_hash<T: Hash, H: Hasher>(a: &Vec<T>, h: &mut H) {
    h.write_usize(a.len());
    for i in 0 .. a.len() { a[i].hash(h); }
}
use std::ops::Deref;
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) { for x in i { v.push(x) } }
pub fn vec_extend_ref<T: Copy, I: IntoIterator>(v: &mut Vec<T>, i: I) where I::Item: Deref<Target = T> { for x in i { v.push(*x) } }
pub fn vec_collect<T, I: IntoIterator<Item = T>>(i: I) -> Vec<T> { let mut v = Vec::new(); for x in i { v.push(x) } v }
pub fn vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) { while v.len() > n { v.pop(); } while v.len() < n { v.push(f()) } }
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) { let mut i = 0; while i < v.len() { if f(&v[i]) { i += 1 } else { v.remove(i); } } }
pub fn vec_dedup<T: PartialEq>(v: &mut Vec<T>) { let mut i = 1; while i < v.len() { if v[i] == v[i - 1] { v.remove(i); } else { i += 1 } } }
use std::collections::{vec_deque, VecDeque};
pub fn dq_extend<T, I: IntoIterator<Item = T>>(v: &mut VecDeque<T>, i: I) { for x in i { v.push_back(x) } }
pub fn dq_extend_ref<T: Copy, I: IntoIterator>(v: &mut VecDeque<T>, i: I) where I::Item: Deref<Target = T> { for x in i { v.push_back(*x) } }
pub fn dq_collect<T, I: IntoIterator<Item = T>>(i: I) -> VecDeque<T> { let mut v = VecDeque::new(); for x in i { v.push_back(x) } v }
pub fn dq_contains<T: PartialEq>(v: &VecDeque<T>, x: &T) -> bool { let mut i = 0; while i < v.len() { if *v.get(i).unwrap() == *x { return true } i += 1; } false }
pub fn dq_eq<T: PartialEq>(a: &VecDeque<T>, b: &VecDeque<T>) -> bool { if a.len() != b.len() { return false } let mut i = 0; while i < a.len() { if *a.get(i).unwrap() != *b.get(i).unwrap() { return false } i += 1; } true }
pub fn mem_take<T: Default>(x: &mut T) -> T { std::mem::replace(x, T::default()) }
pub fn sl_reverse<T>(s: &mut [T]) { if s.is_empty() { return } let mut i = 0; let mut j = s.len() - 1; while i < j { s.swap(i, j); i += 1; j -= 1; } }
pub fn sl_sort_by<T, F: FnMut(&T, &T) -> Ordering>(s: &mut [T], mut f: F) { let mut i = 1; while i < s.len() { let mut j = i; while j > 0 && f(&s[j - 1], &s[j]) == Ordering::Greater { s.swap(j - 1, j); j -= 1; } i += 1; } }
pub fn sl_sort<T: Ord>(s: &mut [T]) { sl_sort_by(s, |a, b| a.cmp(b)) }
pub fn sl_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) { sl_sort_by(s, |a, b| f(a).cmp(&f(b))) }
pub fn sl_contains<T: PartialEq>(s: &[T], x: &T) -> bool { let mut i = 0; while i < s.len() { if s[i] == *x { return true } i += 1; } false }
pub fn sl_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool { if a.len() != b.len() { return false } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false } i += 1; } true }
macro_rules! iters { ($($m:ident: $t:ty = $item:ty;)*) => { $( pub mod $m {
    #[allow(unused_imports)] use super::*;
    pub fn fold<T, B, F: FnMut(B, $item) -> B>(mut i: $t, mut b: B, mut f: F) -> B { while let Some(x) = i.next() { b = f(b, x) } b }
    pub fn rfold<T, B, F: FnMut(B, $item) -> B>(mut i: $t, mut b: B, mut f: F) -> B { while let Some(x) = i.next_back() { b = f(b, x) } b }
    pub fn for_each<T, F: FnMut($item)>(mut i: $t, mut f: F) { while let Some(x) = i.next() { f(x) } }
    pub fn all<T, F: FnMut($item) -> bool>(i: &mut $t, mut f: F) -> bool { while let Some(x) = i.next() { if !f(x) { return false } } true }
    pub fn any<T, F: FnMut($item) -> bool>(i: &mut $t, mut f: F) -> bool { while let Some(x) = i.next() { if f(x) { return true } } false }
    pub fn position<T, F: FnMut($item) -> bool>(i: &mut $t, mut f: F) -> Option<usize> { let mut n = 0; while let Some(x) = i.next() { if f(x) { return Some(n) } n += 1; } None }
    pub fn rposition<T, F: FnMut($item) -> bool>(i: &mut $t, mut f: F) -> Option<usize> { let mut n = i.len(); while let Some(x) = i.next_back() { n -= 1; if f(x) { return Some(n) } } None }
    pub fn count<T>(mut i: $t) -> usize { let mut n = 0; while let Some(_) = i.next() { n += 1 } n }
} )* } }
iters! {
    it: std::slice::Iter<'_, T> = &T;
    itm: std::slice::IterMut<'_, T> = &mut T;
    own: std::vec::IntoIter<T> = T;
    dqi: vec_deque::Iter<'_, T> = &T;
    dqm: vec_deque::IterMut<'_, T> = &mut T;
    dqo: vec_deque::IntoIter<T> = T;
}
pub mod refs {
    pub fn find<'x, T, P: FnMut(&&T) -> bool>(i: &mut std::slice::Iter<'x, T>, mut p: P) -> Option<&'x T> { while let Some(x) = i.next() { if p(&x) { return Some(x) } } None }
    pub fn find_map<T, B, F: FnMut(&T) -> Option<B>>(i: &mut std::slice::Iter<'_, T>, mut f: F) -> Option<B> { while let Some(x) = i.next() { let r = f(x); if r.is_some() { return r } } None }
    pub fn find_mut<'x, T, P: FnMut(&&mut T) -> bool>(i: &mut std::slice::IterMut<'x, T>, mut p: P) -> Option<&'x mut T> { while let Some(x) = i.next() { if p(&x) { return Some(x) } } None }
}
