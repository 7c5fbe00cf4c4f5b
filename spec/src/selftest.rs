//! Library operations as the analyser sees them: checked with `tools/selftest.sh`, no property's harness.
use crate::util::*;
use std::collections::VecDeque;
fn abc() -> Vec<u64> { let a: u64 = any(); assume(a < 100); vec![a, a + 1, a + 2, a + 3, a + 4] }
fn some() -> Vec<u64> { let v: Vec<u64> = any(); assume(v.len() >= 3 && v.len() < 1000); v }
fn is(a: &[u64], b: &[u64]) { require(a.len() == b.len(), "lengths"); let mut i = 0; while i < a.len() { require(a[i] == b[i], "elements"); i += 1; } }
pub fn h_vec_into_iter() { let v = abc(); let s = v.clone(); let mut o = Vec::new(); for x in v { o.push(x) } is(&o, &s) }
pub fn h_vec_into_iter_rev() { let v = abc(); let mut o = Vec::new(); for x in v.clone().into_iter().rev() { o.push(x) } require(o[0] == v[4] && o[4] == v[0] && o.len() == 5, "reversed") }
pub fn h_vec_iter_rev() { let v = abc(); let mut o = Vec::new(); for x in v.iter().rev() { o.push(*x) } require(o[0] == v[4] && o[4] == v[0] && o.len() == 5, "reversed") }
pub fn h_vec_collect() { let v = abc(); let o: Vec<u64> = v.iter().map(|x| x + 1).collect(); require(o.len() == 5 && o[2] == v[2] + 1, "collected") }
pub fn h_vec_collect_cloned() { let v = abc(); let o: Vec<u64> = v.iter().cloned().collect(); is(&o, &v) }
pub fn h_vec_collect_rev() { let v = abc(); let o: Vec<u64> = v.iter().rev().copied().collect(); require(o.len() == 5 && o[0] == v[4], "collected") }
pub fn h_range_collect() { let o: Vec<u64> = (0..4u64).map(|x| x * 2).collect(); is(&o, &[0, 2, 4, 6]) }
pub fn h_vec_drain() { let mut v = abc(); let s = v.clone(); let d: Vec<u64> = v.drain(1..3).collect(); is(&d, &s[1..3]); require(v.len() == 3 && v[0] == s[0] && v[1] == s[3], "drained") }
pub fn h_vec_drain_all() { let mut v = abc(); let n = v.drain(..).count(); require(n == 5 && v.is_empty(), "drained") }
pub fn h_vec_drain_some() { let mut v = some(); let s = snapshot(&v); v.drain(..2); require(v.len() + 2 == s.len() && v[0] == s[2], "drained"); let k: u64 = any(); assume(k < v.len() as u64); require(v[k as usize] == s[k as usize + 2], "drained") }
pub fn h_vec_extend() { let mut v = abc(); let s = v.clone(); v.extend(s.iter().cloned()); require(v.len() == 10 && v[7] == s[2], "extended"); v.extend(&s); require(v.len() == 15 && v[14] == s[4], "extended"); v.extend_from_slice(&s[1..]); require(v.len() == 19 && v[15] == s[1], "extended"); }
pub fn h_vec_insert() { let mut v = abc(); let s = v.clone(); v.insert(2, 7); require(v.len() == 6 && v[1] == s[1] && v[2] == 7 && v[3] == s[2] && v[5] == s[4], "inserted"); require(v.remove(2) == 7, "removed"); is(&v, &s); require(v.swap_remove(0) == s[0] && v[0] == s[4] && v.len() == 4, "swap removed") }
pub fn h_vec_insert_some() { let mut v = some(); let s = snapshot(&v); let i: u64 = any(); assume(i < v.len() as u64); v.insert(i as usize, 3); let k: u64 = any(); assume(k < s.len() as u64); require(v[i as usize] == 3, "inserted"); require(v[if k < i { k } else { k + 1 } as usize] == s[k as usize], "inserted"); require(v.remove(i as usize) == 3, "removed"); require(v[k as usize] == s[k as usize] && v.len() == s.len(), "back") }
pub fn h_vec_split_off() { let mut v = abc(); let s = v.clone(); let mut t = v.split_off(2); is(&v, &s[..2]); is(&t, &s[2..]); v.append(&mut t); is(&v, &s); require(t.is_empty(), "appended") }
pub fn h_vec_resize_with() { let mut v = abc(); v.resize_with(7, || 9); require(v.len() == 7 && v[6] == 9, "resized"); v.resize_with(2, Default::default); require(v.len() == 2, "resized") }
pub fn h_vec_retain() { let mut v = vec![1u64, 2, 3, 4]; v.retain(|x| x % 2 == 0); is(&v, &[2, 4]) }
pub fn h_slice_to_vec() { let v = abc(); let t = v[1..].to_vec(); is(&t, &v[1..]); let u = Vec::from(&v[..2]); is(&u, &v[..2]); let w: Vec<u64> = v[..].into(); is(&w, &v); let b: Box<[u64]> = v.clone().into_boxed_slice(); let x = b.into_vec(); is(&x, &v); let b: Box<[u64]> = v.clone().into(); require(b.len() == 5, "boxed") }
pub fn h_slice_fill() { let mut v = abc(); v[1..3].fill(4); require(v[1] == 4 && v[2] == 4 && v.len() == 5, "filled"); for x in v.iter_mut() { *x = 1 } require(v[0] == 1 && v[4] == 1, "filled") }
pub fn h_slice_copy() { let mut v = abc(); let s = v.clone(); v[..2].copy_from_slice(&s[3..]); require(v[0] == s[3] && v[1] == s[4] && v[2] == s[2], "copied"); v[..2].clone_from_slice(&s[..2]); is(&v, &s); v.copy_within(1..3, 0); require(v[0] == s[1] && v[1] == s[2], "moved") }
pub fn h_slice_swap() { let mut v = abc(); let s = v.clone(); v.swap(0, 3); require(v[0] == s[3] && v[3] == s[0], "swapped"); v.reverse(); require(v[4] == s[3] && v[0] == s[4], "reversed") }
pub fn h_slice_split() { let v = abc(); let (a, b) = v.split_at(2); is(a, &v[..2]); is(b, &v[2..]); let (f, r) = v.split_first().unwrap(); require(*f == v[0] && r.len() == 4, "split"); let (f, r) = v.split_last().unwrap(); require(*f == v[4] && r.len() == 4, "split") }
pub fn h_slice_split_mut() { let mut v = abc(); { let (a, b) = v.split_at_mut(2); a[0] = 1; b[0] = 2; } require(v[0] == 1 && v[2] == 2, "split") }
pub fn h_slice_chunks() { let v = abc(); let mut n = 0; for c in v.chunks(2) { n += c.len() } require(n == 5, "chunks"); let mut n = 0; for c in v.windows(2) { n += c.len() } require(n == 8, "windows") }
pub fn h_slice_chunks_exact() { let v = abc(); let mut n = 0; for c in v.chunks_exact(2) { n += c.len() } require(n == 4, "chunks") }
pub fn h_slice_contains() { let v = abc(); require(v.contains(&v[3]), "contains"); require(v.starts_with(&v[..2]), "starts"); require(v.ends_with(&v[2..]), "ends") }
pub fn h_iter_fold() { let v = abc(); let s = v.iter().fold(0, |a, x| a + x); require(s == 5 * v[0] + 10, "fold"); let t: u64 = v.iter().sum(); require(t == s, "sum"); let t: u64 = v.iter().map(|x| x * 2).sum(); require(t == 2 * s, "sum") }
pub fn h_iter_all() { let v = abc(); let a = v[0]; require(v.iter().all(|&x| x >= a), "all"); require(v.iter().any(|&x| x > a), "any"); require(v.iter().position(|&x| x == a + 2) == Some(2), "position"); require(v.iter().rposition(|&x| x == a + 2) == Some(2), "position"); require(v.iter().find(|&&x| x > a).is_some(), "find") }
pub fn h_iter_nth() { let v = abc(); require(v.iter().nth(2) == Some(&v[2]), "nth"); require(v.iter().count() == 5, "count"); require(v.iter().last() == Some(&v[4]), "last"); require(v.iter().len() == 5, "len"); require(v.iter().max() == Some(&v[4]), "max"); require(v.iter().skip(1).next() == Some(&v[1]), "skip"); require(v.iter().size_hint() == (5, Some(5)), "hint") }
pub fn h_iter_zip() { let v = abc(); let mut n = 0; for (a, b) in v.iter().zip(v[1..].iter()) { require(*b == *a + 1, "zip"); n += 1; } require(n == 4, "zip"); for (i, a) in v.iter().enumerate() { require(*a == v[0] + i as u64, "enumerate") } }
pub fn h_iter_take() { let v = abc(); let mut n = 0; for a in v.iter().take(3) { n += 1; require(*a < v[3], "take") } require(n == 3, "take"); let mut n = 0; for _ in v.iter().step_by(2) { n += 1 } require(n == 3, "step"); let mut n = 0; for _ in v.iter().chain(v.iter()) { n += 1 } require(n == 10, "chain"); let mut n = 0; for _ in v.iter().take_while(|&&x| x < v[2]) { n += 1 } require(n == 2, "take while"); v.iter().for_each(|x| require(*x >= v[0], "each")); require(v.iter().filter(|&&x| x > v[2]).count() == 2, "filter") }
pub fn h_iter_repeat() { let v: Vec<u64> = std::iter::repeat(3).take(4).collect(); is(&v, &[3, 3, 3, 3]); let mut it = v.iter().peekable(); require(it.peek() == Some(&&3), "peek"); let v: Vec<u64> = (0..3).rev().collect(); is(&v, &[2, 1, 0]); let v: Vec<u64> = std::iter::once(1).chain(2..=3).collect(); is(&v, &[1, 2, 3]); let w: Vec<u64> = std::iter::successors(Some(1u64), |x| if *x < 100 { Some(x * 10) } else { None }).collect(); is(&w, &[1, 10, 100]) }
pub fn h_range_methods() { let mut s = 0; (0..4u64).for_each(|x| s += x); require(s == 6, "each"); require((0..5u64).fold(0, |a, x| a + x) == 10, "fold"); require((1..=3u64).sum::<u64>() == 6, "sum"); let mut s = 0; for i in (0..10u64).step_by(3) { s += i } require(s == 18, "step"); for i in (0..3u64).rev() { s -= i } require(s == 15, "rev"); require((0..3u64).contains(&2), "contains"); require((0..9u64).find(|x| x * x > 10) == Some(4), "find"); require((0..9u64).take_while(|x| x * x < 10).last() == Some(3), "take") }
pub fn h_deque() { let mut q: VecDeque<u64> = VecDeque::new(); q.push_back(1); q.push_back(2); q.push_back(3); q.push_front(0); require(q.iter().count() == 4, "iter"); require(q[1] == 1, "index"); let d: Vec<u64> = q.drain(..2).collect(); is(&d, &[0, 1]); require(q.len() == 2, "drained"); q.extend(d.iter().cloned()); require(q.len() == 4 && q[2] == 0, "extended"); q.truncate(3); require(q.len() == 3, "truncated"); let v: Vec<u64> = q.into_iter().collect(); is(&v, &[2, 3, 0]) }
pub fn h_deque_more() { let mut q: VecDeque<u64> = vec![1u64, 2, 3].into_iter().collect(); require(q.contains(&2), "contains"); for x in q.iter_mut() { *x += 1 } require(q.front() == Some(&2) && q.back() == Some(&4), "ends"); let mut r: VecDeque<u64> = VecDeque::from(vec![9]); q.append(&mut r); require(q.len() == 4 && r.is_empty(), "appended"); for x in &q { require(*x > 1, "each") } q.clear(); require(q.is_empty(), "cleared") }
pub fn h_option() { let a: Option<u64> = Some(3); require(a.map(|x| x + 1).unwrap_or(0) == 4, "map"); require(a.and_then(|x| if x > 5 { Some(x) } else { None }).is_none(), "and then"); require(a.filter(|&x| x == 3).is_some(), "filter"); require(a.ok_or(1u8) == Ok(3), "ok or"); require(a.map_or(0, |x| x) == 3, "map or"); require(a.iter().count() == 1, "iter"); let mut b = a; require(b.take() == Some(3) && b.is_none(), "take"); require(a.xor(None) == Some(3) && a.zip(Some(1)).is_some(), "zip") }
pub fn h_ints() { let a: u8 = any_word(); require(a.rotate_left(3).rotate_right(3) == a, "rotate"); require(a.swap_bytes() == a && a.reverse_bits().reverse_bits() == a, "reverse"); require(a.count_ones() + a.count_zeros() == 8, "count"); require(a.is_power_of_two() == (a.count_ones() == 1), "pow2"); let b: u16 = any(); require(b.checked_add(1).is_none() == (b == 65535), "add"); require(b.saturating_sub(1) <= b, "sub"); require(b.overflowing_add(1).1 == (b == 65535), "overflow"); require(b.abs_diff(3) == if b > 3 { b - 3 } else { 3 - b }, "diff"); require(b.div_euclid(3) == b / 3 && b.rem_euclid(3) == b % 3, "euclid"); require(b.min(3) <= 3 && b.max(3) >= 3 && b.clamp(1, 4) >= 1, "clamp") }
pub fn h_ints2() { let a: u16 = any_word(); assume(a != 0); require(a.leading_zeros() + (16 - a.leading_zeros()) == 16, "lz"); require(a.trailing_zeros() < 16, "tz"); require(a.ilog2() == 15 - a.leading_zeros(), "log"); require(a.checked_ilog2().is_some(), "log"); let b: u64 = any(); assume(b < 1000); require(b.div_ceil(7) == (b + 6) / 7, "ceil"); require(b.next_multiple_of(8) % 8 == 0, "multiple"); require(b.pow(2) == b * b, "pow"); require(b.checked_pow(2).is_some(), "pow"); require(b.next_power_of_two() >= b, "pow2"); require(b.wrapping_neg().wrapping_add(b) == 0, "neg"); require((b as i64).abs() as u64 == b, "abs"); require(u64::try_from(b as i64).is_ok() && u32::try_from(b).is_ok() && u8::try_from(b).is_ok() == (b < 256), "try") }
pub fn h_bits_tricks() { let a: u16 = any_word(); require(a & a.wrapping_neg() <= a, "lowest"); require(a & (a.wrapping_sub(1)) <= a, "clear lowest"); require((a | !a) == u16::MAX, "all"); require((a ^ a) == 0, "none"); require(a.wrapping_shl(17) == a << 1, "shl"); require(a.checked_shl(16).is_none() && a.checked_shr(3) == Some(a >> 3), "shr"); require(u16::from_le_bytes(a.to_le_bytes()) == a && u16::from_be_bytes(a.to_be_bytes()) == a, "bytes"); require(u16::from_be_bytes(a.to_le_bytes()) == a.swap_bytes(), "bytes") }
pub fn h_mem() { let mut a = 1u64; let mut b = 2u64; std::mem::swap(&mut a, &mut b); require(a == 2 && b == 1, "swap"); require(std::mem::replace(&mut a, 5) == 2 && a == 5, "replace"); let mut v = abc(); let w = std::mem::take(&mut v); require(w.len() == 5 && v.is_empty(), "take"); let x = Box::new(3u64); require(*x == 3, "box"); let c = std::rc::Rc::new(4u64); require(*c == 4, "rc") }
pub fn h_cells() { let c = std::cell::RefCell::new(3u64); *c.borrow_mut() += 1; require(*c.borrow() == 4, "refcell"); let d = std::cell::Cell::new(1u64); d.set(d.get() + 1); require(d.get() == 2 && d.take() == 2, "cell") }
pub fn h_sort() { let mut v = vec![3u64, 1, 2]; v.sort(); is(&v, &[1, 2, 3]); require(v.binary_search(&2) == Ok(1), "search"); v.sort_unstable_by(|a, b| b.cmp(a)); is(&v, &[3, 2, 1]); v.dedup(); require(v.len() == 3, "dedup"); require(v.iter().min() == Some(&1), "min"); require(v.partition_point(|x| *x > 1) == 2, "partition") }
pub fn h_arrays() { let mut a = [0u64; 4]; a[2] = 5; let s: u64 = a.iter().sum(); require(s == 5, "sum"); for x in a { require(x == 0 || x == 5, "each") } let b = a.map(|x| x + 1); require(b[0] == 1 && b[2] == 6, "map"); require(a == [0, 0, 5, 0], "eq"); require(&a[..] == &vec![0, 0, 5, 0][..], "eq"); let v: Vec<u64> = a.to_vec(); is(&v, &a); let w = Vec::from(a); is(&w, &a); require(v == w, "eq"); require(v == a, "eq"); require(v[..] < b[..], "cmp") }
pub fn h_slice_get() { let v = abc(); require(v.get(1..3).is_some() && v.get(3..9).is_none(), "get"); require(v.get(7).is_none(), "get"); require(v[1..=2].len() == 2 && v[..=2].len() == 3, "ranges"); require(v.first_chunk::<2>().is_some(), "chunk"); require(v.concat_len() == 5, "len"); require(v.split_at_checked(9).is_none(), "split") }
trait CL { fn concat_len(&self) -> usize; } impl CL for Vec<u64> { fn concat_len(&self) -> usize { self.as_slice().len() } }
pub fn h_result() { let r: Result<u64, u8> = Ok(3); require(r.map(|x| x + 1).unwrap_or_default() == 4, "map"); require(r.map_err(|e| e + 1).is_ok() && r.ok() == Some(3) && r.and_then(|x| if x > 9 { Ok(x) } else { Err(1) }).is_err(), "chain"); fn q() -> Result<u64, u8> { let x: Result<u64, u8> = Err(2); let y = x?; Ok(y) } require(q() == Err(2), "question"); let c: Result<Vec<u64>, u8> = vec![Ok(1u64), Err(7u8)].into_iter().collect(); require(c == Err(7), "collect"); let c: Option<Vec<u64>> = vec![Some(1u64), Some(2)].into_iter().collect(); require(c.unwrap().len() == 2, "collect") }
