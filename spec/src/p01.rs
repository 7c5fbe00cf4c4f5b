//! P01: space accounting covers all owned memory exactly once.
use crate::util::*;
use succinct::rank::*;
use succinct::select::BinSearchSelect;
use succinct::{impl_stack_only_space_usage, SpaceUsage};
use std::mem::size_of;

/// A component which owns an unknown number of heap bytes.
#[derive(Debug)]
pub struct Part { pub heap: u16 }
impl SpaceUsage for Part {
    fn is_stack_only() -> bool { false }
    fn heap_bytes(&self) -> usize { self.heap as usize }
}
/// A component without heap bytes.
#[derive(Debug, Clone, Copy)]
pub struct Flat { pub x: u32, pub y: u8 }
impl_stack_only_space_usage!(Flat);

fn account<T: SpaceUsage>(x: &T) {
    let own = owned_bytes(x);
    require(x.heap_bytes() == own, "the heap bytes are those of every owned component, each once");
    require(T::stack_bytes() == size_of::<T>(), "the stack bytes are the size of the type");
    require(x.total_bytes() == size_of::<T>() + own, "the total is the size of the type and everything it owns");
    if T::is_stack_only() { require(own == 0, "what is declared stack-only owns no heap bytes"); }
}
fn flat<T: SpaceUsage>() {
    let x: T = any();
    require(T::is_stack_only() && x.heap_bytes() == 0, "a plain type is stack-only");
    require(T::stack_bytes() == size_of::<T>() && x.total_bytes() == size_of::<T>(), "a plain type takes its size");
}
fn owning<T: SpaceUsage>() {
    require(!T::is_stack_only(), "what can own heap bytes is not stack-only");
    let x: T = any();
    account(&x);
}
macro_rules! flats { ($($n:ident: $t:ty),*) => { $( pub fn $n() { flat::<$t>() } )* } }
flats! { h_unit: (), h_u8: u8, h_u16: u16, h_u32: u32, h_u64: u64, h_usize: usize, h_i8: i8, h_i16: i16, h_i32: i32, h_i64: i64, h_isize: isize,
    h_f32: f32, h_f64: f64, h_ref: &'static Part, h_ref_vec: &'static Vec<u64>, h_slice_ref: &'static [u64], h_slice_ref_part: &'static [Part], h_user: Flat,
    h_flat1: (u8,), h_flat2: (Flat, u64), h_flat3: (u8, u32, u8), h_flat4: (u8, u16, u32, u64), h_flat5: (u8, Flat, u8, Flat, u64),
    h_flat12: (u8, u16, u32, u64, u8, u16, u32, u64, u8, u16, u32, usize) }
macro_rules! owns { ($($n:ident: $t:ty),* $(,)?) => { $( pub fn $n() { owning::<$t>() } )* } }
type P = Part;
type F = u32;
owns! {
    h_part1: (P,), h_part2: (P, P), h_part3: (P, P, P), h_part4: (P, P, P, P), h_part5: (P, P, P, P, P), h_part6: (P, P, P, P, P, P), h_part7: (P, P, P, P, P, P, P),
    h_part8: (P, P, P, P, P, P, P, P), h_part9: (P, P, P, P, P, P, P, P, P), h_part10: (P, P, P, P, P, P, P, P, P, P), h_part11: (P, P, P, P, P, P, P, P, P, P, P),
    h_part12: (P, P, P, P, P, P, P, P, P, P, P, P),
    h_mix2a: (P, F), h_mix2b: (F, P), h_mix3a: (P, F, F), h_mix3b: (F, P, F), h_mix3c: (F, F, P), h_mix4: (F, F, F, P), h_mix5: (P, F, F, F, F), h_mix6: (F, F, F, F, F, P),
    h_mix7: (F, F, F, P, F, F, F), h_mix8: (F, F, F, F, F, F, F, P), h_mix9: (P, F, F, F, F, F, F, F, F), h_mix10: (F, F, F, F, F, F, F, F, F, P), h_mix11: (F, F, F, F, F, P, F, F, F, F, F),
    h_mix12: (F, F, F, F, F, F, F, F, F, F, F, P), h_tuple_nest: (u8, (F, P), P),
    h_vec_u8: Vec<u8>, h_vec_u64: Vec<u64>, h_vec_flat: Vec<Flat>, h_vec_tuple: Vec<(u8, u32)>, h_tuple_vec: (Vec<u8>, u16, Vec<u64>), h_vec_unit: Vec<()>,
    h_vec_ref: Vec<&'static Part>,
    h_box_u8: Box<u8>, h_box_part: Box<Part>, h_box_box: Box<Box<Part>>, h_box_vec: Box<Vec<u16>>, h_box_tuple: Box<(u8, P, u64)>,
    h_bv_u8: BitVector<u8>, h_bv_u16: BitVector<u16>, h_bv_u32: BitVector<u32>, h_bv_u64: BitVector<u64>, h_bv_usize: BitVector<usize>,
    h_iv_u8: IntVector<u8>, h_iv_u16: IntVector<u16>, h_iv_u32: IntVector<u32>, h_iv_u64: IntVector<u64>, h_iv_usize: IntVector<usize>,
    h_rank9: Rank9<Part>, h_rank9_bv: Rank9<BitVector<u64>>, h_rank9_vec: Rank9<Vec<u64>>, h_jacobson: JacobsonRank<Part>, h_jacobson_bv: JacobsonRank<BitVector<u8>>, h_jacobson_vec: JacobsonRank<Vec<u32>>,
    h_select: BinSearchSelect<Part>, h_select_rank9: BinSearchSelect<Rank9<Part>>, h_select_jacobson: BinSearchSelect<JacobsonRank<Part>>,
    h_box_jacobson: Box<JacobsonRank<Part>>, h_tuple_structs: (BitVector<u8>, Part, IntVector<u16>),
}
/// Vectors of up to three elements which own heap themselves.
fn elements<T: SpaceUsage + std::fmt::Debug>(max: u64) {
    let v: Vec<T> = any();
    let n = v.len() as u64;
    assume(n <= max);
    split(n);
    account(&v);
}
pub fn h_vec_part() { elements::<Part>(4) }
pub fn h_vec_vec() { elements::<Vec<u16>>(3) }
pub fn h_vec_box() { elements::<Box<u32>>(3) }
pub fn h_vec_mix() { elements::<(u8, Part)>(3) }
pub fn h_vec_bv() { elements::<BitVector<u8>>(2) }
pub fn h_vec_iv() { elements::<IntVector<u16>>(2) }
pub fn h_vec_rank9() { elements::<Rank9<BitVector<u64>>>(2) }
pub fn h_t_vec_part() { elements::<Part>(12) }
pub fn h_t_vec_vec() { elements::<Vec<u64>>(8) }
pub fn h_t_vec_bv() { elements::<BitVector<u64>>(6) }
pub fn h_select_flat() { require(<BinSearchSelect<Flat> as SpaceUsage>::is_stack_only() == <Flat as SpaceUsage>::is_stack_only(), "a select structure over a stack-only rank structure owns nothing"); flat::<BinSearchSelect<Flat>>() }
/// After real operations, not only for unknown states.
pub fn h_pushed() {
    let mut v = BitVector::<u8>::new();
    account(&v);
    for _ in 0 .. 9 { v.push_bit(true); }
    account(&v);
    let mut w = IntVector::<u16>::with_capacity(5, 4);
    account(&w);
    w.push(9);
    account(&w);
    require(owned_bytes(&w) >= 4 && owned_bytes(&v) >= 2, "stored elements take space");
}
/// Borrowing slices own nothing.
pub fn h_bit_slice() {
    let v = any_bv::<u8>();
    let r = any_range(&v);
    let s = BitSlice::new(&v, r);
    require(<BitSlice<'static, BitVector<u8>> as SpaceUsage>::is_stack_only() && s.heap_bytes() == 0, "a slice owns no heap bytes");
    require(s.total_bytes() == size_of::<BitSlice<'static, BitVector<u8>>>(), "a slice takes the size of its type");
}
pub fn h_bit_slice_mut() {
    let mut v = any_bv::<u16>();
    let r = any_range(&v);
    let s = BitSliceMut::new(&mut v, r);
    require(<BitSliceMut<'static, BitVector<u16>> as SpaceUsage>::is_stack_only() && s.heap_bytes() == 0, "a slice owns no heap bytes");
    require(s.total_bytes() == size_of::<BitSliceMut<'static, BitVector<u16>>>(), "a slice takes the size of its type");
}
