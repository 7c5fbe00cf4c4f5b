//! Specification primitives: interpreted by the analyzer, never executed.
/// An arbitrary value; integers are index-like (linear domain).
#[inline(never)] pub fn any<T>() -> T { loop {} }
/// An arbitrary word (bit-vector domain).
#[inline(never)] pub fn any_word<T>() -> T { loop {} }
#[inline(never)] pub fn assume(_c: bool) { loop {} }
#[inline(never)] pub fn require(_c: bool, _m: &'static str) { loop {} }
/// Panics are acceptable from here on (default: every panic is a violation).
#[inline(never)] pub fn allow_panic() { loop {} }
#[inline(never)] pub fn forbid_panic() { loop {} }
/// The bit of `w` at `i` (false beyond its width).
#[inline(never)] pub fn bit<B: Copy>(_w: B, _i: u64) -> bool { loop {} }
/// All bits of `w` at and above `k` are zero.
#[inline(never)] pub fn zero_above<B: Copy>(_w: B, _k: u64) -> bool { loop {} }
/// A copy of the abstract value, whatever its type.
#[inline(never)] pub fn snapshot<T>(_x: &T) -> T { loop {} }
/// Refine the partition: one concrete value of `x` per partition.
#[inline(never)] pub fn split(_x: u64) -> u64 { loop {} }
/// The number of one bits of `w`.
#[inline(never)] pub fn popcount<B: Copy>(_w: B) -> u64 { loop {} }
/// Bits `s .. s+n` of `w` as a word (reference semantics).
#[inline(never)] pub fn extract<B: Copy>(_w: B, _s: u64, _n: u64) -> B { loop {} }
/// `w` with bits `s .. s+n` replaced by the low bits of `x` (reference semantics).
#[inline(never)] pub fn splice<B: Copy>(_w: B, _s: u64, _n: u64, _x: B) -> B { loop {} }
/// Number of storage blocks of the block vector inside `x`, wherever its type keeps it.
#[inline(never)] pub fn stored_blocks<T>(_x: &T) -> u64 { loop {} }
/// Storage block `i` of the block vector inside `x`.
#[inline(never)] pub fn stored_block<T, B>(_x: &T, _i: u64) -> B { loop {} }
/// Allocated blocks of the block vector inside `x`.
#[inline(never)] pub fn block_capacity<T>(_x: &T) -> u64 { loop {} }
/// Clear the bits of the last storage block of `x` at and above `bits` mod the width.
#[inline(never)] pub fn gate_tail<T, B>(_x: &mut T, _bits: u64) { loop {} }
/// Heap bytes owned by `x`: allocated capacity of every vector and box in it, wherever its type
/// keeps them, and what its elements own in turn.
#[inline(never)] pub fn owned_bytes<T>(_x: &T) -> usize { loop {} }
/// From here on a path of `n` basic blocks (of all functions) counts as one that never ends; 0: no limit.
#[inline(never)] pub fn finish_within(_n: u64) { loop {} }
