//! D01: wrappers and adapters answer as what they wrap.
use crate::util::*;
use succinct::rank::*;
use succinct::select::*;
use succinct::stream::BitBuffer;
use succinct::{impl_bit_rank_support_adapter, impl_bit_vec_adapter, impl_rank_support_adapter};
use succinct::{impl_select0_support_adapter, impl_select1_support_adapter, impl_select_support_adapter};

/// `w` answers every bit-vector query as `inner` does, and rejects what it rejects.
fn same_bits<W: BitVec, I: BitVec<Block = W::Block>>(w: &W, inner: &I) {
    let n = nb::<W::Block>();
    let len = inner.bit_len();
    require(w.bit_len() == len, "the wrapper has the bits of what it wraps");
    require(w.block_len() as u64 == inner.block_len() as u64, "the wrapper has the blocks of what it wraps");
    let k: u64 = any();
    assume(k < 3);
    match split(k) {
        0 => {
            let i: u64 = any();
            assume(i < inner.block_len() as u64);
            require(w.get_block(i as usize) == inner.get_block(i as usize), "get_block of the wrapper is that of what it wraps");
        }
        1 => {
            let i: u64 = any();
            assume(i < len);
            require(w.get_bit(i) == inner.get_bit(i), "get_bit of the wrapper is that of what it wraps");
        }
        _ => {
            let s: u64 = any(); let c: u64 = any();
            assume(c <= n && s <= len && c <= len - s);
            let a = w.get_bits(s, c as usize);
            require(a == ref_span(inner, s, c), "get_bits of the wrapper is that of what it wraps");
        }
    }
}
fn rejects<W: BitVec>(w: &W, len: u64) {
    let n = nb::<W::Block>();
    let i: u64 = any();
    allow_panic();
    let k: u64 = any();
    assume(k < 3);
    match split(k) {
        0 => { assume(i >= blocks_for::<W::Block>(len)); w.get_block(i as usize); }
        1 => { assume(i >= len); w.get_bit(i); }
        _ => { let c: u64 = any(); assume(i > len || c > len - i || c > n); w.get_bits(i, c as usize); }
    }
    must_panic()
}
type Raw<B> = ByBlock<B>;
fn ok<B: BlockType>(s: &Raw<B>) -> bool { s.v.len() as u64 == blocks_for::<B>(s.bits) }
fn rank9() -> Rank9<Raw<u64>> { let r: Rank9<Raw<u64>> = any(); assume(ok(r.inner())); r }
fn jacobson<B: BlockType>() -> JacobsonRank<Raw<B>> { let r: JacobsonRank<Raw<B>> = any(); assume(ok(r.inner())); r }
fn buffer<B: BlockType>() -> BitBuffer<Raw<B>> { let r: BitBuffer<Raw<B>> = any(); assume(ok(r.inner())); r }
pub fn h_rank9_bits() { let r = rank9(); same_bits(&r, r.inner()) }
pub fn h_rank9_bits_reject() { let r = rank9(); let n = r.inner().bits; rejects(&r, n) }
pub fn h_jacobson_bits<B: BlockType>() { let r = jacobson::<B>(); same_bits(&r, r.inner()) }
pub fn h_jacobson_bits_reject<B: BlockType>() { let r = jacobson::<B>(); let n = r.inner().bits; rejects(&r, n) }
pub fn h_buffer_bits<B: BlockType>() { let r = buffer::<B>(); same_bits(&r, r.inner()) }
pub fn h_buffer_bits_reject<B: BlockType>() { let r = buffer::<B>(); let n = r.inner().bits; rejects(&r, n) }
pub fn h_select_bits<B: BlockType>() { let s = BinSearchSelect::new(jacobson::<B>()); same_bits(&s, s.inner().inner()) }
pub fn h_select_rank9_bits() { let s = BinSearchSelect::new(rank9()); same_bits(&s, s.inner().inner()) }
/// A wrapped bit vector keeps its own implementations; the wrapper's defaults must agree with them.
pub fn h_buffer_bitvector<B: BlockType>() { let b = BitBuffer::from(any_bv::<B>()); same_bits(&b, b.inner()) }
pub fn h_rank9_bitvector() { let r: Rank9<BitVector<u64>> = any(); assume(stored_blocks(r.inner()) == blocks_for::<u64>(r.inner().bit_len())); same_bits(&r, r.inner()) }
pub fn h_buffer_select<B: BlockType>() { let b = BitBuffer::from(BinSearchSelect::new(jacobson::<B>())); same_bits(&b, b.inner().inner().inner()) }

/// Writing through a buffer writes what it wraps.
pub fn h_buffer_set<B: BlockType>() {
    let mut b = buffer::<B>();
    let old = snapshot(b.inner());
    let n = nb::<B>();
    let len = old.bits;
    let k: u64 = any(); let i: u64 = any(); let w: B = any_word();
    assume(k < 3);
    let (s, c, x) = match split(k) {
        0 => { assume(i < old.v.len() as u64); b.set_block(i as usize, w); (i * n, n, w) }
        1 => { assume(i < len); let x: bool = any(); b.set_bit(i, x); (i, 1, if x { B::one() } else { B::zero() }) }
        _ => { let c: u64 = any(); assume(c <= n && i <= len && c <= len - i); b.set_bits(i, c as usize, w); (i, c, w) }
    };
    let q: u64 = any();
    assume(q < old.v.len() as u64);
    require(b.inner().bits == len && b.inner().v.len() == old.v.len(), "writing a bit buffer's bits keeps its size");
    require(b.inner().v[q as usize] == put(old.v[q as usize], q, s, c, x), "writing through a bit buffer changes exactly the bits of what it wraps");
}

/// Constructors and accessors hand the wrapped store through unchanged.
fn same_store<B: BlockType>(a: &Raw<B>, b: &Raw<B>) {
    require(a.bits == b.bits && a.v.len() == b.v.len(), "the wrapped store keeps its size");
    let k: u64 = any();
    assume(k < b.v.len() as u64);
    require(a.v[k as usize] == b.v[k as usize], "the wrapped store keeps its contents");
}
pub fn h_rank9_inner() { let r = rank9(); let s = snapshot(r.inner()); same_store(&r.into_inner(), &s) }
pub fn h_jacobson_inner<B: BlockType>() { let r = jacobson::<B>(); let s = snapshot(r.inner()); same_store(&r.into_inner(), &s) }
pub fn h_buffer_inner<B: BlockType>() {
    let s = any_by_block::<B>();
    let old = snapshot(&s);
    let end: bool = any();
    let b = if end { BitBuffer::append(s) } else { BitBuffer::from(s) };
    require(b.position() == if end { old.bits } else { 0 }, "a buffer starts at the named end");
    same_store(b.inner(), &old);
    same_store(&b.into_inner(), &old);
}
pub fn h_select_inner<B: BlockType>() {
    let r = jacobson::<B>();
    let s = snapshot(r.inner());
    let b = BinSearchSelect::new(r);
    same_store(b.inner().inner(), &s);
    same_store(&b.into_inner().into_inner(), &s);
}
fn construct<B: BlockType>(k: u64) -> Raw<B> { let s = any_by_block::<B>(); let x = s.v.len() as u64; assume(x <= k); split(x); s }
pub fn h_rank9_construct() { let s = construct::<u64>(3); let old = snapshot(&s); let r = Rank9::new(s); same_store(r.inner(), &old) }
pub fn h_jacobson_construct() { let s = construct::<u8>(4); let old = snapshot(&s); let r = JacobsonRank::new(s); same_store(r.inner(), &old) }

/// A rank structure over four symbols, and a select structure over them.
pub struct Symbols { pub n: u64, pub t: Vec<u64>, pub s: Vec<u64> }
impl RankSupport for Symbols {
    type Over = u8;
    fn rank(&self, p: u64, v: u8) -> u64 { self.t[(p * 4 + v as u64) as usize] }
    fn limit(&self) -> u64 { self.n }
}
impl SelectSupport for Symbols {
    type Over = u8;
    fn select(&self, i: u64, v: u8) -> Option<u64> { let k = i * 4 + v as u64; if k < self.s.len() as u64 { Some(self.s[k as usize]) } else { None } }
}
/// A bit structure with a table for each query.
pub struct Tables { pub n: u64, pub r: Vec<u64>, pub one: Vec<u64>, pub zero: Vec<u64> }
impl RankSupport for Tables {
    type Over = bool;
    fn rank(&self, p: u64, v: bool) -> u64 { let c = self.r[p as usize]; if v { c } else { p + 1 - c } }
    fn limit(&self) -> u64 { self.n }
}
impl BitRankSupport for Tables {}
fn look(t: &Vec<u64>, i: u64) -> Option<u64> { if i < t.len() as u64 { Some(t[i as usize]) } else { None } }
impl Select1Support for Tables { fn select1(&self, i: u64) -> Option<u64> { look(&self.one, i) } }
impl Select0Support for Tables { fn select0(&self, i: u64) -> Option<u64> { look(&self.zero, i) } }

pub struct Adapter<T> { pub tag: u64, inside: T, pub more: u64 }
impl<B: BlockType> BitVec for Adapter<Raw<B>> { impl_bit_vec_adapter!(B, inside); }
// over concrete structures, so that an adapter asking for the wrong query still compiles and is judged
impl RankSupport for Adapter<Symbols> { impl_rank_support_adapter!(u8, inside); }
impl RankSupport for Adapter<Tables> { impl_rank_support_adapter!(bool, inside); }
impl BitRankSupport for Adapter<Tables> { impl_bit_rank_support_adapter!(inside); }
impl Select1Support for Adapter<Tables> { impl_select1_support_adapter!(inside); }
impl Select0Support for Adapter<Tables> { impl_select0_support_adapter!(inside); }
impl SelectSupport for Adapter<Symbols> { impl_select_support_adapter!(u8, inside); }

fn same_rank<W: RankSupport<Over = u8>>(w: &W, i: &Symbols) {
    require(w.limit() == i.n, "the limit of the wrapper is that of what it wraps");
    let p: u64 = any(); let v: u8 = any();
    assume(v < 4 && p < i.n);
    require(w.rank(p, v) == i.rank(p, v), "rank of the wrapper is that of what it wraps");
}
fn any_symbols() -> Symbols { let i: Symbols = any(); assume(i.n <= 1 << 60 && i.t.len() as u64 == i.n * 4); i }
fn any_tables() -> Tables { let i: Tables = any(); assume(i.r.len() as u64 == i.n); i }
pub fn h_select_rank() { let s = BinSearchSelect::new(any_symbols()); same_rank(&s, s.inner()) }
pub fn h_adapter_rank() { let a = Adapter { tag: 0, inside: any_symbols(), more: 0 }; same_rank(&a, &a.inside) }
fn same_bit_rank<W: BitRankSupport>(w: &W, i: &Tables) {
    require(w.limit() == i.n, "the limit of the wrapper is that of what it wraps");
    let p: u64 = any();
    assume(p < i.n && i.r[p as usize] <= p + 1);
    let one = i.r[p as usize];
    require(w.rank1(p) == one, "rank1 of the wrapper is that of what it wraps");
    require(w.rank0(p) == p + 1 - one, "rank0 of the wrapper is that of what it wraps");
    require(w.rank(p, true) == one && w.rank(p, false) == p + 1 - one, "rank of the wrapper is that of what it wraps");
}
pub fn h_select_bit_rank() { let s = BinSearchSelect::new(any_tables()); same_bit_rank(&s, s.inner()) }
pub fn h_adapter_bit_rank() { let a = Adapter { tag: 0, inside: any_tables(), more: 0 }; same_bit_rank(&a, &a.inside) }
pub fn h_adapter_bits<B: BlockType>() { let a = Adapter { tag: 0, inside: any_by_block::<B>(), more: 0 }; same_bits(&a, &a.inside) }
pub fn h_adapter_bits_reject<B: BlockType>() { let a = Adapter { tag: 0, inside: any_by_block::<B>(), more: 0 }; let n = a.inside.bits; rejects(&a, n) }
pub fn h_adapter_select() {
    let a = Adapter { tag: 0, inside: any_symbols(), more: 0 };
    let i: u64 = any(); let v: u8 = any();
    assume(v < 4 && i <= 1 << 60);
    require(a.select(i, v) == a.inside.select(i, v), "select of the wrapper is that of what it wraps");
}
pub fn h_adapter_bit_select() {
    let a = Adapter { tag: 0, inside: any_tables(), more: 0 };
    let i: u64 = any();
    require(a.select1(i) == look(&a.inside.one, i), "select1 of the wrapper is that of what it wraps");
    require(a.select0(i) == look(&a.inside.zero, i), "select0 of the wrapper is that of what it wraps");
}

/// Slices, references to them and vectors of blocks are bit vectors of their blocks.
fn view<V: BitVec + ?Sized>(v: &V, raw: &[V::Block]) {
    let n = nb::<V::Block>();
    require(v.block_len() == raw.len(), "a slice of blocks has those blocks");
    require(v.bit_len() == raw.len() as u64 * n, "a slice of blocks has all of their bits");
    let k: u64 = any();
    assume(k < raw.len() as u64);
    require(v.get_block(k as usize) == raw[k as usize], "block k of a slice of blocks is element k");
    let o: u64 = any();
    assume(o < n);
    require(v.get_bit(k * n + o) == bit(raw[k as usize], o), "bit i of a slice of blocks is bit i mod n of element i / n");
}
fn some<B: BlockType>() -> Vec<B> { let v: Vec<B> = any(); assume(v.len() as u64 <= 1 << 57); v }
pub fn h_slice<B: BlockType>() { let v = some::<B>(); view::<[B]>(&v[..], &v) }
pub fn h_slice_ref<B: BlockType>() { let v = some::<B>(); let r: &[B] = &v; view(&r, &v) }
pub fn h_vec<B: BlockType>() { let v = some::<B>(); view::<Vec<B>>(&v, &v) }
pub fn h_slice_mut<B: BlockType>() { let mut v = some::<B>(); let s = snapshot(&v); let r: &mut [B] = &mut v; view(&r, &s) }
fn change<V: BitVecMut>(v: &mut V, k: u64, o: u64, w: V::Block) -> V::Block where V::Block: BlockType {
    let n = nb::<V::Block>();
    let old = v.get_block(k as usize);
    let whole: bool = any();
    if whole { v.set_block(k as usize, w); w }
    else { let x: bool = any(); v.set_bit(k * n + o, x); splice(old, o, 1, if x { <V::Block as succinct::storage::BlockType>::low_mask(1) } else { zero_word() }) }
}
fn changed<B: BlockType>(now: &[B], old: &[B], k: u64, q: u64, w: B) {
    require(now.len() == old.len(), "writing a block keeps the length");
    require(now[q as usize] == if q == k { w } else { old[q as usize] }, "writing a slice of blocks changes exactly the named block");
}
fn where_to<B: BlockType>(len: usize) -> (u64, u64, u64) { let k: u64 = any(); let o: u64 = any(); let q: u64 = any(); assume(k < len as u64 && q < len as u64 && o < nb::<B>()); (k, o, q) }
pub fn h_slice_mut_set<B: BlockType>() { let mut v = some::<B>(); let s = snapshot(&v); let (k, o, q) = where_to::<B>(v.len()); let w: B = any_word(); let x = { let mut r: &mut [B] = &mut v; change(&mut r, k, o, w) }; changed(&v, &s, k, q, x) }
pub fn h_vec_set<B: BlockType>() { let mut v = some::<B>(); let s = snapshot(&v); let (k, o, q) = where_to::<B>(v.len()); let w: B = any_word(); let x = change(&mut v, k, o, w); changed(&v, &s, k, q, x) }
blocks! { [h_jacobson_bits h_jacobson_bits_reject h_buffer_bits h_buffer_bits_reject h_select_bits h_buffer_bitvector h_buffer_select h_buffer_set
    h_jacobson_inner h_buffer_inner h_select_inner h_adapter_bits h_adapter_bits_reject h_slice h_slice_ref h_vec h_slice_mut h_slice_mut_set h_vec_set] }
