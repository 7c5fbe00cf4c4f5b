//! W03: block-size arithmetic.
use crate::util::*;
pub fn h_split<B: BlockType>() {
    let x: u64 = any(); let n = nb::<B>();
    require(B::nbits() as u64 == n, "nbits");
    let q = B::div_nbits(x) as u64; let r = B::mod_nbits(x) as u64;
    require(q == x / n && r == x % n, "div_nbits and mod_nbits split a bit index");
    require(B::checked_div_nbits(x) == Some((x / n) as usize), "checked_div_nbits");
    let a = Address::new::<B>(x);
    require(a.block_index as u64 == x / n && a.bit_offset as u64 == x % n, "Address::new");
    require(a.bit_index::<B>() == x, "Address::bit_index inverts Address::new");
}
pub fn h_ceil<B: BlockType>() {
    let x: u64 = any();
    require(B::ceil_div_nbits(x) as u64 == blocks_for::<B>(x), "ceil_div_nbits");
    require(B::checked_ceil_div_nbits(x) == Some(blocks_for::<B>(x) as usize), "checked_ceil_div_nbits");
}
pub fn h_mul<B: BlockType>() {
    let i: usize = any(); let n = nb::<B>();
    assume(i as u64 <= u64::MAX / n);
    require(B::mul_nbits(i) == i as u64 * n, "mul_nbits");
    let len: u64 = any();
    let r = len % n;
    require(B::last_block_bits(len) as u64 == if r == 0 { n } else { r }, "last_block_bits");
}
pub fn h_masks<B: BlockType>() {
    let k: usize = any();
    assume(k as u64 <= nb::<B>());
    let m = B::low_mask(k);
    let i: u64 = any();
    assume(i < nb::<B>());
    require(bit(m, i) == (i < k as u64), "low_mask has exactly the low bits");
    if (k as u64) < nb::<B>() { require(bit(B::nth_mask(k), i) == (i == k as u64), "nth_mask has exactly the bit"); }
    let lg: u64 = match nb::<B>() { 8 => 3, 16 => 4, 32 => 5, _ => 6 };
    require(B::lg_nbits() as u64 == lg, "lg_nbits");
    require(B::lg_nbits_mask::<u8>() as u64 == nb::<B>() - 1 && B::lg_nbits_mask::<u64>() == nb::<B>() - 1, "lg_nbits_mask");
}
pub fn h_lg<B: BlockType>() {
    let x: B = any();
    let f = x.floor_lg() as u64; let c = x.ceil_lg() as u64;
    let y = x.to_u64().unwrap();
    if y >= 1 {
        require(f < nb::<B>() && (1u128 << f) <= y as u128 && (y as u128) < (2u128 << f), "floor_lg");
    }
    require(c <= nb::<B>() && (1u128 << c) >= y as u128 && (c == 0 || (1u128 << (c - 1)) < y as u128), "ceil_lg");
}
fn chk_ceil_div<B: BlockType>(x: B, d: B) {
    let q = x.ceil_div(d).to_u64().unwrap() as u128;
    let (x, d) = (x.to_u64().unwrap() as u128, d.to_u64().unwrap() as u128);
    require(q * d >= x && (q == 0 || q * d - d < x), "ceil_div");
}
pub fn h_ceil_div<B: BlockType>() {
    let x: B = any(); let d: B = any();
    assume(d > B::one());
    chk_ceil_div(x, d);
}
pub fn h_ceil_div_1<B: BlockType>() { chk_ceil_div::<B>(any(), B::one()) }
blocks! { [h_split h_ceil h_mul h_masks h_lg h_ceil_div h_ceil_div_1] }
