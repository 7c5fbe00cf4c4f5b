//! T02: a bit buffer reads and writes exactly at its position.
//! One arbitrary operation from an arbitrary state (any contents, any position within them).
use crate::util::*;
use succinct::stream::*;
type Buf<B> = BitBuffer<BitVector<B>>;
fn any_buf<B: BlockType>() -> (BitVector<B>, Buf<B>, u64) {
    let v = any_bv::<B>();
    let old = snapshot(&v);
    let p: u64 = any(); assume(p <= v.bit_len());
    let mut b = BitBuffer::from(v);
    require(b.position() == 0, "a buffer made from a vector starts at its first bit");
    require(b.seek(p).is_ok(), "seeking inside or to the end succeeds");
    require(b.position() == p, "seeking moves to the position named");
    (old, b, p)
}
fn at<V: BitVec>(v: &V, i: u64) -> bool { let n = nb::<V::Block>(); bit(v.get_block((i / n) as usize), i % n) }
fn same<B: BlockType>(old: &BitVector<B>, b: &Buf<B>) {
    require(b.inner().bit_len() == old.bit_len(), "the length is unchanged");
    let j: u64 = any();
    if j < old.bit_len() { require(at(b.inner(), j) == at(old, j), "no bit is changed") }
}
fn h_read<B: BlockType>() {
    let (old, mut b, p) = any_buf::<B>();
    match b.read_bit() {
        Ok(Some(x)) => {
            require(p < old.bit_len(), "at the end there is nothing to read");
            require(x == at(&old, p), "the bit at the position is read");
            require(b.position() == p + 1, "reading advances by one");
        }
        Ok(None) => {
            require(p == old.bit_len(), "end-of-stream is reported exactly at the end");
            require(b.position() == p, "reading at the end does not move");
        }
        Err(_) => require(false, "reading a buffer does not fail"),
    }
    same(&old, &b)
}
fn h_write<B: BlockType>() {
    let (old, mut b, p) = any_buf::<B>();
    let x: bool = any();
    require(b.write_bit(x).is_ok(), "writing a buffer does not fail");
    require(b.position() == p + 1, "writing advances by one");
    let len = if p == old.bit_len() { p + 1 } else { old.bit_len() };
    require(b.inner().bit_len() == len, "writing at the end grows the vector by one bit, elsewhere not at all");
    let j: u64 = any(); assume(j < len);
    let want = if j == p { x } else { at(&old, j) };
    require(at(b.inner(), j) == want, "exactly the bit at the position is written");
}
fn h_seek<B: BlockType>() {
    let (old, mut b, p) = any_buf::<B>();
    let q: u64 = any();
    let r = b.seek(q);
    require(r.is_ok() == (q <= old.bit_len()), "seeking succeeds exactly within the vector");
    require(b.position() == if q <= old.bit_len() { q } else { p }, "a failed seek does not move");
    same(&old, &b)
}
fn h_make<B: BlockType>() {
    let v = any_bv::<B>(); let old = snapshot(&v);
    let b = BitBuffer::append(v);
    require(b.position() == old.bit_len(), "an appending buffer starts at the end");
    same(&old, &b);
    let v = b.into_inner();
    require(v.bit_len() == old.bit_len(), "the vector is given back");
    let j: u64 = any();
    if j < old.bit_len() { require(at(&v, j) == at(&old, j), "the vector is given back") }
}
fn h_new<B: BlockType>() {
    let b: Buf<B> = BitBuffer::new();
    require(b.position() == 0 && b.inner().bit_len() == 0, "a new buffer is empty");
    let c: u64 = any(); assume(c <= 1 << 40);
    let b: Buf<B> = BitBuffer::with_capacity(c);
    require(b.position() == 0 && b.inner().bit_len() == 0, "a new buffer is empty");
    require(b.inner().bit_len() == b.bit_len(), "the buffer and its vector agree");
}
/// Two operations in a row, the second depending on where the first one left the position.
fn h_then<B: BlockType>() {
    let (old, mut b, p) = any_buf::<B>();
    let x: bool = any();
    require(b.write_bit(x).is_ok(), "writing a buffer does not fail");
    require(b.seek(p).is_ok(), "the bit just written can be sought");
    require(match b.read_bit() { Ok(Some(y)) => y == x, _ => false }, "what was written is read back");
    let r = b.read_bit();
    if p + 1 < old.bit_len() { require(match r { Ok(Some(y)) => y == at(&old, p + 1), _ => false }, "the next bit is untouched") }
    else { require(match r { Ok(None) => true, _ => false }, "nothing follows the last bit") }
}
blocks! { [h_read h_write h_seek h_make h_new h_then] }

/// The same over a vector of booleans.
pub mod bools { use super::*;
    fn any_buf() -> (Vec<bool>, BitBuffer<Vec<bool>>, u64) {
        let v: Vec<bool> = any(); let old = snapshot(&v);
        let p: u64 = any(); assume(p <= v.len() as u64);
        let mut b = BitBuffer::from(v);
        require(b.seek(p).is_ok() && b.position() == p, "seeking moves to the position named");
        (old, b, p)
    }
    pub fn h_read() {
        let (old, mut b, p) = any_buf(); let n = old.len() as u64;
        match b.read_bit() {
            Ok(Some(x)) => require(p < n && x == old[p as usize] && b.position() == p + 1, "the bit at the position is read"),
            Ok(None) => require(p == n && b.position() == p, "end-of-stream is reported exactly at the end"),
            Err(_) => require(false, "reading a buffer does not fail"),
        }
    }
    pub fn h_write() {
        let (old, mut b, p) = any_buf(); let n = old.len() as u64;
        let x: bool = any();
        require(b.write_bit(x).is_ok() && b.position() == p + 1, "writing advances by one");
        let len = if p == n { n + 1 } else { n };
        require(b.inner().len() as u64 == len, "writing at the end grows the vector by one bit, elsewhere not at all");
        let j: u64 = any(); assume(j < len);
        let want = if j == p { x } else { old[j as usize] };
        require(b.inner()[j as usize] == want, "exactly the bit at the position is written");
    }
}
