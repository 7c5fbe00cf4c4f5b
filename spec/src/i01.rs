//! I01: blocks are read and written as their bytes, in the named order.
use crate::util::*;
use byteorder::{BigEndian, ByteOrder, LittleEndian, NativeEndian};
use std::io::{Error, ErrorKind, Read, Result, Write};

/// A source of unknown bytes. A plain `read` may return fewer bytes than asked for, as `Read` allows.
pub struct Source { pub data: Vec<u8>, pub pos: usize, pub short: bool }
impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let left = self.data.len() - self.pos;
        let mut k = if buf.len() < left { buf.len() } else { left };
        if self.short && k > 1 { k = k - 1; }
        for i in 0 .. k { buf[i] = self.data[self.pos]; self.pos += 1; }
        Ok(k)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> Result<()> {
        let left = self.data.len() - self.pos;
        if left < buf.len() { self.pos = self.data.len(); return Err(Error::from(ErrorKind::UnexpectedEof)); }
        for i in 0 .. buf.len() { buf[i] = self.data[self.pos]; self.pos += 1; }
        Ok(())
    }
}
/// A sink. A plain `write` may accept fewer bytes than offered, as `Write` allows.
pub struct Sink { pub out: Vec<u8>, pub room: u64, pub short: bool }
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut k = buf.len();
        if self.short && k > 1 { k = k - 1; }
        for i in 0 .. k { if self.room == 0 { return Err(Error::from_raw_os_error(77)); } self.room -= 1; self.out.push(buf[i]); }
        Ok(k)
    }
    fn write_all(&mut self, buf: &[u8]) -> Result<()> {
        for i in 0 .. buf.len() { if self.room == 0 { return Err(Error::from_raw_os_error(77)); } self.room -= 1; self.out.push(buf[i]); }
        Ok(())
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
fn size<B: BlockType>() -> u64 { nb::<B>() / 8 }
/// Where bits `8*i ..` of a value of `n` bytes are in its encoding.
fn byte_of(i: u64, n: u64, big: bool) -> u64 { if big { n - 1 - i } else { i } }

fn write<B: BlockType, T: ByteOrder>(big: bool) {
    let w: B = any_word();
    let mut s = Sink { out: Vec::new(), room: u64::max_value(), short: true };
    let r = w.write_block::<_, T>(&mut s);
    require(r.is_ok(), "writing to a working sink succeeds");
    let n = size::<B>();
    require(s.out.len() as u64 == n, "a block is written as exactly its size in bytes");
    for i in 0 .. n {
        let x = s.out[byte_of(i, n, big) as usize];
        for j in 0 .. 8 { require(bit(x, j) == bit(w, i * 8 + j), "a block is written in the named byte order"); }
    }
    let mut t = Source { data: s.out, pos: 0, short: true };
    let back = B::read_block::<_, T>(&mut t);
    require(match back { Ok(x) => x == w, Err(_) => false }, "what was written is read back");
    require(t.pos as u64 == n, "reading consumes what was written");
}
fn read<B: BlockType, T: ByteOrder>(big: bool) {
    let n = size::<B>();
    let data: Vec<u8> = any();
    let have = data.len() as u64;
    let mut t = Source { data: data, pos: 0, short: true };
    let r = B::read_block::<_, T>(&mut t);
    if have < n { require(r.is_err(), "a truncated block is an error"); return; }
    require(t.pos as u64 == n, "reading a block consumes exactly its size in bytes");
    match r {
        Err(_) => require(false, "reading enough bytes succeeds"),
        Ok(w) => for i in 0 .. n {
            let x = t.data[byte_of(i, n, big) as usize];
            for j in 0 .. 8 { require(bit(x, j) == bit(w, i * 8 + j), "a block is read in the named byte order"); }
        }
    }
}
fn full<B: BlockType, T: ByteOrder>() {
    let w: B = any_word();
    let room: u64 = any();
    let n = size::<B>();
    assume(room < n);
    let room = split(room);
    let mut s = Sink { out: Vec::new(), room: room, short: true };
    let r = w.write_block::<_, T>(&mut s);
    require(match r { Err(e) => e.raw_os_error() == Some(77), Ok(()) => false }, "the sink's error is reported");
}
pub fn h_write_big<B: BlockType>() { write::<B, BigEndian>(true) }
pub fn h_write_little<B: BlockType>() { write::<B, LittleEndian>(false) }
pub fn h_write_native<B: BlockType>() { write::<B, NativeEndian>(cfg!(target_endian = "big")) }
pub fn h_read_big<B: BlockType>() { read::<B, BigEndian>(true) }
pub fn h_read_little<B: BlockType>() { read::<B, LittleEndian>(false) }
pub fn h_full<B: BlockType>() { full::<B, BigEndian>() }
blocks! { [h_write_big h_write_little h_write_native h_read_big h_read_little h_full] }
