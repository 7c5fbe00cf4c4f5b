//! Bit sources and sinks written by somebody else, and reference decoders.
use crate::v::*;
pub use std::io::{Error, Result};
pub use succinct::coding::*;
pub use succinct::stream::*;

pub const EFAIL: i32 = 5;

/// A source of arbitrary bits which ends, or fails, at `stop`.
pub struct Tape { pub bits: Vec<bool>, pub pos: u64, pub stop: u64, pub fails: bool, pub stopped: bool }
impl Tape {
    /// Never ends within the `n` bits an operation may look at.
    pub fn endless(n: u64) -> Self { Self::until(n, n, false) }
    fn until(n: u64, stop: u64, fails: bool) -> Self {
        let bits: Vec<bool> = any();
        assume(bits.len() as u64 == n);
        Tape { bits, pos: 0, stop, fails, stopped: false }
    }
    /// Ends at an arbitrary position.
    pub fn ending(n: u64) -> Self {
        let stop: u64 = any(); assume(stop <= n);
        Self::until(n, stop, false)
    }
    /// Fails at an arbitrary position.
    pub fn failing(n: u64) -> Self {
        let stop: u64 = any(); assume(stop <= n);
        Self::until(n, stop, true)
    }
}
impl BitRead for Tape {
    fn read_bit(&mut self) -> Result<Option<bool>> {
        if self.fails { require(!self.stopped, "nothing is read after the source has failed") }
        if self.pos == self.stop {
            self.stopped = true;
            if self.fails { return Err(Error::from_raw_os_error(EFAIL)); }
            return Ok(None);
        }
        let b = self.bits[self.pos as usize];
        self.pos += 1;
        Ok(Some(b))
    }
}
/// A sink which keeps everything and fails at `stop`.
pub struct Log { pub bits: Vec<bool>, pub stop: u64, pub stopped: bool }
impl Log {
    pub fn endless() -> Self { Log { bits: Vec::new(), stop: u64::MAX, stopped: false } }
    pub fn failing(n: u64) -> Self {
        let stop: u64 = any(); assume(stop <= n);
        Log { bits: Vec::new(), stop, stopped: false }
    }
    /// What was written, followed by something else.
    pub fn replay(self) -> (Tape, u64) {
        let n = self.bits.len() as u64;
        let mut bits = self.bits;
        let more: bool = any();
        bits.push(more);
        (Tape { bits, pos: 0, stop: n + 1, fails: false, stopped: false }, n)
    }
}
impl BitWrite for Log {
    fn write_bit(&mut self, b: bool) -> Result<()> {
        require(!self.stopped, "nothing is written after the sink has failed");
        if self.bits.len() as u64 == self.stop {
            self.stopped = true;
            return Err(Error::from_raw_os_error(EFAIL));
        }
        self.bits.push(b);
        Ok(())
    }
}
/// A sink nothing may be written to.
pub struct Closed;
impl BitWrite for Closed {
    fn write_bit(&mut self, _: bool) -> Result<()> {
        require(false, "nothing is emitted for a value the code cannot represent");
        Ok(())
    }
}
pub fn is_failure<T>(r: &Result<T>) -> bool {
    match *r { Err(ref e) => e.raw_os_error() == Some(EFAIL), _ => false }
}

// ------------------------------------------------------------ reference decoders
/// `None`: not a code word within the bits, or a value which does not fit.
pub type Ref = Option<(u128, u64)>;
pub fn r_int(t: &Vec<bool>, at: u64, n: u64) -> Ref {
    if at + n > t.len() as u64 { return None; }
    let mut s = 0u128; let mut p = 1u128; let mut j = 0;
    while j < n { s += p * t[(at + j) as usize] as u128; p *= 2; j += 1; }
    Some((s, at + n))
}
pub fn r_int_be(t: &Vec<bool>, at: u64, n: u64) -> Ref {
    if at + n > t.len() as u64 { return None; }
    let mut s = 0u128; let mut j = 0;
    while j < n { s = 2 * s + t[(at + j) as usize] as u128; j += 1; }
    Some((s, at + n))
}
fn fits(r: Ref) -> Ref { match r { Some((v, _)) if v > u64::MAX as u128 => None, r => r } }
pub trait RefCode { fn refd(&self, t: &Vec<bool>, at: u64) -> Ref; }
impl RefCode for Unary {
    fn refd(&self, t: &Vec<bool>, at: u64) -> Ref {
        let mut i = at;
        while i < t.len() as u64 { if t[i as usize] { return Some(((i - at) as u128, i + 1)); } i += 1; }
        None
    }
}
impl<H: UniversalCode + RefCode> RefCode for Elias<H> {
    fn refd(&self, t: &Vec<bool>, at: u64) -> Ref {
        let (h, at) = self.0.refd(t, at)?;
        if h > 63 { return None; }
        let h = split(h as u64);
        let (low, at) = r_int(t, at, h)?;
        Some((low + (1u128 << h), at))
    }
}
impl<C: UniversalCode + RefCode> RefCode for Lift0<C> {
    fn refd(&self, t: &Vec<bool>, at: u64) -> Ref {
        let (v, at) = self.0.refd(t, at)?;
        if v == 0 { None } else { Some((v - 1, at)) }
    }
}
impl RefCode for Omega {
    fn refd(&self, t: &Vec<bool>, mut at: u64) -> Ref {
        let mut v = 1u128;
        loop {
            if at >= t.len() as u64 { return None; }
            if !t[at as usize] { return Some((v, at + 1)); }
            if v > 63 { return None; }
            let n = split(v as u64);
            let (low, next) = r_int_be(t, at + 1, n)?;
            v = low + (1u128 << n);
            at = next;
        }
    }
}
impl RefCode for Fibonacci {
    fn refd(&self, t: &Vec<bool>, at: u64) -> Ref {
        let mut a = 1u128; let mut b = 2u128; let mut s = 0u128; let mut i = at;
        while i < t.len() as u64 {
            let x = t[i as usize];
            if i > at { if x && t[i as usize - 1] { return fits(Some((s, i + 1))); } }
            s += a * x as u128;
            let c = a + b; a = b; b = c;
            i += 1;
        }
        None
    }
}
impl RefCode for Comma {
    fn refd(&self, t: &Vec<bool>, at: u64) -> Ref {
        let n = self.0 as u64; let base = (1u128 << n) - 1;
        let mut s = 0u128; let mut i = at;
        loop {
            let (d, next) = r_int(t, i, n)?;
            if d == base { return fits(Some((s, next))); }
            s = s * base + d;
            if s > u64::MAX as u128 { return None; }
            i = next;
        }
    }
}
