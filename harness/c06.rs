//! C06: bit reads return exactly the next bits of the stream.
use vx::*;
use std::io;
use std::cell::Cell;
use claxon::input::{ReadBytes, Bitstream};

/// An endless byte stream which counts the bytes fetched.
pub struct Src<'a> { pub pos: &'a Cell<u64> }
impl<'a> ReadBytes for Src<'a> {
    fn read_u8(&mut self) -> io::Result<u8> {
        let p = self.pos.get();
        self.pos.set(p + 1);
        Ok(vx_byte(0, p))
    }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
        let p = self.pos.get();
        self.pos.set(p + 1);
        Ok(Some(vx_byte(0, p)))
    }
    fn read_into(&mut self, b: &mut [u8]) -> io::Result<()> {
        let p = self.pos.get();
        vx_fill(0, p, b);
        self.pos.set(p + b.len() as u64);
        Ok(())
    }
    fn skip(&mut self, n: u32) -> io::Result<()> {
        self.pos.set(self.pos.get() + n as u64);
        Ok(())
    }
}
fn bit_at(p: u64) -> u64 {
    ((vx_byte(0, p / 8) >> (7 - p % 8)) & 1) as u64
}
/// The n bits from position p, most significant first.
fn bits_at(p: u64, n: u32) -> u64 {
    let mut x = 0u64;
    let mut i = 0;
    while i < n {
        x = (x << 1) | bit_at(p + i as u64);
        i += 1;
    }
    x
}
fn lazily(bit: u64, pos: &Cell<u64>) {
    vx_check(pos.get() == (bit + 7) / 8, "exactly the bytes needed have been fetched");
}
fn leq_u8<'a>(bs: &mut Bitstream<Src<'a>>, bit: u64, pos: &Cell<u64>, hi: u64) -> u64 {
    let n = vx_split(vx_any_u64("n", 0, hi), 0, hi) as u32;
    match bs.read_leq_u8(n) {
        Ok(x) => vx_check(x as u64 == bits_at(bit, n), "read_leq_u8 returns the next n bits"),
        Err(_) => vx_fail("read_leq_u8 fails although the source does not"),
    }
    lazily(bit + n as u64, pos);
    bit + n as u64
}
fn leq_u16<'a>(bs: &mut Bitstream<Src<'a>>, bit: u64, pos: &Cell<u64>) -> u64 {
    let n = vx_split(vx_any_u64("n", 0, 16), 0, 16) as u32;
    match bs.read_leq_u16(n) {
        Ok(x) => vx_check(x as u64 == bits_at(bit, n), "read_leq_u16 returns the next n bits"),
        Err(_) => vx_fail("read_leq_u16 fails although the source does not"),
    }
    lazily(bit + n as u64, pos);
    bit + n as u64
}
fn leq_u32<'a>(bs: &mut Bitstream<Src<'a>>, bit: u64, pos: &Cell<u64>) -> u64 {
    let n = vx_split(vx_any_u64("n", 0, 32), 0, 32) as u32;
    match bs.read_leq_u32(n) {
        Ok(x) => vx_check(x as u64 == bits_at(bit, n), "read_leq_u32 returns the next n bits"),
        Err(_) => vx_fail("read_leq_u32 fails although the source does not"),
    }
    lazily(bit + n as u64, pos);
    bit + n as u64
}
fn gt_u8<'a>(bs: &mut Bitstream<Src<'a>>, bit: u64, pos: &Cell<u64>) -> u64 {
    let n = vx_split(vx_any_u64("n", 9, 16), 9, 16) as u32;
    match bs.read_gt_u8_leq_u16(n) {
        Ok(x) => vx_check(x as u64 == bits_at(bit, n), "read_gt_u8_leq_u16 returns the next n bits"),
        Err(_) => vx_fail("read_gt_u8_leq_u16 fails although the source does not"),
    }
    lazily(bit + n as u64, pos);
    bit + n as u64
}
fn one<'a>(bs: &mut Bitstream<Src<'a>>, bit: u64, pos: &Cell<u64>) -> u64 {
    match bs.read_bit() {
        Ok(x) => vx_check(x as u64 == bit_at(bit), "read_bit returns the next bit"),
        Err(_) => vx_fail("read_bit fails although the source does not"),
    }
    lazily(bit + 1, pos);
    bit + 1
}
/// Unary numbers up to `max`; the rest is left to the loop's uniformity.
fn unary<'a>(bs: &mut Bitstream<Src<'a>>, bit: u64, pos: &Cell<u64>, max: u64) -> u64 {
    let q = vx_split(vx_any_u64("q", 0, max), 0, max);
    let mut i = 0;
    while i < q {
        vx_assume(bit_at(bit + i) == 0);
        i += 1;
    }
    vx_assume(bit_at(bit + q) == 1);
    match bs.read_unary() {
        Ok(x) => vx_check(x as u64 == q, "read_unary returns the number of zeros before the next one"),
        Err(_) => vx_fail("read_unary fails although the source does not"),
    }
    lazily(bit + q + 1, pos);
    bit + q + 1
}
fn any<'a>(bs: &mut Bitstream<Src<'a>>, bit: u64, pos: &Cell<u64>) -> u64 {
    match vx_split(vx_any_u64("op", 0, 5), 0, 5) {
        0 => one(bs, bit, pos),
        1 => unary(bs, bit, pos, 18),
        2 => leq_u8(bs, bit, pos, 8),
        3 => gt_u8(bs, bit, pos),
        4 => leq_u16(bs, bit, pos),
        _ => leq_u32(bs, bit, pos),
    }
}
/// A stream positioned at every offset within a byte.
fn start<'a>(pos: &'a Cell<u64>) -> (Bitstream<Src<'a>>, u64) {
    let mut bs = Bitstream::new(Src { pos: pos });
    let bit = leq_u8(&mut bs, 0, pos, 7);
    (bs, bit)
}
pub fn root_c06_bit() {
    let pos = Cell::new(0);
    let (mut bs, bit) = start(&pos);
    let bit = one(&mut bs, bit, &pos);
    any(&mut bs, bit, &pos);
}
pub fn root_c06_unary() {
    let pos = Cell::new(0);
    let (mut bs, bit) = start(&pos);
    let bit = unary(&mut bs, bit, &pos, 18);
    any(&mut bs, bit, &pos);
}
pub fn root_c06_unary_long() {
    let pos = Cell::new(0);
    let (mut bs, bit) = start(&pos);
    let bit = unary(&mut bs, bit, &pos, 90);
    one(&mut bs, bit, &pos);
}
pub fn root_c06_leq_u8() {
    let pos = Cell::new(0);
    let (mut bs, bit) = start(&pos);
    let bit = leq_u8(&mut bs, bit, &pos, 8);
    any(&mut bs, bit, &pos);
}
pub fn root_c06_gt_u8() {
    let pos = Cell::new(0);
    let (mut bs, bit) = start(&pos);
    let bit = gt_u8(&mut bs, bit, &pos);
    any(&mut bs, bit, &pos);
}
pub fn root_c06_leq_u16() {
    let pos = Cell::new(0);
    let (mut bs, bit) = start(&pos);
    let bit = leq_u16(&mut bs, bit, &pos);
    any(&mut bs, bit, &pos);
}
pub fn root_c06_leq_u32() {
    let pos = Cell::new(0);
    let (mut bs, bit) = start(&pos);
    let bit = leq_u32(&mut bs, bit, &pos);
    any(&mut bs, bit, &pos);
}
