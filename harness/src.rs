//! The symbolic input stream and contracts of the bit reader.
use vx::*;
use std::io;
use claxon::input::{ReadBytes, Bitstream};

// ghost registers
/// Position in stream 0, in bits.
pub const POS: u32 = 0;
/// Number of bytes of the stream before it ends or fails, plus one; 0 if it never does.
pub const END: u32 = 1;
/// What happens there: 0 the stream ends, otherwise an I/O error with this tag.
pub const KIND: u32 = 2;
/// Whether a failure has been reported to the library.
pub const FAILED: u32 = 3;
/// Reads attempted after a failure.
pub const AFTER: u32 = 4;
/// Whether the end of the stream has been seen without it being an error.
pub const SAWEND: u32 = 5;

/// Whether all reading is expected to go through the contracts of Bitstream.
pub const PURE: u32 = 6;

pub struct Src;
fn there(p: u64) -> bool {
    let e = vx_get(END);
    e == 0 || p < e - 1
}
fn direct() {
    if vx_get(PURE) != 0 { vx_unknown("the source is read other than through Bitstream's reading functions") }
    touch()
}
fn touch() {
    if vx_get(FAILED) != 0 { vx_set(AFTER, 1) }
}
fn failure() -> io::Error {
    vx_set(FAILED, 1);
    let k = vx_get(KIND);
    if k == 0 { io::Error::new(io::ErrorKind::UnexpectedEof, "end") } else { vx_io_err(1000, k) }
}
fn bytepos() -> u64 { (vx_get(POS) + 7) / 8 }

impl ReadBytes for Src {
    fn read_u8(&mut self) -> io::Result<u8> {
        direct();
        let p = bytepos();
        if !there(p) { return Err(failure()) }
        vx_set(POS, 8 * p + 8);
        Ok(vx_byte(0, p))
    }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> {
        direct();
        let p = bytepos();
        if !there(p) {
            if vx_get(KIND) == 0 { vx_set(SAWEND, 1); return Ok(None) }
            return Err(failure())
        }
        vx_set(POS, 8 * p + 8);
        Ok(Some(vx_byte(0, p)))
    }
    fn read_into(&mut self, b: &mut [u8]) -> io::Result<()> {
        direct();
        let p = bytepos();
        if vx_get(END) != 0 && b.len() != 0 && !there(p + b.len() as u64 - 1) { return Err(failure()) }
        vx_fill(0, p, b);
        vx_set(POS, 8 * (p + b.len() as u64));
        Ok(())
    }
    fn skip(&mut self, n: u32) -> io::Result<()> {
        direct();
        let p = bytepos();
        if vx_get(END) != 0 && n != 0 && !there(p + n as u64 - 1) { return Err(failure()) }
        vx_set(POS, 8 * (p + n as u64));
        Ok(())
    }
}
pub fn pos_bits() -> u64 { vx_get(POS) }
pub fn pos() -> u64 { bytepos() }
pub fn b(i: u64) -> u8 { vx_byte(0, i) }

/// CRC-8 step with polynomial x^8 + x^2 + x + 1.
pub fn crc8(mut c: u8, byte: u8) -> u8 {
    c ^= byte;
    let mut i = 0;
    while i < 8 {
        let t = c >> 7;
        c = (c << 1) ^ t ^ (t << 1) ^ (t << 2);
        i += 1;
    }
    c
}
/// CRC-16 step with polynomial x^16 + x^15 + x^2 + 1.
pub fn crc16(mut c: u16, byte: u8) -> u16 {
    c ^= (byte as u16) << 8;
    let mut i = 0;
    while i < 8 {
        let t = c >> 15;
        c = (c << 1) ^ t ^ (t << 2) ^ (t << 15);
        i += 1;
    }
    c
}

// ---- contracts of Bitstream, established by C06

fn bits(n: u32) -> io::Result<u64> {
    touch();
    let p = vx_get(POS);
    if vx_get(END) != 0 && n > 0 && !there((p + n as u64 - 1) / 8) { return Err(failure()) }
    vx_set(POS, p + n as u64);
    Ok(vx_bits(0, p, n))
}
pub fn stub_read_bit<R: ReadBytes>(_s: &mut Bitstream<R>) -> io::Result<bool> {
    match bits(1) { Ok(x) => Ok(x == 1), Err(e) => Err(e) }
}
pub fn stub_read_unary<R: ReadBytes>(_s: &mut Bitstream<R>) -> io::Result<u32> {
    touch();
    let p = vx_get(POS);
    let q = vx_unary(0, p);
    if vx_get(END) != 0 && !there((p + q as u64) / 8) { return Err(failure()) }
    vx_set(POS, p + q as u64 + 1);
    Ok(q)
}
pub fn stub_read_leq_u8<R: ReadBytes>(_s: &mut Bitstream<R>, n: u32) -> io::Result<u8> {
    vx_check(n <= 8, "read_leq_u8 is asked for at most 8 bits");
    match bits(n) { Ok(x) => Ok(x as u8), Err(e) => Err(e) }
}
pub fn stub_read_gt_u8_leq_u16<R: ReadBytes>(_s: &mut Bitstream<R>, n: u32) -> io::Result<u32> {
    vx_check(n > 8 && n <= 16, "read_gt_u8_leq_u16 is asked for 9 to 16 bits");
    match bits(n) { Ok(x) => Ok(x as u32), Err(e) => Err(e) }
}
pub fn stub_read_leq_u16<R: ReadBytes>(_s: &mut Bitstream<R>, n: u32) -> io::Result<u16> {
    vx_check(n <= 16, "read_leq_u16 is asked for at most 16 bits");
    match bits(n) { Ok(x) => Ok(x as u16), Err(e) => Err(e) }
}
pub fn stub_read_leq_u32<R: ReadBytes>(_s: &mut Bitstream<R>, n: u32) -> io::Result<u32> {
    vx_check(n <= 32, "read_leq_u32 is asked for at most 32 bits");
    match bits(n) { Ok(x) => Ok(x as u32), Err(e) => Err(e) }
}

// ---- a black-box reader

/// How much a read delivers: 0 all that fits, 1 one byte, 2 any number of bytes, 3 one to three bytes.
pub const CHUNK: u32 = 7;

/// Bytes allocated while there is a limit on allocations.
pub const TOTAL: u32 = 8;

/// Stream 0, as std::io::Read.
pub struct Rd;
impl io::Read for Rd {
    fn read(&mut self, d: &mut [u8]) -> io::Result<usize> {
        touch();
        if vx_get(SAWEND) != 0 { vx_set(AFTER, 1) }
        if d.len() == 0 { return Ok(0) }
        let p = bytepos();
        if !there(p) {
            if vx_get(KIND) == 0 { vx_set(SAWEND, 1); return Ok(0) }
            return Err(failure())
        }
        let e = vx_get(END);
        let mut n = match vx_get(CHUNK) {
            0 => d.len() as u64,
            1 => 1,
            3 => vx_split(vx_any_u64("chunk", 1, 3), 1, 3),
            _ => vx_any_u64("chunk", 1, 1 << 20),
        };
        if n > d.len() as u64 { n = d.len() as u64 }
        if e != 0 && n > e - 1 - p { n = e - 1 - p }
        vx_fill(0, p, &mut d[..n as usize]);
        vx_set(POS, 8 * (p + n));
        Ok(n as usize)
    }
}
/// The stream starts with its marker and a valid stream info block, the last one.
pub fn opened() -> u64 {
    let h = [0x66, 0x4c, 0x61, 0x43, 0x80, 0, 0, 34, 16, 0, 16, 0, 0, 0, 0, 0, 0, 0, 0x0a, 0xc4, 0x42, 0xf0, 0, 0, 0, 0];
    let mut i = 0;
    while i < 26 {
        vx_assume(b(i) == h[i as usize]);
        i += 1;
    }
    42
}
