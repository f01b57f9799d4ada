//! C04: frame checksums.
use vx::*;
use src::*;
use sub::sext;
use claxon::{Block, Error};
use claxon::frame::FrameReader;

/// The header up to its CRC, with some of its fields fixed; its length and the block size.
fn header(chc: u8, trailing: u64, long: u64) -> (u64, u64) {
    vx_assume(b(0) == 0xff);
    vx_assume(b(1) & 0xfe == 0xf8);
    // block size code and sample rate code, with what they add to the header
    let (bsc, src) = match trailing { 0 => (6, 9), 1 => (6, 12), 2 => (7, 0), 3 => (7, 13), _ => (6, 14) };
    vx_assume(b(2) == bsc << 4 | src);
    // 8 bits per sample
    vx_assume(b(3) == chc << 4 | 2);
    let mut at = 4;
    if long == 0 {
        vx_assume(b(4) < 0x80);
        at += 1;
    } else {
        // a number of more bytes
        let first = [0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc][long as usize];
        vx_assume(b(4) == first);
        let mut i = 0;
        while i < long { vx_assume(b(5 + i) >> 6 == 2); i += 1; }
        at += 1 + long;
    }
    let bs = if bsc == 6 { at += 1; b(at - 1) as u64 + 1 } else { at += 2; ((b(at - 2) as u64) << 8 | b(at - 1) as u64) + 1 };
    at += match src { 12 => 1, 13 | 14 => 2, _ => 0 };
    (at, bs)
}
/// Bits of the stream, from its bytes.
fn tb(p: u64, n: u64) -> u64 {
    let mut x = 0;
    let mut i = 0;
    while i < n {
        x = x << 1 | (b((p + i) / 8) as u64 >> (7 - (p + i) % 8) & 1);
        i += 1;
    }
    x
}
/// Decode; what is accepted is what the checksums say. The stream has subframes of `len` bytes after the header.
fn decide(head: u64, len: u64, bs: u64) -> Option<Block> {
    let mut c8 = 0;
    let mut c16 = 0;
    let mut i = 0;
    while i < head {
        c8 = crc8(c8, b(i));
        c16 = crc16(c16, b(i));
        i += 1;
    }
    let good8 = vx_part(c8 == b(head));
    while i < head + 1 + len {
        c16 = crc16(c16, b(i));
        i += 1;
    }
    let stored = (b(i) as u16) << 8 | b(i + 1) as u16;
    let good16 = vx_part(c16 == stored);
    if good16 {
        vx_assume((c16 >> 8) as u8 == b(i));
        vx_assume((c16 & 255) as u8 == b(i + 1));
    }
    let r = FrameReader::new(Src).read_next_or_eof(Vec::new());
    match r {
        Ok(Some(bl)) => {
            vx_check(good8, "no block is returned if the header's CRC-8 differs");
            vx_check(good16, "no block is returned if the frame's CRC-16 differs");
            vx_check(bl.duration() as u64 == bs, "the block is the frame's");
            vx_check(pos() == i + 2, "the frame's footer is where the frame ends");
            Some(bl)
        }
        Ok(None) => { vx_fail("a frame is not the end of the stream"); None }
        Err(e) => {
            vx_check(!(good8 && good16), "a frame with matching checksums is not rejected");
            match e {
                Error::FormatError(_) => vx_check(true, "a checksum mismatch is a format error"),
                _ => vx_fail("a checksum mismatch is a format error"),
            }
            None
        }
    }
}
/// All header lengths, with constant subframes.
fn headers(trailing: u64) {
    let long = vx_split(vx_any_u64("longer number", 0, 5), 0, 5);
    let (head, bs) = header(0, trailing, long);
    vx_assume(bs <= 2);
    let bs = vx_split(bs, 1, 2);
    let at = head + 1;
    vx_assume(b(at) == 0);
    if let Some(bl) = decide(head, 2, bs) {
        vx_check(bl.sample(0, 0) as i64 == sext(b(at + 1) as u64, 8), "the block is the frame's");
    }
}
pub fn root_c04_header0() { headers(0) }
pub fn root_c04_header1() { headers(1) }
pub fn root_c04_header2() { headers(2) }
pub fn root_c04_header3() { headers(3) }
pub fn root_c04_header4() { headers(4) }
/// Verbatim subframes, several channels.
pub fn root_c04_verbatim() {
    let chc = vx_split(vx_any_u64("channel code", 0, 2), 0, 2);
    let (head, bs) = header(chc as u8, 0, 0);
    vx_assume(bs <= 4);
    let bs = vx_split(bs, 1, 4);
    let mut at = head + 1;
    let mut ch = 0;
    while ch <= chc {
        vx_assume(b(at) == 2);
        at += 1 + bs;
        ch += 1;
    }
    decide(head, at - head - 1, bs);
}
/// Stereo with a side channel: nine bits per sample, padding at the end.
pub fn root_c04_side() {
    let chc = vx_split(vx_any_u64("channel code", 8, 10), 8, 10);
    let (head, bs) = header(chc as u8, 0, 0);
    vx_assume(bs <= 3);
    let bs = vx_split(bs, 1, 3);
    let p = 8 * (head + 1);
    let w0 = if chc == 9 { 9 } else { 8 };
    vx_assume(tb(p, 8) == 2);
    let p = p + 8 + bs * w0;
    vx_assume(tb(p, 8) == 2);
    let p = p + 8 + bs * (17 - w0);
    decide(head, (p + 7) / 8 - head - 1, bs);
}
/// A Rice coded residual, so that the bytes are read through the unary reader and the others.
pub fn root_c04_residual() {
    let (head, bs) = header(0, 0, 0);
    vx_assume(bs == 1);
    let p = 8 * (head + 1);
    vx_assume(tb(p, 8) == 16);
    vx_assume(tb(p + 8, 6) == 0);
    let k = [1, 8, 9, 13][vx_split(vx_any_u64("parameter", 0, 3), 0, 3) as usize];
    vx_assume(tb(p + 14, 4) == k);
    let p = p + 18;
    let q = vx_split(vx_any_u64("quotient", 0, 13), 0, 13);
    let mut i = 0;
    while i < q { vx_assume(tb(p + i, 1) == 0); i += 1; }
    vx_assume(tb(p + q, 1) == 1);
    let p = p + q + 1 + k;
    decide(head, (p + 7) / 8 - head - 1, 1);
}
