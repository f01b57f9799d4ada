//! C05: frame header fields.
use vx::*;
use src::*;
use claxon::Error;
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, ReadBytes};

// ghost registers of the stub for subframes
const NSUB: u32 = 10;
const WIDTH: u32 = 11; // ..18
const LEN: u32 = 20; // ..27
/// Number of subframes after which to stop decoding, or zero.
const STOP: u32 = 30;

/// Decodes nothing, records what it was asked for.
pub fn stub_subframe_record<R: ReadBytes>(_input: &mut Bitstream<R>, bps: u32, buffer: &mut [i32]) -> Result<(), Error> {
    let n = vx_get(NSUB);
    vx_check(n < 8, "at most eight subframes");
    vx_set(WIDTH + n as u32, bps as u64);
    vx_set(LEN + n as u32, buffer.len() as u64);
    vx_set(NSUB, n + 1);
    if n + 1 == vx_get(STOP) { return Err(Error::Unsupported("stop")) }
    Ok(())
}
/// A header which is valid apart from its CRC: what it says.
pub struct Hdr { pub bs: u16, pub time: u64, pub end: u64 }

/// The coded number at byte `at`: its value and length, or nothing if it is invalid.
pub fn coded(at: u64) -> Option<(u64, u64)> {
    let first = b(at);
    if first < 0x80 { return Some((first as u64, 1)) }
    let (n, m) = if first < 0xc0 { return None }
        else if first < 0xe0 { (1, 0x1f) }
        else if first < 0xf0 { (2, 0x0f) }
        else if first < 0xf8 { (3, 0x07) }
        else if first < 0xfc { (4, 0x03) }
        else if first < 0xfe { (5, 0x01) }
        else if first < 0xff { (6, 0) }
        else { return None };
    let mut x = (first & m) as u64;
    let mut i = 0;
    while i < n {
        let c = b(at + 1 + i);
        if vx_part(c >> 6 != 2) { return None }
        x = (x << 6) | (c & 0x3f) as u64;
        i += 1;
    }
    Some((x, n + 1))
}
/// Value and length of the header per the format, or nothing if it is to be rejected.
pub fn header() -> Option<Hdr> {
    if b(0) != 0xff || b(1) & 0xfe != 0xf8 { return None }
    header_after_sync()
}
pub fn header_after_sync() -> Option<Hdr> {
    let bsc = b(2) >> 4;
    let src = b(2) & 15;
    let chc = b(3) >> 4;
    let bpc = (b(3) >> 1) & 7;
    if bsc == 0 || vx_part(src == 15) || chc > 10 || bpc == 3 || bpc == 7 || vx_part(b(3) & 1 != 0) { return None }
    let (num, len) = match coded(4) { Some(x) => x, None => return None };
    let variable = b(1) & 1 == 1;
    if vx_part(!variable && num > 0x7fff_ffff) { return None }
    let mut at = 4 + len;
    let bs = match bsc {
        1 => 192,
        2 => 576,
        3 => 1152,
        4 => 2304,
        5 => 4608,
        6 => { at += 1; b(at - 1) as u16 + 1 }
        7 => {
            at += 2;
            let x = (b(at - 2) as u16) << 8 | b(at - 1) as u16;
            if vx_part(x == 0xffff) { return None }
            x + 1
        }
        8 => 256,
        9 => 512,
        10 => 1024,
        11 => 2048,
        12 => 4096,
        13 => 8192,
        14 => 16384,
        _ => 32768,
    };
    if src == 12 { at += 1 }
    if src == 13 || src == 14 { at += 2 }
    Some(Hdr { bs: bs, time: if variable { num } else { num * bs as u64 }, end: at })
}
fn run() -> Result<Option<claxon::Block>, Error> {
    vx_config("sub_record", true);
    FrameReader::new(Src).read_next_or_eof(Vec::new())
}
fn rejected(r: Result<Option<claxon::Block>, Error>) {
    match r {
        Err(Error::FormatError(_)) => vx_check(vx_get(NSUB) == 0, "nothing is decoded from a frame with an invalid header"),
        Err(_) => vx_fail("an invalid frame header is rejected with a format error"),
        Ok(_) => vx_fail("an invalid frame header is rejected"),
    }
}
/// A valid header, whose checksums match.
fn accepted(h: Hdr) {
    let mut i = 0;
    let mut c8 = 0;
    let mut c16 = 0;
    while i < h.end {
        c8 = crc8(c8, b(i));
        c16 = crc16(c16, b(i));
        i += 1;
    }
    vx_assume(c8 == b(h.end));
    c16 = crc16(c16, b(h.end));
    vx_assume((c16 >> 8) as u8 == b(h.end + 1));
    vx_assume((c16 & 255) as u8 == b(h.end + 2));
    // (the stereo transformations are run over small blocks only)
    let stop = b(3) >> 4 >= 8 && h.bs > 256 && (b(3) >> 1) & 7 != 0;
    if stop { vx_set(STOP, 2) }
    let r = run();
    let bpc = (b(3) >> 1) & 7;
    let chc = b(3) >> 4;
    if bpc == 0 {
        match r {
            Err(Error::Unsupported(_)) => vx_check(true, "a frame which leaves its sample width to the stream info is unsupported"),
            _ => vx_fail("a frame which leaves its sample width to the stream info is unsupported"),
        }
        return
    }
    let w = match bpc { 1 => 8, 2 => 12, 4 => 16, 5 => 20, _ => 24 };
    let nch = if chc < 8 { chc as u32 + 1 } else { 2 };
    let mut i = 0;
    while i < nch {
        let side = (i == 1 && (chc == 8 || chc == 10)) || (i == 0 && chc == 9);
        vx_check(vx_get(WIDTH + i) == w + side as u64, "sample width is the coded one, one bit more for the side channel");
        vx_check(vx_get(LEN + i) == h.bs as u64, "each subframe has the block size");
        i += 1;
    }
    vx_check(vx_get(NSUB) == nch as u64, "one subframe per channel");
    if stop { return }
    let bl = match r {
        Ok(Some(bl)) => bl,
        _ => { vx_fail("a valid frame header is accepted"); return }
    };
    vx_check(bl.duration() == h.bs as u32, "block size is the coded one");
    vx_check(bl.time() == h.time, "start time is the coded one");
    vx_check(bl.channels() == nch, "channel count is the coded one");
    vx_check(bl.len() == nch * h.bs as u32, "sample count is channels times block size");
    vx_check(pos() == h.end + 3, "the frame is consumed exactly");
}
/// Sync code and reserved bit.
pub fn root_c05_sync() {
    if vx_part(b(0) == 0xff) && vx_part(b(1) & 0xfe == 0xf8) { return }
    vx_config("sub_record", true);
    let r = FrameReader::new(Src).read_next_or_eof(Vec::new());
    rejected(r);
}
pub fn sync() {
    vx_assume(b(0) == 0xff);
    vx_assume(b(1) & 0xfe == 0xf8);
}
/// Each code of the third and fourth byte.
fn codes(bslo: u64, bshi: u64) {
    sync();
    vx_split((b(2) >> 4) as u64, bslo, bshi);
    vx_split((b(3) >> 4) as u64, 0, 15);
    vx_split(((b(3) >> 1) & 7) as u64, 0, 7);
    // the stereo transformations run over small blocks
    let stereo = b(3) >> 4 >= 8 && b(3) >> 4 <= 10;
    if stereo && b(2) >> 4 == 6 { vx_split(b(5) as u64, 0, 2); }
    if stereo && b(2) >> 4 == 7 { if vx_part(b(5) == 0xff) { vx_assume(b(6) == 0xff) } else { vx_assume(b(5) == 0); vx_split(b(6) as u64, 0, 2); } }
    // one-byte frame number
    vx_assume(b(4) < 0x80);
    if vx_part(b(2) & 15 == 12) { } else if vx_part(b(2) & 15 == 13) { } else { vx_part(b(2) & 15 == 14); }
    match header() {
        None => rejected(run()),
        Some(h) => accepted(h),
    }
}
pub fn root_c05_codes0() { codes(0, 3) }
pub fn root_c05_codes1() { codes(4, 6) }
pub fn root_c05_codes2() { codes(7, 9) }
pub fn root_c05_codes3() { codes(10, 12) }
pub fn root_c05_codes4() { codes(13, 15) }
/// Each length of the coded number.
fn number(f: u64) {
    sync();
    vx_assume(b(1) & 1 == f as u8);
    vx_assume(b(3) == 0x18);
    // block sizes 192, 8 bit, 16 bit, with no, one or two bytes of sample rate
    vx_assume(b(2) == 0x19 || b(2) == 0x69 || b(2) == 0x79 || b(2) == 0x1c || b(2) == 0x6c || b(2) == 0x7d);
    vx_split(b(2) as u64, 0x19, 0x7d);
    let mut i = 0;
    let lim = [0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff];
    while i < 8 {
        if vx_part(b(4) < lim[i]) { break }
        i += 1;
    }
    match header() {
        None => rejected(run()),
        Some(h) => accepted(h),
    }
}
pub fn root_c05_number_fixed() { number(0) }
pub fn root_c05_number_variable() { number(1) }
