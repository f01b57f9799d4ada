//! C07: byte input.
use vx::*;
use src::*;
use std::io;
use claxon::input::{ReadBytes, BufferedReader};

fn pick(l: &'static str, lo: u64, hi: u64) -> u64 { vx_split(vx_any_u64(l, lo, hi), lo, hi) }

/// An operation: 0 a byte, 1 a byte unless at the end, 2 to 4 big-endian numbers, 5 one unless at
/// the end, 6 a little-endian number, 7 reading into a buffer, 8 skipping.
const KINDS: u64 = 9;
const BYTE: u64 = 0;
const BYTE_OR_EOF: u64 = 1;
const BE16: u64 = 2;
const BE24: u64 = 3;
const BE32: u64 = 4;
const BE16_OR_EOF: u64 = 5;
const LE32: u64 = 6;
const INTO: u64 = 7;
const SKIP: u64 = 8;

fn width(kind: u64, n: u64) -> u64 {
    match kind { BYTE | BYTE_OR_EOF => 1, BE16 | BE16_OR_EOF => 2, BE24 => 3, BE32 | LE32 => 4, _ => n }
}
/// The byte of a stream held in memory or read.
fn be(at: u64, n: u64) -> u64 {
    let mut x = 0;
    let mut i = 0;
    while i < n {
        x = x << 8 | b(at + i) as u64;
        i += 1;
    }
    x
}
fn le(at: u64) -> u64 {
    b(at) as u64 | (b(at + 1) as u64) << 8 | (b(at + 2) as u64) << 16 | (b(at + 3) as u64) << 24
}
enum Out { Value(u64), End, Done, Failed(io::Error) }
fn num(r: io::Result<u64>) -> Out { match r { Ok(x) => Out::Value(x), Err(e) => Out::Failed(e) } }
fn small(r: io::Result<u32>) -> Out { match r { Ok(x) => Out::Value(x as u64), Err(e) => Out::Failed(e) } }
/// Performs the operation on a reader at byte `at`; compares with the stream.
fn perform<R: ReadBytes>(r: &mut R, kind: u64, n: u64, at: u64) -> Out {
    match kind {
        BYTE => match r.read_u8() { Ok(x) => Out::Value(x as u64), Err(e) => Out::Failed(e) },
        BYTE_OR_EOF => match r.read_u8_or_eof() {
            Ok(Some(x)) => Out::Value(x as u64),
            Ok(None) => Out::End,
            Err(e) => Out::Failed(e),
        },
        BE16 => match r.read_be_u16() { Ok(x) => Out::Value(x as u64), Err(e) => Out::Failed(e) },
        BE24 => small(r.read_be_u24()),
        BE32 => small(r.read_be_u32()),
        BE16_OR_EOF => match r.read_be_u16_or_eof() {
            Ok(Some(x)) => Out::Value(x as u64),
            Ok(None) => Out::End,
            Err(e) => Out::Failed(e),
        },
        LE32 => small(r.read_le_u32()),
        INTO => {
            let mut buf = vec![0u8; n as usize];
            match r.read_into(&mut buf) {
                Ok(()) => {
                    let mut i = 0;
                    while i < n {
                        vx_check(buf[i as usize] == b(at + i), "a buffer is filled with the next bytes in order");
                        i += 1;
                    }
                    Out::Done
                }
                Err(e) => Out::Failed(e),
            }
        }
        _ => match r.skip(n as u32) { Ok(()) => Out::Done, Err(e) => Out::Failed(e) },
    }
}
/// Performs an operation at byte `at` of a stream of `end` bytes; the next position, or None
/// after a failure or the end.
fn step<R: ReadBytes>(r: &mut R, kind: u64, n: u64, at: u64, end: u64) -> Option<u64> {
    let w = width(kind, n);
    let fits = at + w <= end;
    match perform(r, kind, n, at) {
        Out::Value(x) => {
            vx_check(fits, "no value is made up after the end of the stream");
            if !fits { return None }
            if kind == LE32 { vx_check(x == le(at), "a little-endian number is composed from the next bytes") }
            else { vx_check(x == be(at, w), "a big-endian number is composed from the next bytes, in order") }
            Some(at + w)
        }
        Out::End => {
            vx_check(at >= end, "an end is reported only at the end of the stream");
            None
        }
        Out::Done => {
            vx_check(fits, "reading or skipping past the end of the stream fails");
            if fits { Some(at + w) } else { None }
        }
        Out::Failed(e) => {
            vx_check(!fits, "reading what is there does not fail");
            let at_end = at >= end && (kind == BYTE_OR_EOF || kind == BE16_OR_EOF);
            if vx_get(KIND) == 0 {
                vx_check(!at_end, "the end before a number is not a failure where that is asked for");
                vx_check(e.kind() == io::ErrorKind::UnexpectedEof, "running out of data is reported as such");
            } else {
                vx_check(vx_err_tag(&e) == vx_get(KIND), "the error of the underlying reader is handed on");
            }
            None
        }
    }
}
fn operation(longest: u64) -> (u64, u64) {
    let k = pick("operation", 0, KINDS - 1);
    (k, if k >= INTO { pick("length", 0, longest) } else { 0 })
}
/// Two operations, on a stream ending or failing after up to 9 bytes, in chunks.
fn two(chunk: u64, lo: u64, hi: u64, kinds: u64, longest: u64) {
    let end = pick("length of the stream", lo, hi);
    vx_set(CHUNK, chunk);
    vx_set(END, end + 1);
    vx_set(KIND, pick("kind of end", 0, kinds));
    let mut r = BufferedReader::new(Rd);
    let (k, n) = operation(longest);
    let p = match step(&mut r, k, n, 0, end) { Some(p) => p, None => return };
    let (k, n) = operation(longest);
    step(&mut r, k, n, p, end);
}
pub fn root_c07_two_full() { two(0, 0, 9, 1, 5) }
pub fn root_c07_two_single() { two(1, 0, 9, 1, 5) }
/// Chunks of one to three bytes each.
pub fn root_c07_two_mixed() { two(3, 4, 5, 0, 3) }

/// Two operations through a mutable reference.
pub fn root_c07_reference() {
    vx_set(CHUNK, pick("chunks", 0, 1));
    let end = pick("length of the stream", 7, 8);
    vx_set(END, end + 1);
    let mut r = BufferedReader::new(Rd);
    let (k, n) = operation(5);
    let p = match step(&mut &mut r, k, n, 0, end) { Some(p) => p, None => return };
    let (k, n) = operation(5);
    let p = match step(&mut &mut r, k, n, p, end) { Some(p) => p, None => return };
    step(&mut r, BYTE, 0, p, end);
}
/// Operations across the places where the buffer is filled again, skipping up to there.
fn refill(kind: u64) {
    vx_set(CHUNK, 0);
    let mut r = BufferedReader::new(Rd);
    let from = pick("skipped", 2043, 2049);
    let p = match step(&mut r, SKIP, from, 0, 1 << 40) { Some(p) => p, None => return };
    let n = if kind < INTO { 0 } else { pick("length", 1, 9) };
    let p = match step(&mut r, kind, n, p, 1 << 40) { Some(p) => p, None => return };
    step(&mut r, BE32, 0, p, 1 << 40);
}
pub fn root_c07_refill_numbers() { refill(pick("operation", 0, KINDS - 3)) }
pub fn root_c07_refill_bulk() { refill(pick("operation", INTO, SKIP)) }
/// Skipping any number of bytes, in chunks of any size.
pub fn root_c07_skip() {
    vx_set(CHUNK, pick("chunks", 0, 1));
    let mut r = BufferedReader::new(Rd);
    let p = match step(&mut r, INTO, 3, 0, 1 << 40) { Some(p) => p, None => return };
    let n = if vx_get(CHUNK) == 0 {
        // within each multiple of the size of the buffer
        let q = pick("part", 0, 11);
        match pick("place", 0, 2) {
            0 => 2048 * q,
            1 => 2048 * q + 2045,
            _ => if q == 0 { vx_any_u64("bytes skipped", 1, 2044) }
                else { vx_any_u64("bytes skipped", 2048 * q - 2, 2048 * q + 2044) },
        }
    } else { pick("bytes skipped", 0, 40) };
    match r.skip(n as u32) {
        Ok(()) => {}
        Err(_) => { vx_fail("skipping what is there does not fail"); return }
    }
    match r.read_u8() {
        Ok(x) => vx_check(x == b(p + n), "skipping n bytes skips exactly n"),
        Err(_) => vx_fail("reading what is there does not fail"),
    }
}
/// Skipping more than 16 bits can count, in whole buffers.
pub fn root_c07_skip_far() {
    vx_set(CHUNK, pick("chunks", 0, 0));
    let mut r = BufferedReader::new(Rd);
    let p = match step(&mut r, INTO, 3 * pick("before", 0, 1), 0, 1 << 40) { Some(p) => p, None => return };
    let n = match pick("bytes skipped", 0, 7) {
        0 => 32767, 1 => 32768, 2 => 65535, 3 => 65536, 4 => 65537, 5 => 65536 + 2048, 6 => 131072, _ => 0x3ffff,
    };
    vx_set(END, p + n + 5000);
    match r.skip(n as u32) {
        Ok(()) => {}
        Err(_) => { vx_fail("skipping what is there does not fail"); return }
    }
    match r.read_u8() {
        Ok(x) => vx_check(x == b(p + n), "skipping n bytes skips exactly n"),
        Err(_) => vx_fail("reading what is there does not fail"),
    }
}
/// A large buffer.
pub fn root_c07_large() {
    vx_set(CHUNK, pick("chunks", 0, 0));
    let mut r = BufferedReader::new(Rd);
    let p = match step(&mut r, SKIP, pick("skipped", 0, 3), 0, 1 << 40) { Some(p) => p, None => return };
    let n = pick("length", 0, 4) * 1365;
    let mut buf = vec![0u8; n as usize];
    match r.read_into(&mut buf) {
        Ok(()) => {}
        Err(_) => { vx_fail("reading what is there does not fail"); return }
    }
    // around every place where the buffer may have been filled
    let mut i = 0;
    while i < n {
        vx_check(buf[i as usize] == b(p + i), "a buffer is filled with the next bytes in order");
        let m = (p + i + 1) % 2048;
        i += if m < 2 || m > 2045 { 1 } else { 89 };
    }
    step(&mut r, BE16, 0, p + n, 1 << 40);
}
/// After a failure, nothing that has been delivered before is delivered again.
pub fn root_c07_failed() {
    vx_set(CHUNK, pick("chunks", 0, 1));
    let end = pick("length of the stream", 0, 6);
    let mut i = 0;
    while i < 24 {
        vx_assume(b(i) == (11 * i + 5) as u8);
        i += 1;
    }
    vx_set(END, end + 1);
    vx_set(KIND, pick("kind of end", 0, 1));
    let mut r = BufferedReader::new(Rd);
    let first = pick("bytes read before", 0, 2);
    let mut p = 0;
    while p < first && p < end {
        match step(&mut r, BYTE, 0, p, end) { Some(x) => p = x, None => return }
    }
    let (k, n) = operation(5);
    let q = match step(&mut r, k, n, p, end) { Some(q) => q, None => {
        // fail once more
        if pick("fails again", 0, 1) == 1 {
            match r.read_u8() {
                Ok(x) => {
                    let i = (x as u64 + 256 - 5) * 163 % 256;
                    vx_check(i >= p && i < end, "no byte is delivered again after a failure");
                }
                Err(_) => {}
            }
        }
        // the source recovers
        vx_set(END, 25);
        vx_set(KIND, 0);
        match r.read_u8() {
            Ok(x) => {
                // 11 * 163 = 7 * 256 + 1
                let i = (x as u64 + 256 - 5) * 163 % 256;
                vx_check(i >= p && i <= end, "no byte is delivered again after a failure, and none is left out");
            }
            Err(_) => vx_fail("reading what is there does not fail"),
        }
        return
    } };
    step(&mut r, BYTE, 0, q, end);
}
/// Cursors over a vector and over a slice, at any position.
fn cursor<T: AsRef<[u8]>>(data: T, end: u64) {
    let mut c = io::Cursor::new(data);
    let at = pick("position", 0, 8);
    c.set_position(at);
    let (k, n) = operation(5);
    let p = match step(&mut c, k, n, at, end) { Some(p) => p, None => return };
    vx_check(c.position() == p, "a cursor's position is that of the next byte");
    let (k, n) = operation(5);
    step(&mut c, k, n, p, end);
}
pub fn root_c07_cursor_vec() {
    let end = pick("length of the stream", 0, 6);
    let mut v = Vec::new();
    let mut i = 0;
    while i < end { v.push(b(i)); i += 1 }
    cursor(v, end)
}
pub fn root_c07_cursor_slice() {
    let mut a = [0u8; 6];
    let mut i = 0;
    while i < 6 { a[i as usize] = b(i); i += 1 }
    let end = pick("length of the stream", 5, 6);
    cursor(&a[..end as usize], end)
}
pub fn root_c07_cursor_far() {
    let mut a = [0u8; 4];
    let mut c = io::Cursor::new(&a[..]);
    c.set_position(vx_any_u64("position", 4, u64::max_value()));
    let (k, n) = operation(5);
    if k >= INTO && n == 0 { return }
    match perform(&mut c, k, n, 0) {
        Out::Value(_) => vx_fail("no value is made up after the end of the stream"),
        Out::End => vx_check(k == BYTE_OR_EOF || k == BE16_OR_EOF, "an end"),
        Out::Done => vx_fail("reading or skipping past the end of the stream fails"),
        Out::Failed(e) => {
            vx_check(k != BYTE_OR_EOF && k != BE16_OR_EOF, "the end before a number is not a failure where that is asked for");
            vx_check(e.kind() == io::ErrorKind::UnexpectedEof, "running out of data is reported as such");
        }
    }
}
