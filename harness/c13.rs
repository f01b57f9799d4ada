//! C13: memory used while reading metadata.
use vx::*;
use src::*;
use frame::Shape;
use claxon::{Error, FlacReader};
use claxon::metadata::*;

const CAP: u64 = 10 << 20;
fn put32(at: u64, x: u64) {
    let mut i = 0;
    while i < 4 {
        vx_assume(b(at + i) as u64 == (x >> (8 * i)) & 255);
        i += 1;
    }
}
fn le32(at: u64) -> u64 {
    b(at) as u64 | (b(at + 1) as u64) << 8 | (b(at + 2) as u64) << 16 | (b(at + 3) as u64) << 24
}
fn length() -> u64 {
    4 * vx_any_u64("quarter of length", 0, CAP / 4) + vx_split(vx_any_u64("rest of length", 0, 3), 0, 3)
}
/// Blocks which would have to be buffered are refused before anything is allocated.
pub fn root_c13_huge() {
    let ty = if vx_split(vx_any_u64("type", 0, 1), 0, 1) == 0 { 2 } else { 4 };
    let len = vx_any_u64("length", CAP + 1, u32::max_value() as u64);
    let before = vx_allocs();
    vx_alloc_limit(1);
    match read_metadata_block(&mut Src, ty, len as u32) {
        Err(Error::Unsupported(_)) => vx_check(vx_allocs() == before, "large blocks are refused before anything is allocated"),
        _ => vx_fail("blocks above 10 MiB which would have to be buffered are unsupported"),
    }
}
/// Blocks which need not be buffered are not.
pub fn root_c13_skipped() {
    let ty = vx_split(vx_any_u64("type", 0, 127), 0, 127) as u8;
    if ty == 2 || ty == 4 { return }
    let len = vx_any_u64("length", 0, (1 << 24) - 1);
    let limit = if vx_part(len > CAP) { 1 << 20 } else { 4 * len + 65536 };
    vx_alloc_limit(limit);
    let r = read_metadata_block(&mut Src, ty, len as u32);
    vx_check(vx_get(TOTAL) <= limit, "memory is bounded by the block's length");
}
pub fn root_c13_application() {
    let len = vx_any_u64("length", 0, CAP);
    if vx_part(vx_any_u64("truncated", 0, 1) == 1) { vx_set(END, 5 + 1) }
    vx_alloc_limit(4 * len + 65536);
    let r = read_metadata_block(&mut Src, 2, len as u32);
    vx_check(vx_get(TOTAL) <= 4 * len + 65536, "memory is bounded by the block's length");
}
/// A comment block of any length, with k short comments, then one of any length in which the stream ends.
pub fn root_c13_comments() {
    let len = length();
    let vendor = le32(0);
    vx_alloc_limit(16 * len + 65536);
    let short = vx_split(vx_any_u64("short comments", 0, 4), 0, 4);
    if short > 0 || vx_part(vx_any_u64("no vendor", 0, 1) == 1) {
        put32(0, 0);
        let mut at = 8;
        let mut i = 0;
        while i < short {
            put32(at, 2);
            vx_assume(b(at + 4) == b'A' && b(at + 5) == b'=');
            at += 6;
            i += 1;
        }
        vx_set(END, at + 4 + vx_split(vx_any_u64("more", 0, 1), 0, 1) + 1);
        if vx_part(vx_any_u64("empty", 0, 1) == 1) { put32(at, 0) } else { vx_assume(le32(at) != 0) }
    } else {
        // ends in the vendor string
        vx_assume(vendor >= 1);
        vx_set(END, 5);
    }
    let r = read_metadata_block(&mut Src, 4, len as u32);
    vx_check(vx_get(TOTAL) <= 16 * len + 65536, "memory is bounded by a multiple of the block's length");
}
/// The vendor string and the list of comments.
pub fn root_c13_vendor() {
    let len = length();
    let vendor = vx_split(vx_any_u64("vendor", 0, 20), 0, 20);
    vx_assume(le32(0) == vendor);
    let mut i = 0;
    while i < vendor {
        vx_assume(b(4 + i) < 0x80);
        i += 1;
    }
    vx_alloc_limit(16 * len + 65536);
    vx_set(END, 8 + vendor + 1);
    let r = read_metadata_block(&mut Src, 4, len as u32);
    vx_check(vx_get(TOTAL) <= 16 * len + 65536, "memory is bounded by a multiple of the block's length");
}
/// Iterating samples: one buffer, for the largest block.
pub fn root_c13_samples() {
    let k = vx_split(vx_any_u64("layout", 0, 2), 0, 2) as usize;
    let l = [(1, 3, 2), (0, 2, 3), (10, 2, 2)];
    let a = Shape { chc: l[k].0, bpc: 4, bs: l[k].1, time: 0 };
    let z = Shape { chc: l[k].0, bpc: 4, bs: l[k].2, time: 0 };
    let at = opened();
    let at = a.frame(at);
    let at = z.frame(at);
    vx_set(END, at + 1);
    vx_config("sub_fill", true);
    vx_alloc_limit(1 << 16);
    let mut r = match FlacReader::new(Rd) { Ok(r) => r, Err(_) => { vx_fail("a valid stream is opened"); return } };
    let before = vx_allocs();
    vx_alloc_limit(4 * a.channels() * if a.bs > z.bs { a.bs } else { z.bs });
    let mut n = 0;
    for x in r.samples() {
        if x.is_err() { vx_fail("a valid stream is decoded") }
        n += 1;
        vx_check(vx_allocs() - before <= if n <= a.channels() * a.bs { 1 } else { 2 }, "decoding a frame allocates at most one buffer");
    }
    vx_check(n == a.channels() * (a.bs + z.bs), "a valid stream is decoded");
}
