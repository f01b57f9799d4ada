//! C09, C10: stream info, framing of metadata blocks.
use vx::*;
use src::*;
use claxon::{Error, FlacReader};
use claxon::metadata::*;

fn be(at: u64, n: u64) -> u64 {
    let mut x = 0;
    let mut i = 0;
    while i < n {
        x = x << 8 | b(at + i) as u64;
        i += 1;
    }
    x
}
fn known(x: u64) -> Option<u64> { if x == 0 { None } else { Some(x) } }
fn same(x: Option<u32>, y: u64, m: &'static str) {
    match x {
        None => vx_check(y == 0, m),
        Some(x) => vx_check(x as u64 == y && y != 0, m),
    }
}

// ---- C09

/// Whether the stream info at this place is to be accepted.
pub fn info_ok(at: u64) -> bool {
    let (minb, maxb, minf, maxf) = (be(at, 2), be(at + 2, 2), be(at + 4, 3), be(at + 7, 3));
    let rate = be(at + 10, 3) >> 4;
    if vx_part(minb > maxb) { return false }
    if vx_part(minb < 16) { return false }
    if !vx_part(maxf == 0) { if vx_part(minf > maxf) { return false } }
    if vx_part(rate == 0) { return false }
    if vx_part(rate > 655350) { return false }
    true
}
fn info_is(i: &StreamInfo, at: u64) {
    vx_check(i.min_block_size as u64 == be(at, 2), "the minimum block size is reported");
    vx_check(i.max_block_size as u64 == be(at + 2, 2), "the maximum block size is reported");
    same(i.min_frame_size, be(at + 4, 3), "the minimum frame size is reported, zero as unknown");
    same(i.max_frame_size, be(at + 7, 3), "the maximum frame size is reported, zero as unknown");
    vx_check(i.sample_rate as u64 == be(at + 10, 3) >> 4, "the sample rate is reported");
    vx_check(i.channels as u64 == ((b(at + 12) >> 1) & 7) as u64 + 1, "the channel count is reported");
    vx_check(i.bits_per_sample as u64 == (be(at + 12, 2) >> 4 & 31) + 1, "the sample width is reported");
    let n = be(at + 13, 5) & 0xf_ffff_ffff;
    match i.samples {
        None => vx_check(n == 0, "the number of samples is reported, zero as unknown"),
        Some(x) => vx_check(x == n && n != 0, "the number of samples is reported, zero as unknown"),
    }
    let mut k = 0;
    while k < 16 {
        vx_check(i.md5sum[k] == b(at + 18 + k as u64), "the MD5 signature is reported");
        k += 1;
    }
}
fn c09_block(r: Result<MetadataBlock, Error>, at: u64, ok: bool) {
    match r {
        Ok(MetadataBlock::StreamInfo(i)) => {
            vx_check(ok, "an inconsistent stream info block is rejected");
            info_is(&i, at);
            vx_check(pos() == at + 34, "the stream info block is consumed");
        }
        Err(Error::FormatError(_)) => vx_check(!ok, "a consistent stream info block is accepted"),
        _ => vx_fail("a stream info block yields stream info or a format error"),
    }
}
pub fn root_c09_direct() {
    let ok = info_ok(0);
    c09_block(read_metadata_block(&mut Src, 0, 34), 0, ok)
}
pub fn info_header() {
    vx_assume(b(0) & 127 == 0 && b(1) == 0 && b(2) == 0 && b(3) == 34);
}
pub fn root_c09_with_header() {
    info_header();
    let ok = info_ok(4);
    c09_block(read_metadata_block_with_header(&mut Src), 4, ok)
}
pub fn root_c09_iterated() {
    info_header();
    let ok = info_ok(4);
    let mut it = MetadataBlockReader::new(Src);
    match it.next() {
        Some(r) => c09_block(r, 4, ok),
        None => vx_fail("there is a block"),
    }
}
/// As FlacReader reports it.
pub fn root_c09_opened() {
    let h = [0x66, 0x4c, 0x61, 0x43, 0x80, 0, 0, 34];
    let mut i = 0;
    while i < 8 {
        vx_assume(b(i) == h[i as usize]);
        i += 1;
    }
    let ok = info_ok(8);
    match FlacReader::new(Rd) {
        Ok(r) => {
            vx_check(ok, "an inconsistent stream info block is rejected");
            info_is(&r.streaminfo(), 8);
        }
        Err(Error::FormatError(_)) => vx_check(!ok, "a consistent stream info block is accepted"),
        Err(_) => vx_fail("a stream info block yields stream info or a format error"),
    }
}

// ---- C10

fn one(ty: u8, len: u32) {
    let r = read_metadata_block(&mut Src, ty, len);
    let p = pos();
    match (ty, r) {
        (127, Err(Error::FormatError(_))) => vx_check(true, "type 127 is rejected"),
        (127, _) => vx_fail("type 127 is rejected"),
        (0, r) if len != 34 => match r {
            Err(Error::FormatError(_)) => vx_check(true, "a stream info length other than 34 is rejected"),
            _ => vx_fail("a stream info length other than 34 is rejected"),
        },
        (2, Err(Error::FormatError(_))) => vx_check(len < 4, "an application block with an identifier is accepted"),
        (2, Err(Error::Unsupported(_))) => vx_check(len > 10 << 20, "an application block of up to 10 MiB is accepted"),
        (2, Ok(MetadataBlock::Application { id, data })) => {
            vx_check(len >= 4 && len <= 10 << 20, "application blocks without identifier or above 10 MiB are rejected");
            vx_check(id as u64 == be(0, 4), "the application's identifier is the first four bytes");
            vx_check(data.len() as u64 == len as u64 - 4, "the application's data are the rest of the block");
            let k = vx_any_u64("place", 0, 1 << 24);
            if k < data.len() as u64 {
                vx_check(data[k as usize] == b(4 + k), "the application's data are the rest of the block");
            }
            vx_check(p == len as u64, "the block's length is consumed");
        }
        (1, Ok(MetadataBlock::Padding { length })) | (3, Ok(MetadataBlock::Padding { length })) |
        (5, Ok(MetadataBlock::Padding { length })) | (6, Ok(MetadataBlock::Padding { length })) => {
            vx_check(length == len, "padding reports its length");
            vx_check(p == len as u64, "the block's length is consumed");
        }
        (3, Ok(MetadataBlock::SeekTable(_))) | (5, Ok(MetadataBlock::CueSheet)) | (6, Ok(MetadataBlock::Picture)) =>
            vx_check(p == len as u64, "the block's length is consumed"),
        (4, _) => vx_unknown("comments are C11"),
        (t, Ok(MetadataBlock::Reserved)) => {
            vx_check(t > 6, "only unknown types are reserved");
            vx_check(p == len as u64, "the block's length is consumed");
        }
        _ => vx_fail("the block returned corresponds to its type"),
    }
}
/// Every type except stream info and comments, every length.
pub fn root_c10_types() {
    let ty = vx_split(vx_any_u64("type", 0, 127), 0, 127) as u8;
    if ty == 4 { return }
    let len = vx_any_u64("length", 0, (1 << 24) - 1) as u32;
    if ty == 0 && vx_part(len == 34) { return }
    one(ty, len)
}
/// The header: type, length and whether it is the last.
pub fn root_c10_header() {
    let ty = vx_split((b(0) & 127) as u64, 0, 127) as u8;
    if ty == 0 || ty == 4 { return }
    let last = vx_part(b(0) >> 7 == 1);
    let len = be(1, 3) as u32;
    let mut it = MetadataBlockReader::new(Src);
    vx_check(it.size_hint().0 <= 1, "the size hint does not promise more than there is");
    let good = match it.next() {
        Some(Ok(_)) => {
            vx_check(pos() == 4 + len as u64, "header and declared length are consumed");
            true
        }
        Some(Err(Error::FormatError(_))) => {
            vx_check(ty == 127 || ty == 2 && len < 4, "only what the format forbids is rejected");
            false
        }
        Some(Err(Error::Unsupported(_))) => {
            vx_check(ty == 2 && len > 10 << 20, "only large blocks are unsupported");
            false
        }
        Some(Err(_)) => { vx_fail("no I/O error without one"); return }
        None => { vx_fail("there is a block"); return }
    };
    if last || !good {
        vx_check(it.size_hint() == (0, Some(0)), "nothing more is announced");
        vx_check(it.next().is_none() && it.next().is_none(), "iteration ends after the block marked last and after an error");
        return
    }
    vx_check(it.size_hint().1.map_or(true, |n| n > 0), "more blocks are not ruled out");
    // the next block starts where this one ended
    let at = 4 + len as u64;
    vx_assume(b(at) == 0x81);
    match it.next() {
        Some(Ok(MetadataBlock::Padding { length })) => {
            vx_check(length as u64 == be(at + 1, 3), "the next block starts where the previous one ended");
            vx_check(pos() == at + 4 + be(at + 1, 3), "header and declared length are consumed");
        }
        _ => vx_fail("the next block starts where the previous one ended"),
    }
    vx_check(it.next().is_none(), "iteration ends after the block marked last");
}
