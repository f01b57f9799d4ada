//! C14: opening a stream.
use std::io;
use vx::*;
use src::*;
use frame::Shape;
use claxon::{Error, FlacReader, FlacReaderOptions};

pub fn put(at: u64, x: &[u8]) -> u64 {
    let mut i = 0;
    while i < x.len() {
        vx_assume(b(at + i as u64) == x[i]);
        i += 1;
    }
    at + x.len() as u64
}
pub const INFO: u64 = 0;
pub const PADDING: u64 = 1;
pub const COMMENT: u64 = 2;
pub const BAD_COMMENT: u64 = 3;
pub const RESERVED: u64 = 4;
pub const FORBIDDEN: u64 = 5;
pub const OTHER: u64 = 6;
pub const TABLE: u64 = 7;
/// A block of this kind at this place.
pub fn block(at: u64, kind: u64, last: bool) -> u64 {
    let l = if last { 0x80 } else { 0 };
    match kind {
        INFO => {
            let at = put(at, &[l, 0, 0, 34, 16, 0, 16, 0, 0, 0, 0, 0, 0, 0, 0x0a, 0xc4, 0x42, 0xf0, 0, 0, 0, 0]);
            at + 16
        }
        PADDING => put(at, &[l | 1, 0, 0, 2]) + 2,
        COMMENT => {
            // vendor ?, A?=?
            let at = put(at, &[l | 4, 0, 0, 17, 1, 0, 0, 0]);
            vx_assume(b(at) < 0x80);
            let at = put(at + 1, &[1, 0, 0, 0, 4, 0, 0, 0, b'A', b'b', b'=']);
            vx_assume(b(at) < 0x80);
            at + 1
        }
        // no vendor, A: without separator
        BAD_COMMENT => put(at, &[l | 4, 0, 0, 14, 0, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, b'A', b':']),
        RESERVED => put(at, &[l | 9, 0, 0, 3]) + 3,
        FORBIDDEN => put(at, &[l | 127, 0, 0, 1]) + 1,
        TABLE => put(at, &[l | 3, 0, 0, 18]) + 18,
        _ => put(at, &[l | 2, 0, 0, 6]) + 6,
    }
}
fn pick(l: &'static str, lo: u64, hi: u64) -> u64 { vx_split(vx_any_u64(l, lo, hi), lo, hi) }
fn same(x: Option<&str>, c: u8) -> bool {
    match x {
        Some(s) => s.len() == 1 && s.as_bytes()[0] == c,
        None => false,
    }
}
/// n blocks, the first a stream info block if it says so.
fn open(n: u64, kinds: u64, info_first: bool, options: u64) {
    opened_by(n, kinds, info_first, options, 0)
}
/// The same through a file, if by is not 0.
pub fn opened_by(n: u64, kinds: u64, info_first: bool, options: u64, by: u64) {
    let o = FlacReaderOptions { metadata_only: options & 1 != 0, read_vorbis_comment: options & 2 != 0 };
    let mut at = put(0, &[0x66, 0x4c, 0x61, 0x43]);
    // what the specification demands
    let mut broken = false;
    let (mut infos, mut comments) = (0, 0);
    let mut where_ = 0;
    // reading may stop here if only metadata is wanted
    let mut free = false;
    let mut must_fail = false;
    let mut i = 0;
    while i < n {
        let k = if i == 0 && info_first { INFO } else { pick("kind of block", 0, kinds - 1) };
        if k == COMMENT || k == BAD_COMMENT { comments += 1; if k == COMMENT && comments == 1 { where_ = at } }
        if k == INFO { infos += 1 }
        if i == 0 && k != INFO || k == BAD_COMMENT || k == FORBIDDEN || infos > 1 || comments > 1 { broken = true }
        if broken && !free { must_fail = true }
        if o.metadata_only && (!o.read_vorbis_comment || comments > 0) { free = true }
        at = block(at, k, i + 1 == n);
        i += 1;
    }
    let f = Shape { chc: 0, bpc: 4, bs: 2, time: 5 };
    let e = f.frame(at);
    vx_set(END, e + 1);
    vx_config("sub_fill", true);
    let plain = options == 2 && pick("constructor", 0, 1) == 0;
    let w = Wanted { must_fail: must_fail, broken: broken, where_: where_ };
    if by == 0 {
        judge(if plain { FlacReader::new(Rd) } else { FlacReader::new_ext(Rd, o) }, o, w)
    } else {
        judge(if plain { FlacReader::open("a.flac") } else { FlacReader::open_ext("a.flac", o) }, o, w)
    }
}
struct Wanted { must_fail: bool, broken: bool, where_: u64 }
fn judge<R: io::Read>(r: claxon::Result<FlacReader<R>>, o: FlacReaderOptions, w: Wanted) {
    let Wanted { must_fail, broken, where_ } = w;
    let mut r = match r {
        Ok(r) => {
            vx_check(!must_fail, "a stream with an invalid structure is rejected");
            r
        }
        Err(Error::FormatError(_)) => {
            vx_check(broken, "a stream with a valid structure is opened");
            return
        }
        Err(_) => { vx_fail("opening yields a reader or a format error"); return }
    };
    let i = r.streaminfo();
    vx_check(i.sample_rate == 44100 && i.channels == 2 && i.bits_per_sample == 16 && i.min_block_size == 4096, "the stream info is reported");
    if o.read_vorbis_comment && where_ != 0 {
        vx_check(same(r.vendor(), b(where_ + 8)), "with comments enabled they are reported");
        vx_check(r.tags().len() == 1, "with comments enabled they are reported");
        match r.tags().next() {
            Some((k, v)) => vx_check(k.as_bytes() == b"Ab" && same(Some(v), b(where_ + 20)), "with comments enabled they are reported"),
            None => vx_fail("with comments enabled they are reported"),
        }
        vx_check(same(r.get_tag("aB").next(), b(where_ + 20)), "with comments enabled they are reported");
        vx_check(r.get_tag("c").next().is_none(), "with comments enabled they are reported");
    } else {
        vx_check(r.vendor().is_none() && r.tags().next().is_none() && r.tags().len() == 0 && r.get_tag("Ab").next().is_none(), "without comments none are reported");
    }
    if !o.metadata_only {
        let mut bl = r.blocks();
        match bl.read_next_or_eof(Vec::new()) {
            Ok(Some(x)) => vx_check(x.time() == 5 && x.duration() == 2 && x.channels() == 1, "the reader is left at the first frame"),
            _ => vx_fail("the reader is left at the first frame"),
        }
        match bl.read_next_or_eof(Vec::new()) {
            Ok(None) => vx_check(true, "the reader is left at the first frame"),
            _ => vx_fail("the reader is left at the first frame"),
        }
    }
}
fn c14(lo: u64, hi: u64, kinds: u64, info_first: bool) {
    let o = pick("options", 0, 3);
    open(pick("blocks", lo, hi), kinds, info_first, o)
}
pub fn root_c14_first() { c14(1, 2, 8, false) }
pub fn root_c14_rest0() { c14(1, 3, 8, true) }
pub fn root_c14_rest1() { c14(4, 4, 5, true) }
pub fn root_c14_rest2() { c14(5, 5, 4, true) }
/// Any first four bytes.
pub fn root_c14_marker() {
    let m = [0x66, 0x4c, 0x61, 0x43];
    let mut good = true;
    let mut i = 0;
    while i < 4 {
        if !vx_part(b(i) == m[i as usize]) { good = false }
        i += 1;
    }
    let e = block(4, INFO, true);
    vx_set(END, e + 1);
    match FlacReader::new(Rd) {
        Ok(_) => vx_check(good, "a stream which does not start with the marker is rejected"),
        Err(Error::FormatError(_)) => vx_check(!good, "a stream which starts with the marker is opened"),
        Err(_) => vx_fail("opening yields a reader or a format error"),
    }
}

const REFUSED: &'static str = "a reader opened for metadata only refuses to deliver audio";
/// A reader for metadata only has nothing to do with audio, even if everything has been read.
pub fn root_c14_refuses() {
    let last = pick("last", 0, 1) == 1;
    let mut at = block(put(0, &[0x66, 0x4c, 0x61, 0x43]), INFO, last);
    if !last { at = block(at, if pick("kind", 0, 1) == 0 { COMMENT } else { PADDING }, true) }
    let f = Shape { chc: 0, bpc: 4, bs: 2, time: 5 };
    let e = f.frame(at);
    vx_set(END, e + 1);
    vx_config("sub_fill", true);
    let o = FlacReaderOptions { metadata_only: true, read_vorbis_comment: pick("comments", 0, 1) == 1 };
    let mut r = match FlacReader::new_ext(Rd, o) { Ok(r) => r, Err(_) => { vx_fail("a stream with a valid structure is opened"); return } };
    let how = pick("how", 0, 2);
    vx_panic_ok(true);
    match how {
        0 => { r.blocks(); }
        1 => { r.samples(); }
        _ => { r.into_samples(); }
    }
    vx_panic_ok(false);
    vx_fail(REFUSED)
}
