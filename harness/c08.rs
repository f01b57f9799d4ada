//! C08: truncation and errors of the underlying reader.
use vx::*;
use src::*;
use c14::*;
use std::io;
use claxon::{Block, Error, FlacReader, FlacReaderOptions};
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, Bitstream};
use claxon::metadata::*;

fn pick(l: &'static str, lo: u64, hi: u64) -> u64 { vx_split(vx_any_u64(l, lo, hi), lo, hi) }

/// The error is the underlying reader's, and it has been left alone since.
fn underlying(e: Error) {
    match e {
        Error::IoError(e) => {
            if vx_get(KIND) == 0 { vx_check(e.kind() == io::ErrorKind::UnexpectedEof, "running out of data is reported as such") }
            else { vx_check(vx_err_tag(&e) == vx_get(KIND), "the error of the underlying reader is reported") }
        }
        _ => vx_fail("a stream which ends or fails early is reported as an I/O error"),
    }
    vx_check(vx_get(AFTER) == 0, "nothing more is read after the stream ended or failed");
}
/// The stream ends or fails after so many bytes.
fn ends(n: u64) {
    vx_set(END, n + 1);
    vx_set(KIND, pick("kind of end", 0, 1));
    vx_set(CHUNK, pick("chunks", 0, 1));
}

// ---- frames

/// Bits put into the stream one after the other.
struct Put { p: u64, x: u64, n: u64 }
impl Put {
    fn bits(&mut self, v: u64, n: u64) {
        let mut i = n;
        while i > 0 {
            i -= 1;
            self.x = self.x << 1 | (v >> i & 1);
            self.n += 1;
            if self.n == 8 {
                vx_assume(b(self.p) == self.x as u8);
                self.p += 1;
                self.x = 0;
                self.n = 0;
            }
        }
    }
    fn align(&mut self) { while self.n != 0 { self.bits(0, 1) } }
    fn rice(&mut self, k: u64, v: u64) {
        self.bits(1, (v >> k) + 1);
        self.bits(v, k);
    }
    fn residual(&mut self, form: u64, order: u64, bs: u64) {
        match form {
            // one partition with each kind of code
            0 | 1 => {
                let (w, k) = if form == 0 { (4, 3) } else { (5, 17) };
                self.bits(form, 2);
                self.bits(0, 4);
                self.bits(k, w);
                let mut i = order;
                while i < bs { self.rice(k, 9 * i); i += 1 }
            }
            2 => {
                self.bits(0, 6);
                self.bits(0, 4);
                let mut i = order;
                while i < bs { self.rice(0, 5 * i); i += 1 }
            }
            // two partitions
            _ => {
                self.bits(0, 2);
                self.bits(1, 4);
                self.bits(1, 4);
                let mut i = order;
                while i < bs / 2 { self.rice(1, 23); i += 1 }
                self.bits(9, 4);
                while i < bs { self.rice(9, 700 * i); i += 1 }
            }
        }
    }
    /// A subframe of a width.
    fn sub(&mut self, kind: u64, w: u64, bs: u64) {
        match kind {
            0 => { self.bits(0, 8); self.bits(37, w) }
            1 => {
                self.bits(2, 8);
                let mut i = 0;
                while i < bs { self.bits(5 * i + 1, w); i += 1 }
            }
            // one wasted bit
            2 => {
                self.bits(3, 8);
                self.bits(1, 1);
                let mut i = 0;
                while i < bs { self.bits(3 * i, w - 1); i += 1 }
            }
            3 | 4 => {
                let o = kind - 2;
                self.bits(8 + o, 7);
                self.bits(0, 1);
                self.bits(11, w);
                if o == 2 { self.bits(13, w) }
                self.residual(if kind == 3 { 0 } else { 2 }, o, bs);
            }
            5 => {
                self.bits(8, 7);
                self.bits(0, 1);
                self.residual(1, 0, bs);
            }
            // linear prediction of order two
            6 => {
                self.bits(33, 7);
                self.bits(0, 1);
                self.bits(1, w);
                self.bits(2, w);
                self.bits(4, 4);
                self.bits(3, 5);
                self.bits(7, 5);
                self.bits(30, 5);
                self.residual(0, 2, bs);
            }
            _ => {
                self.bits(8, 7);
                self.bits(0, 1);
                self.residual(3, 0, bs);
            }
        }
    }
}
/// A frame of four samples of eight bits, with these subframes; where its header ends and it.
fn frame(at: u64, number: u64, chc: u64, kinds: &[u64]) -> (u64, u64) {
    framed(at, number, (6, 12), chc, kinds)
}
/// With these codes for block size and sample rate.
fn framed(at: u64, number: u64, codes: (u64, u64), chc: u64, kinds: &[u64]) -> (u64, u64) {
    let mut w = Put { p: at, x: 0, n: 0 };
    w.bits(0xfff9, 16);
    w.bits(codes.0 << 4 | codes.1, 8);
    w.bits(chc << 4 | 2, 8);
    if number < 128 { w.bits(number, 8) }
    else if number < 2048 { w.bits(0xc0 | number >> 6, 8); w.bits(0x80 | number & 63, 8) }
    else {
        w.bits(0xfe, 8);
        let mut i = 36;
        while i > 0 { i -= 6; w.bits(0x80 | number >> i & 63, 8) }
    }
    w.bits(3, if codes.0 == 6 { 8 } else { 16 });
    match codes.1 { 12 => w.bits(44, 8), 13 | 14 => w.bits(44100, 16), _ => {} }
    let mut c = 0;
    let mut i = at;
    while i < w.p { c = crc8(c, b(i)); i += 1 }
    w.bits(c as u64, 8);
    let head = w.p;
    let mut i = 0;
    while i < kinds.len() {
        let side = chc == 8 && i == 1;
        w.sub(kinds[i], if side { 9 } else { 8 }, 4);
        i += 1;
    }
    w.align();
    let mut c = 0;
    let mut i = at;
    while i < w.p { c = crc16(c, b(i)); i += 1 }
    w.bits(c as u64, 16);
    (head, w.p)
}
fn truncated(r: Result<Option<Block>, Error>, end: u64, at: u64, e: u64) -> Option<Block> {
    if end == at && vx_get(KIND) == 0 {
        match r {
            Ok(None) => vx_check(vx_get(AFTER) == 0, "nothing more is read after the stream ended or failed"),
            _ => vx_fail("a stream which ends at a frame boundary ends cleanly"),
        }
        return None
    }
    if end < e {
        match r {
            Ok(Some(_)) => vx_fail("an incomplete frame is not returned"),
            Ok(None) => vx_fail("a clean end is reported only at a frame boundary"),
            Err(x) => underlying(x),
        }
        return None
    }
    match r {
        Ok(Some(x)) => Some(x),
        _ => { vx_fail("a complete frame is returned"); None }
    }
}
/// One frame.
fn single(chc: u64, kinds: &[u64]) {
    let (_, e) = frame(0, pick("number", 100, 101) * 2 - 80, chc, kinds);
    let end = pick("bytes before the end", 0, e);
    ends(end);
    let mut r = FrameReader::new(BufferedReader::new(Rd));
    if let Some(x) = truncated(r.read_next_or_eof(Vec::new()), end, 0, e) {
        vx_check(x.duration() == 4, "a complete frame is returned");
        // and then the end
        truncated(r.read_next_or_eof(Vec::new()), end, end, e + 1);
    }
}
pub fn root_c08_constant() { single(0, &[0]) }
pub fn root_c08_verbatim() { single(0, &[pick("wasted", 1, 2)]) }
pub fn root_c08_fixed1() { single(0, &[3]) }
pub fn root_c08_fixed2() { single(0, &[4]) }
pub fn root_c08_rice2() { single(0, &[5]) }
pub fn root_c08_lpc() { single(0, &[6]) }
pub fn root_c08_partitions() { single(0, &[7]) }
pub fn root_c08_stereo() { single(1, &[1, 0]) }
pub fn root_c08_side() { single(8, &[4, 1]) }
/// All forms of header.
pub fn root_c08_header() {
    let number = [1, 1000, 0x9_8765_4321][pick("number", 0, 2) as usize];
    let codes = [(6, 0), (6, 12), (7, 12), (7, 13), (6, 14), (7, 14), (7, 9)][pick("codes", 0, 6) as usize];
    let (_, e) = framed(0, number, codes, 0, &[0]);
    let end = pick("bytes before the end", 0, e);
    ends(end);
    let mut r = FrameReader::new(BufferedReader::new(Rd));
    truncated(r.read_next_or_eof(Vec::new()), end, 0, e);
}
/// A source without buffer.
pub fn root_c08_unbuffered() {
    let (_, e) = frame(0, 1, 0, &[pick("subframe", 0, 7)]);
    let end = pick("bytes before the end", 0, e);
    ends(end);
    let mut r = FrameReader::new(Src);
    truncated(r.read_next_or_eof(Vec::new()), end, 0, e);
}

// ---- whole streams

/// Two frames after the metadata, by block.
pub fn root_c08_blocks() {
    let a = opened();
    let (_, m) = frame(a, 0, 0, &[1]);
    let (_, e) = frame(m, 1, 1, &[0, 1]);
    let end = pick("bytes before the end", a, e);
    ends(end);
    let mut f = match FlacReader::new(Rd) { Ok(f) => f, Err(_) => { vx_fail("complete metadata is accepted"); return } };
    let mut r = f.blocks();
    let x = match truncated(r.read_next_or_eof(Vec::new()), end, a, m) { Some(x) => x, None => return };
    let x = match truncated(r.read_next_or_eof(x.into_buffer()), end, m, e) { Some(x) => x, None => return };
    truncated(r.read_next_or_eof(x.into_buffer()), end, e, e + 1);
}
/// By sample.
fn by_sample<I: Iterator<Item = Result<i32, Error>>>(mut it: I, end: u64, a: u64, m: u64, e: u64) {
    let n = if end >= e { 12 } else if end >= m { 4 } else { 0 };
    let mut i = 0;
    while i < n {
        match it.next() {
            Some(Ok(_)) => vx_check(true, "complete frames are returned"),
            _ => vx_fail("complete frames are returned"),
        }
        i += 1;
    }
    let clean = (end == a || end == m || end == e) && vx_get(KIND) == 0;
    match it.next() {
        None => vx_check(clean, "a clean end is reported only at a frame boundary"),
        Some(Ok(_)) => vx_fail("an incomplete frame is not returned"),
        Some(Err(x)) => {
            vx_check(!clean, "a stream which ends at a frame boundary ends cleanly");
            if !clean { underlying(x) }
        }
    }
}
pub fn root_c08_samples() {
    let a = opened();
    let (_, m) = frame(a, 0, 0, &[1]);
    let (_, e) = frame(m, 1, 1, &[0, 1]);
    let end = pick("bytes before the end", a, e);
    ends(end);
    let mut f = match FlacReader::new(Rd) { Ok(f) => f, Err(_) => { vx_fail("complete metadata is accepted"); return } };
    by_sample(f.samples(), end, a, m, e)
}
pub fn root_c08_into_samples() {
    let a = opened();
    let (_, m) = frame(a, 0, 0, &[1]);
    let (_, e) = frame(m, 1, 1, &[0, 1]);
    let end = pick("bytes before the end", a, e);
    ends(end);
    let f = match FlacReader::new(Rd) { Ok(f) => f, Err(_) => { vx_fail("complete metadata is accepted"); return } };
    by_sample(f.into_samples(), end, a, m, e)
}

// ---- metadata

/// Stream info, then up to two more blocks.
fn metadata(first: u64) {
    let o = pick("options", 0, 3);
    let o = FlacReaderOptions { metadata_only: o & 1 != 0, read_vorbis_comment: o & 2 != 0 };
    let n = pick("more blocks", 0, 2);
    let mut at = put(0, &[0x66, 0x4c, 0x61, 0x43]);
    at = block(at, INFO, n == 0);
    let mut k = first;
    let mut i = 0;
    // metadata-only readers may stop before the rest
    let mut needed = 0;
    let mut comment = false;
    if o.metadata_only && !o.read_vorbis_comment { needed = at }
    while i < n {
        if i > 0 { k = pick("block", 0, 4) }
        let kind = [PADDING, COMMENT, RESERVED, OTHER, TABLE][k as usize];
        if comment && kind == COMMENT { return }
        at = block(at, kind, i + 1 == n);
        if kind == COMMENT {
            comment = true;
            if o.metadata_only && needed == 0 { needed = at }
        }
        i += 1;
    }
    if needed == 0 { needed = at }
    let end = pick("bytes before the end", 0, at);
    ends(end);
    match FlacReader::new_ext(Rd, o) {
        Ok(_) => vx_check(end >= needed, "incomplete metadata is reported"),
        Err(x) => {
            vx_check(end < at, "complete metadata is accepted");
            underlying(x)
        }
    }
}
pub fn root_c08_open_padding() { metadata(0) }
pub fn root_c08_open_comment() { metadata(1) }
pub fn root_c08_open_reserved() { metadata(2) }
pub fn root_c08_open_other() { metadata(3) }
pub fn root_c08_open_table() { metadata(4) }

fn one_block(kind: u64) -> (u64, u64) {
    let e = block(0, kind, pick("last", 0, 1) == 1);
    let end = pick("bytes before the end", 0, e);
    ends(end);
    (end, e)
}
/// Single blocks, read directly.
pub fn root_c08_block() {
    let (end, e) = one_block([INFO, PADDING, COMMENT, RESERVED, OTHER, TABLE][pick("block", 0, 5) as usize]);
    match read_metadata_block_with_header(&mut BufferedReader::new(Rd)) {
        Ok(_) => vx_check(end == e, "incomplete metadata is reported"),
        Err(x) => {
            vx_check(end < e, "complete metadata is accepted");
            if end < e { underlying(x) }
        }
    }
}
pub fn root_c08_block_iterated() {
    let (end, e) = one_block([INFO, PADDING, COMMENT, RESERVED, OTHER, TABLE][pick("block", 0, 5) as usize]);
    let mut it = MetadataBlockReader::new(BufferedReader::new(Rd));
    match it.next() {
        None => vx_fail("incomplete metadata is reported"),
        Some(Ok(_)) => vx_check(end == e, "incomplete metadata is reported"),
        Some(Err(x)) => {
            vx_check(end < e, "complete metadata is accepted");
            if end < e { underlying(x) }
        }
    }
}
/// Blocks of all types with any contents.
pub fn root_c08_types() {
    let t = [1, 2, 5, 6, 7, 64, 126][pick("type", 0, 6) as usize];
    let e = put(0, &[t, 0, 0, 9]) + 9;
    let end = pick("bytes before the end", 0, e);
    ends(end);
    match read_metadata_block_with_header(&mut BufferedReader::new(Rd)) {
        Ok(_) => vx_check(end == e, "incomplete metadata is reported"),
        Err(x) => {
            vx_check(end < e, "complete metadata is accepted");
            if end < e { underlying(x) }
        }
    }
}

// ---- bits

/// Every reading function at every place in a byte, on streams of up to five bytes.
fn in_bits(f: u64) {
    let off = pick("bits read before", 0, 7);
    let (lo, hi) = [(1, 1), (0, 8), (9, 16), (0, 16), (0, 32), (0, 39)][f as usize];
    let n = pick("bits", lo, hi);
    if off + n > 40 { return }
    let whole = (off + n + 7) / 8;
    let end = pick("bytes before the end", if off > 0 { 1 } else { 0 }, 5);
    if end > whole { return }
    vx_set(END, end + 1);
    vx_set(KIND, pick("kind of end", 0, 1));
    if f == 5 {
        // zeros, then a one
        let mut i = off;
        while i < off + n { vx_assume(b(i / 8) >> (7 - i % 8) & 1 == if i + 1 == off + n { 1 } else { 0 }); i += 1 }
    }
    if f == 5 && n == 0 { return }
    let mut bs = Bitstream::new(BufferedReader::new(Rd));
    match bs.read_leq_u8(off as u32) { Ok(_) => {} Err(_) => { vx_fail("reading what is there does not fail"); return } }
    let r = match f {
        0 => bs.read_bit().map(|_| ()),
        1 => bs.read_leq_u8(n as u32).map(|_| ()),
        2 => bs.read_gt_u8_leq_u16(n as u32).map(|_| ()),
        3 => bs.read_leq_u16(n as u32).map(|_| ()),
        4 => bs.read_leq_u32(n as u32).map(|_| ()),
        _ => bs.read_unary().map(|_| ()),
    };
    match r {
        Ok(()) => vx_check(off + n <= 8 * end, "bits after the end of the stream are not made up"),
        Err(e) => {
            vx_check(off + n > 8 * end, "reading what is there does not fail");
            underlying(Error::IoError(e))
        }
    }
}
pub fn root_c08_bits_short() { in_bits(pick("function", 0, 2)) }
pub fn root_c08_bits_long() { in_bits(pick("function", 3, 4)) }
pub fn root_c08_bits_unary() { in_bits(5) }
