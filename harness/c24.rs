//! C24: kinds of errors.
use vx::*;
use src::*;
use sub;
use sub::{Spec, Exp, typ, rice1};
use c05;
use c11;
use c14::*;
use meta;
use claxon::{Block, Error, FlacReader, FlacReaderOptions};
use claxon::frame::FrameReader;
use claxon::input::Bitstream;
use claxon::metadata::*;
use claxon::subframe::decode;

fn pick(l: &'static str, lo: u64, hi: u64) -> u64 { vx_split(vx_any_u64(l, lo, hi), lo, hi) }

fn malformed<T>(r: Result<T, Error>) {
    match r {
        Ok(_) => vx_fail("what is malformed fails"),
        Err(Error::FormatError(_)) => vx_check(true, "what is malformed fails with a format error"),
        Err(Error::Unsupported(_)) => vx_fail("what is malformed fails with a format error, not as unsupported"),
        Err(Error::IoError(_)) => vx_fail("what is malformed fails with a format error, not an I/O error"),
    }
}
fn unsupported<T>(r: Result<T, Error>) {
    match r {
        Ok(_) => vx_fail("what is not implemented fails"),
        Err(Error::Unsupported(_)) => vx_check(true, "what is not implemented fails as unsupported"),
        Err(Error::FormatError(_)) => vx_fail("what is not implemented fails as unsupported, not with a format error"),
        Err(Error::IoError(_)) => vx_fail("what is not implemented fails as unsupported, not with an I/O error"),
    }
}
fn expect<T>(r: Result<T, Error>, e: Exp) {
    match e {
        Exp::Format => malformed(r),
        Exp::Unsupported => unsupported(r),
        Exp::Ok => match r {
            Err(Error::IoError(_)) => vx_fail("an I/O error is reported only if there was one"),
            _ => {}
        },
    }
}

// ---- frame headers

fn frame() -> Result<Option<Block>, Error> {
    vx_config("sub_record", true);
    FrameReader::new(Src).read_next_or_eof(Vec::new())
}
pub fn root_c24_sync() {
    if vx_part(b(0) == 0xff) && vx_part(b(1) & 0xfe == 0xf8) { return }
    malformed(frame())
}
/// The header's checksum is right.
fn summed(h: &c05::Hdr) -> u16 {
    let mut c8 = 0;
    let mut c16 = 0;
    let mut i = 0;
    while i < h.end {
        c8 = crc8(c8, b(i));
        c16 = crc16(c16, b(i));
        i += 1;
    }
    vx_assume(c8 == b(h.end));
    crc16(c16, b(h.end))
}
/// A header's kind; if it is valid, apart from its checksums.
fn header() {
    match c05::header_after_sync() {
        None => malformed(frame()),
        Some(h) => {
            if b(3) >> 1 & 7 != 0 { return }
            summed(&h);
            unsupported(frame())
        }
    }
}
/// Every block size and sample rate code.
pub fn root_c24_rates() {
    c05::sync();
    vx_split(b(2) as u64, 0, 255);
    vx_assume(b(3) == 0x18 || b(3) == 0x10);
    vx_split(b(3) as u64, 0x10, 0x18);
    vx_assume(b(4) < 0x80);
    header()
}
/// Every channel assignment, width and reserved bit.
pub fn root_c24_widths() {
    c05::sync();
    vx_assume(b(2) == 0x69);
    vx_split(b(3) as u64, 0, 255);
    vx_assume(b(4) < 0x80);
    header()
}
/// Every coded number.
fn number(f: u64) {
    c05::sync();
    vx_assume(b(1) & 1 == f as u8);
    vx_assume(b(2) == 0x19 || b(2) == 0x7c);
    vx_split(b(2) as u64, 0x19, 0x7c);
    vx_assume(b(3) == 0x10 || b(3) == 0x18);
    vx_split(b(3) as u64, 0x10, 0x18);
    let mut i = 0;
    let lim = [0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff];
    while i < 8 {
        if vx_part(b(4) < lim[i]) { break }
        i += 1;
    }
    header()
}
pub fn root_c24_number_fixed() { number(0) }
pub fn root_c24_number_variable() { number(1) }
/// Checksums which differ, in frames of up to eight channels.
pub fn root_c24_checksums() {
    c05::sync();
    vx_assume(b(2) == 0x19);
    vx_assume(b(3) >> 4 < 8 && b(3) & 15 == 8);
    vx_split((b(3) >> 4) as u64, 0, 7);
    vx_assume(b(4) < 0x80);
    let mut c8 = 0;
    let mut c16 = 0;
    let mut i = 0;
    while i < 5 {
        c8 = crc8(c8, b(i));
        c16 = crc16(c16, b(i));
        i += 1;
    }
    if !vx_part(c8 == b(5)) {
        malformed(frame());
        return
    }
    c16 = crc16(c16, b(5));
    let stored = (b(6) as u16) << 8 | b(7) as u16;
    if !vx_part(c16 == stored) { malformed(frame()) }
}

// ---- subframes

fn sub(s: &Spec, e: Exp, bps: u32) {
    vx_config("bits", true);
    vx_set(POS, 0);
    vx_set(PURE, 1);
    let mut buf = [0i32; 80];
    let mut bs = Bitstream::new(Src);
    expect(decode(&mut bs, bps, &mut buf[..s.n]), e)
}
pub fn root_c24_codes() {
    let mut s = Spec::new(1);
    let pad = s.bits(1);
    let code = vx_split(s.bits(6), 0, 63);
    let reserved = (code >= 2 && code < 8) || (code > 12 && code < 32);
    if vx_part(pad == 1) || reserved { sub(&s, Exp::Format, 16) }
}
pub fn root_c24_wasted() {
    let bps = pick("bps", 8, 25) as u32;
    let mut s = Spec::new(1);
    typ(&mut s, pick("type", 0, 1));
    if s.wasted(40) >= bps { sub(&s, Exp::Format, bps) }
}
pub fn root_c24_orders() {
    let fixed = pick("fixed", 0, 1) == 1;
    let order = pick("order", 2, if fixed { 4 } else { 32 });
    let n = pick("n", 1, order - 1);
    let mut s = Spec::new(n as usize);
    typ(&mut s, if fixed { 8 + order } else { 31 + order });
    vx_assume(s.bits(1) == 0);
    sub(&s, Exp::Format, 16);
}
pub fn root_c24_predictors() {
    let order = pick("order", 1, 32);
    let n = order as usize + 1;
    let mut s = Spec::new(n);
    typ(&mut s, 31 + order);
    vx_assume(s.bits(1) == 0);
    s.verbatim(0, order as usize, 16);
    let prec = vx_split(s.bits(4), 0, 15);
    if prec == 15 { sub(&s, Exp::Format, 16); return }
    if vx_part(s.bits(5) >= 16) { sub(&s, Exp::Unsupported, 16) }
}
fn residual(n: u64, order: u64, method: u64, po: u64, params: &[u64]) {
    let mut s = Spec::new(n as usize);
    typ(&mut s, 8 + order);
    vx_assume(s.bits(1) == 0);
    s.verbatim(0, order as usize, 9);
    if method < 4 { vx_assume(vx_bits(0, s.p, 2) == method) }
    if po < 16 { vx_assume(vx_bits(0, s.p + 2, 4) == po) }
    let e = s.residual(order as usize, params);
    if e != Exp::Ok { sub(&s, e, 9) }
}
pub fn root_c24_partitions() {
    let n = [1, 2, 3, 4, 6, 8, 16, 30][pick("n", 0, 7) as usize];
    let order = pick("order", 0, 4);
    if n >= order { residual(n, order, 4, 16, &[6]) }
}
/// An escape code in any of four partitions.
pub fn root_c24_escapes() {
    let method = pick("method", 0, 1);
    residual(8, pick("order", 0, 2), method, 2, &[if method == 0 { 15 } else { 31 }, 3])
}

// ---- metadata

pub fn root_c24_info() {
    if meta::info_ok(0) { return }
    malformed(read_metadata_block(&mut Src, 0, 34))
}
pub fn root_c24_types() {
    let ty = pick("type", 0, 127) as u8;
    let len = vx_any_u64("length", 0, (1 << 24) - 1);
    let e = match ty {
        0 => if vx_part(len != 34) { Exp::Format } else { return },
        2 => if vx_part(len < 4) { Exp::Format } else if vx_part(len > 10 << 20) { Exp::Unsupported } else { return },
        4 => if vx_part(len < 8) { Exp::Format } else if vx_part(len > 10 << 20) { Exp::Unsupported } else { return },
        127 => Exp::Format,
        _ => Exp::Ok,
    };
    if vx_part(vx_any_u64("with header", 0, 1) == 1) {
        vx_assume(b(0) & 127 == ty);
        vx_assume((b(1) as u64) << 16 | (b(2) as u64) << 8 | b(3) as u64 == len);
        if vx_part(vx_any_u64("iterated", 0, 1) == 1) {
            match MetadataBlockReader::new(Src).next() {
                Some(r) => expect(r, e),
                None => vx_fail("there is a block"),
            }
        } else { expect(read_metadata_block_with_header(&mut Src), e) }
    } else { expect(read_metadata_block(&mut Src, ty, len as u32), e) }
}
fn comments(lo: u64, hi: u64, ascii: u32) {
    vx_config("utf8", true);
    let len = pick("length", lo, hi);
    if c11::spec(0, len, ascii).is_none() { malformed(read_metadata_block(&mut Src, 4, len as u32)) }
}
pub fn root_c24_comments() { comments(8, 13, 0) }
pub fn root_c24_comments_text() { comments(14, 14, 1) }
pub fn root_c24_comments_ascii() { comments(15, 19, 3) }

// ---- streams

/// What does not start with the marker, ID3 tags among it.
pub fn root_c24_marker() {
    let m = [0x66, 0x4c, 0x61, 0x43];
    let id3 = vx_part(b(0) == b'I' && b(1) == b'D' && b(2) == b'3');
    let mut good = true;
    let mut i = 0;
    while i < 4 {
        if !vx_part(b(i) == m[i as usize]) { good = false }
        i += 1;
    }
    if !good { malformed(FlacReader::new(Rd)) }
}
/// Blocks missing, repeated or forbidden.
pub fn root_c24_structure() {
    let o = FlacReaderOptions { metadata_only: false, read_vorbis_comment: pick("comments", 0, 1) == 1 };
    let n = pick("blocks", 1, 3);
    let mut at = put(0, &[0x66, 0x4c, 0x61, 0x43]);
    let (mut infos, mut comments, mut broken) = (0, 0, false);
    let mut i = 0;
    while i < n {
        let k = pick("kind of block", 0, 5);
        if k == COMMENT || k == BAD_COMMENT { comments += 1 }
        if k == INFO { infos += 1 }
        if i == 0 && k != INFO || k == BAD_COMMENT || k == FORBIDDEN { broken = true }
        at = block(at, k, i + 1 == n);
        i += 1;
    }
    if broken || infos > 1 || comments > 1 { malformed(FlacReader::new_ext(Rd, o)) }
}
/// A frame leaving its width to the stream info, or with a wrong checksum, as seen by the iterators.
pub fn root_c24_iterated() {
    let a = opened();
    let e = pick("kind", 0, 1);
    let h = [0xff, 0xf9, 0x69, if e == 0 { 0 } else { 8 }, 0, 7];
    let mut c = 0;
    let mut i = 0;
    while i < 6 {
        vx_assume(b(a + i) == h[i as usize]);
        c = crc8(c, h[i as usize]);
        i += 1;
    }
    let e = if e == 0 { vx_assume(b(a + 6) == c); Exp::Unsupported } else { vx_assume(b(a + 6) == c ^ 0x41); Exp::Format };
    let mut f = match FlacReader::new(Rd) { Ok(f) => f, Err(_) => { vx_fail("a valid stream is opened"); return } };
    match pick("iterator", 0, 2) {
        0 => expect(f.blocks().read_next_or_eof(Vec::new()), e),
        1 => match f.samples().next() { Some(r) => expect(r, e), None => vx_fail("a frame is not the end") },
        _ => match f.into_samples().next() { Some(r) => expect(r, e), None => vx_fail("a frame is not the end") },
    }
}
