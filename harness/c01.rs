//! C01, C02: no panics, no undefined behaviour.
use vx::*;
use src::*;
use c14::*;
use std::io;
use claxon::{Block, Error, FlacReader, FlacReaderOptions};
use claxon::frame::FrameReader;
use claxon::input::{ReadBytes, BufferedReader, Bitstream};
use claxon::metadata::*;
use claxon::subframe::decode;

fn pick(l: &'static str, lo: u64, hi: u64) -> u64 { vx_split(vx_any_u64(l, lo, hi), lo, hi) }

const CALLS: u32 = 40;
/// A reader which says it read any number of bytes, looks at the buffer, and fails at times.
pub struct Liar;
impl io::Read for Liar {
    fn read(&mut self, d: &mut [u8]) -> io::Result<usize> {
        let p = vx_get(POS) / 8;
        let mut sum = 0u8;
        let mut i = 0;
        while i < d.len() {
            sum = sum.wrapping_add(d[i]);
            i += 1 + d.len() / 8;
        }
        let n = d.len() as u64;
        // it is honest after a while
        let c = vx_get(CALLS);
        vx_set(CALLS, c + 1);
        match if c < 3 { pick("what a reader says", 0, 5) } else { 1 } {
            0 => Ok(0),
            1 => { vx_fill(0, p, d); vx_set(POS, 8 * (p + n)); Ok(n as usize) }
            // one byte, five bytes, fewer than it says, more than fits
            2 => { d[0] = vx_byte(0, p); vx_set(POS, 8 * (p + 1)); Ok(1) }
            3 => { d[n as usize - 1] = sum; vx_set(POS, 8 * (p + 5)); Ok(if n < 5 { n as usize } else { 5 }) }
            4 => Ok([n + 1, n + 2, 2 * n, (1 << 32) + n, u64::max_value()][pick("claim", 0, 4) as usize] as usize),
            _ => Err(vx_io_err(1000, 1)),
        }
    }
}
fn length(longest: u64) -> u64 {
    let n = pick("length", 0, longest + 1);
    if n <= longest { n } else { 2048 - longest + pick("more", 0, longest) }
}
fn operation<R: ReadBytes>(r: &mut R, longest: u64) {
    match pick("operation", 0, 8) {
        0 => { let _ = r.read_u8(); }
        1 => { let _ = r.read_u8_or_eof(); }
        2 => { let _ = r.read_be_u16(); }
        3 => { let _ = r.read_be_u24(); }
        4 => { let _ = r.read_be_u32(); }
        5 => { let _ = r.read_be_u16_or_eof(); }
        6 => { let _ = r.read_le_u32(); }
        7 => { let mut b = vec![0; length(longest) as usize]; let _ = r.read_into(&mut b); }
        _ => { let _ = r.skip(length(longest) as u32); }
    }
}
fn reads(first: u64) {
    let mut r = BufferedReader::new(Liar);
    match first {
        0 => { let _ = r.read_u8(); }
        1 => { let _ = r.read_u8_or_eof(); }
        2 => { let mut b = [0; 3]; let _ = r.read_into(&mut b); }
        _ => { let _ = r.skip(7); }
    }
    operation(&mut r, 2);
    let _ = r.read_u8();
}
pub fn root_c01_reader0() { reads(0) }
pub fn root_c01_reader1() { reads(1) }
pub fn root_c01_reader2() { reads(2) }
pub fn root_c01_reader3() { reads(3) }

/// Memory handed to a caller's reader is initialised.
struct Nosy;
impl ReadBytes for Nosy {
    fn read_u8(&mut self) -> io::Result<u8> { Src.read_u8() }
    fn read_u8_or_eof(&mut self) -> io::Result<Option<u8>> { Src.read_u8_or_eof() }
    fn read_into(&mut self, d: &mut [u8]) -> io::Result<()> {
        let mut sum = 0u8;
        let mut i = 0;
        while i < d.len() {
            sum = sum.wrapping_add(d[i]);
            i += 1;
        }
        match pick("what is filled", 0, 2) {
            0 => { vx_set(POS, 8 * (pos() + d.len() as u64)); Ok(()) }
            1 => { if d.len() > 0 { d[0] = b(pos()) } vx_set(POS, 8 * (pos() + d.len() as u64)); Err(vx_io_err(1000, 1)) }
            _ => Src.read_into(d),
        }
    }
    fn skip(&mut self, n: u32) -> io::Result<()> { Src.skip(n) }
}
/// Blocks whose contents are read into buffers.
fn nosy(ty: u8) {
    vx_config("utf8", true);
    let len = pick("length", 4, 20);
    if ty == 4 {
        if len < 8 { return }
        let n = pick("vendor", 0, len - 8);
        put(0, &[n as u8, 0, 0, 0]);
        let mut at = put(4 + n, &[1, 0, 0, 0]);
        if len - at >= 4 {
            let n = pick("comment", 0, len - at - 4);
            put(at, &[n as u8, 0, 0, 0]);
        }
        let mut i = 0;
        while i < len { vx_assume(b(i) < 0x80); i += 1 }
    }
    match read_metadata_block(&mut Nosy, ty, len as u32) {
        Ok(MetadataBlock::Application { data, .. }) => { let mut s = 0u8; for x in data { s = s.wrapping_add(x) } vx_check(s >= 0, "") }
        Ok(MetadataBlock::VorbisComment(v)) => {
            let mut s = 0u8;
            for x in v.vendor.as_bytes() { s = s.wrapping_add(*x) }
            for &(ref c, _) in &v.comments { for x in c.as_bytes() { s = s.wrapping_add(*x) } }
            vx_check(s >= 0, "");
        }
        Ok(MetadataBlock::StreamInfo(i)) => vx_check(i.md5sum[15] >= 0, ""),
        _ => {}
    }
}
pub fn root_c02_nosy_application() { nosy(2) }
pub fn root_c02_nosy_comment() { nosy(4) }
pub fn root_c02_nosy_info() {
    match read_metadata_block(&mut Nosy, 0, 34) {
        Ok(MetadataBlock::StreamInfo(i)) => vx_check(i.md5sum[15] >= 0, ""),
        _ => {}
    }
}
/// Opening a stream through a reader which lies.
pub fn root_c01_open() {
    let a = opened();
    let mut i = a;
    while i < a + 40 { vx_assume(b(i) == 0xff); i += 1 }
    vx_set(CALLS, 1);
    let _ = FlacReader::new(Liar);
}

// ---- subframes

/// Stands for subframe::decode: any samples whatever, or an error.
pub fn stub_subframe_any<R: ReadBytes>(_input: &mut Bitstream<R>, _bps: u32, buffer: &mut [i32]) -> Result<(), Error> {
    vx_havoc_i32(buffer, -0x8000_0000, 0x7fff_ffff);
    Ok(())
}
fn bits(p: u64, n: u32) -> u64 { vx_bits(0, p, n) }
/// A subframe with this type code, of this width and size, with anything in it; residuals have one of these parameters.
fn any(code: u64, bps: u32, n: usize, warm: u64, at: u64, params: &[u64]) {
    vx_assume(bits(0, 1) == 0);
    vx_assume(bits(1, 6) == code);
    let mut p = at;
    if params.len() > 0 { vx_assume(bits(7, 1) == 0) } else if vx_split(bits(7, 1), 0, 1) == 1 {
        // wasted bits: as many as the samples have, and more
        let q = vx_unary(0, 8) as u64;
        let e = [0, 1, bps as u64 - 2, bps as u64 - 1, bps as u64, 31, 32, 33][pick("wasted", 0, 7) as usize];
        vx_assume(q == e);
        p += q + 1;
    }
    if params.len() > 0 {
        let m = pick("method", 0, 1);
        vx_assume(bits(p, 2) == m);
        let po = [0, 1, 15][pick("partition order", 0, 2) as usize];
        vx_assume(bits(p + 2, 4) == po);
        let k = bits(p + 6, if m == 0 { 4 } else { 5 });
        let mut i = 0;
        while i < params.len() && !vx_part(k == params[i]) { i += 1 }
        if i == params.len() { return }
        if po > 0 && po <= 2 && n % (1 << po) == 0 {
            // one more partition of samples after this one: only the first has samples here
            if (n >> po) as u64 > warm { return }
        }
    }
    run(bps, n)
}
fn run(bps: u32, n: usize) {
    vx_config("bits", true);
    vx_set(POS, 0);
    let mut buf = [0i32; 80];
    vx_havoc_i32(&mut buf, -0x8000_0000, 0x7fff_ffff);
    let mut bs = Bitstream::new(Src);
    let _ = decode(&mut bs, bps, &mut buf[..n]);
}
fn width() -> u32 { [8, 9, 12, 16, 17, 20, 21, 24, 25][pick("width", 0, 8) as usize] }
pub fn root_c01_constant() { any(pick("type", 0, 1), width(), pick("n", 1, 3) as usize, 0, 8, &[]) }
/// Any residual: zero, small, large and escape parameters, quotients of any size.
const K: [u64; 5] = [0, 14, 15, 30, 31];
pub fn root_c01_fixed() {
    let order = pick("order", 0, 4);
    let bps = [8, 25][pick("width", 0, 1) as usize];
    let n = order + pick("n", 0, 3);
    if n > 1 { any(8 + order, bps, n as usize - 1, order, 8 + order * bps as u64, &K) }
}
pub fn root_c01_lpc() {
    let order = [1, 2, 12, 13, 32][pick("order", 0, 4) as usize];
    let bps = 25;
    let n = [order - 1, order, order + 2][pick("n", 0, 2) as usize];
    if n == 0 { return }
    let p = 8 + order * bps as u64;
    vx_assume(bits(7, 1) == 0);
    let prec = [0, 14, 15][pick("precision", 0, 2) as usize];
    vx_assume(bits(p, 4) == prec);
    let s = bits(p + 4, 5);
    if vx_part(s < 16) { vx_assume(s == 15 * pick("shift", 0, 1)) }
    let at = p + 9 + order * (prec + 1);
    if n <= order { return any(31 + order, bps, n as usize, order, at, &[0]) }
    any(31 + order, bps, n as usize, order, at, &[30])
}
/// Samples, coefficients and residuals as large as they can be written down.
fn extreme(code: u64, order: u64, lpc: bool) {
    let bps = [8, 25][pick("width", 0, 1) as usize] as u64;
    let k = [30, 14, 9, 8, 0][pick("parameter", 0, 4) as usize];
    let v = (1u64 << 32) - 2 + pick("residual", 0, 2);
    if k == 0 && v >> 32 > 0 { return }
    let w = pick("warm-up", 0, 3);
    let c = if lpc { pick("coefficients", 0, 3) } else { 0 };
    vx_assume(bits(0, 1) == 0);
    vx_assume(bits(1, 6) == code);
    vx_assume(bits(7, 1) == 0);
    let top = 1u64 << (bps - 1);
    let mut p = 8;
    let mut j = 0;
    while j < order {
        vx_assume(bits(p, bps as u32) == match w { 0 => top - 1, 1 => top, _ => top - (w + j) % 2 });
        p += bps;
        j += 1;
    }
    if lpc {
        vx_assume(bits(p, 4) == 14);
        vx_assume(bits(p + 4, 5) == 0);
        p += 9;
        let top = 1u64 << 14;
        j = 0;
        while j < order {
            vx_assume(bits(p, 15) == match c { 0 => top - 1, 1 => top, _ => top - (c + j) % 2 });
            p += 15;
            j += 1;
        }
    }
    let m = if k > 14 { 1 } else { 0 };
    vx_assume(bits(p, 2) == m);
    vx_assume(bits(p + 2, 4) == 0);
    p += 6;
    vx_assume(bits(p, 4 + m as u32) == k);
    p += 4 + m;
    j = 0;
    while j < 2 {
        let q = (v - j) >> k;
        vx_assume(vx_unary(0, p) as u64 == q);
        p += q + 1;
        if k > 0 { vx_assume(bits(p, k as u32) == (v - j) & ((1 << k) - 1)); }
        p += k;
        j += 1;
    }
    run(bps as u32, order as usize + 2)
}
pub fn root_c01_extreme_fixed() { let o = pick("order", 0, 4); extreme(8 + o, o, false) }
pub fn root_c01_extreme_lpc() { let o = [1, 11, 12, 13, 32][pick("order", 0, 4) as usize]; extreme(31 + o, o, true) }
/// Stereo transformations of any samples.
pub fn root_c01_stereo() {
    let chc = pick("channels", 0, 10);
    let bs = pick("block size", 1, 3);
    let s = ::frame::Shape { chc: chc as u8, bpc: [1, 4, 6][pick("width", 0, 2) as usize], bs: bs, time: pick("time", 0, 1) as u64 };
    s.frame(0);
    vx_config("sub_any", true);
    if let Ok(Some(bl)) = FrameReader::new(Src).read_next_or_eof(Vec::new()) {
        let n = bl.channels();
        let mut ch = 0;
        while ch < n {
            vx_check(bl.channel(ch).len() == bl.duration() as usize, "");
            vx_check(bl.sample(ch, bl.duration() - 1) as i64 >= -0x8000_0000, "");
            ch += 1;
        }
        if n == 2 { let mut k = 0; for (l, r) in bl.stereo_samples() { k += 1 } }
        vx_check(bl.len() == n * bl.duration() && bl.time() <= u64::max_value(), "");
        bl.into_buffer();
    }
}
/// Unchecked access to both channels of a block which may not have two.
pub fn root_c02_pairs() {
    let s = ::frame::Shape { chc: pick("channels", 0, 10) as u8, bpc: 4, bs: pick("block size", 1, 4), time: 0 };
    s.frame(0);
    vx_config("sub_any", true);
    let keep = if pick("buffer", 0, 1) == 0 { Vec::new() } else { vx_vec_i32(pick("length", 0, 3) as usize * 4, 64) };
    if let Ok(Some(bl)) = FrameReader::new(Src).read_next_or_eof(keep) {
        vx_panic_ok(true);
        let mut k = 0;
        for (l, r) in bl.stereo_samples() {
            vx_check(l as i64 + r as i64 >= -0x1_0000_0000, "");
            k += 1;
        }
        let mut it = bl.stereo_samples();
        it.next();
        while k > 0 { it.next(); k -= 1 }
        it.next();
        it.next();
    }
    let e = Block::empty();
    for (l, r) in e.stereo_samples() { vx_check(l as i64 + r as i64 >= -0x1_0000_0000, ""); }
}
/// Stands for str::from_utf8_unchecked.
pub fn stub_from_utf8_unchecked(v: &[u8]) -> &str {
    valid(v);
    unsafe { ::std::mem::transmute(v) }
}
pub fn stub_string_unchecked(v: Vec<u8>) -> String {
    valid(&v);
    unsafe { ::std::mem::transmute(v) }
}
fn valid(v: &[u8]) {
    let mut s = 0;
    let mut i = 0;
    while i < v.len() && s < 8 {
        s = ::c11::step(s, v[i], false);
        i += 1;
    }
    if s != 0 { unsafe { ::std::hint::unreachable_unchecked() } }
}
/// Text which is not checked is valid.
pub fn root_c02_text() {
    let l = pick("length", 8, 14);
    ::c11::spec(0, l, 0);
    vx_config("utf8", true);
    vx_config("utf8u", true);
    let _ = read_metadata_block(&mut Src, 4, l as u32);
}
/// Iterators which have ended or failed are asked again, and asked how much is left.
pub fn root_c01_iterators() {
    let a = opened();
    let f = ::frame::Shape { chc: 1, bpc: 4, bs: 2, time: 0 };
    let at = f.frame(a);
    let end = match pick("end", 0, 4) { 0 => a, 1 => a + 1, 2 => at - 1, 3 => at, _ => at + 2 };
    vx_set(END, end + 1);
    vx_set(KIND, pick("kind of end", 0, 1));
    vx_config("sub_any", true);
    let mut r = match FlacReader::new(Rd) { Ok(r) => r, Err(_) => return };
    let after = pick("block before", 0, 2);
    if after == 1 { let _ = r.blocks().read_next_or_eof(Vec::new()); }
    if after == 2 { let _ = r.samples().next(); }
    if pick("kind", 0, 1) == 0 {
        let mut it = r.samples();
        let mut i = 0;
        while i < 8 { it.size_hint(); it.next(); i += 1 }
    } else {
        let mut it = r.into_samples();
        let mut i = 0;
        while i < 8 { it.size_hint(); it.next(); i += 1 }
    }
}
pub fn root_c01_empty() {
    let bl = Block::empty();
    vx_check(bl.len() == 0 && bl.duration() == 0 && bl.time() == 0, "");
    bl.channels();
    bl.into_buffer();
}
