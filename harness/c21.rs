//! C21: every operation ends.
use vx::*;
use src::*;
use c14::*;
use std::io;
use claxon::{FlacReader, FlacReaderOptions};
use claxon::frame::FrameReader;
use claxon::input::{ReadBytes, BufferedReader};
use claxon::metadata::*;

fn pick(l: &'static str, lo: u64, hi: u64) -> u64 { vx_split(vx_any_u64(l, lo, hi), lo, hi) }
fn ends(n: u64) {
    vx_set(END, n + 1);
    vx_set(KIND, pick("kind of end", 0, 1));
    vx_set(CHUNK, pick("chunks", 0, 1));
}
/// Operations of any length on a short stream.
fn operation<R: ReadBytes>(r: &mut R) {
    match pick("operation", 0, 8) {
        0 => { let _ = r.read_u8(); }
        1 => { let _ = r.read_u8_or_eof(); }
        2 => { let _ = r.read_be_u16(); }
        3 => { let _ = r.read_be_u24(); }
        4 => { let _ = r.read_be_u32(); }
        5 => { let _ = r.read_be_u16_or_eof(); }
        6 => { let _ = r.read_le_u32(); }
        7 => { let mut b = [0; 12]; let n = pick("length", 0, 12) as usize; let _ = r.read_into(&mut b[..n]); }
        _ => {
            let n = [0, 1, 2, 3, 5, 8, 2048, 5000, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff][pick("skip", 0, 10) as usize];
            let _ = r.skip(n);
        }
    }
}
pub fn root_c21_reader() {
    ends(pick("length of the stream", 0, 6));
    let mut r = BufferedReader::new(Rd);
    operation(&mut r);
    operation(&mut r);
}
pub fn root_c21_cursor() {
    let mut v: Vec<u8> = Vec::new();
    let n = pick("length of the stream", 0, 3);
    let mut i = 0;
    while i < n { v.push(b(i)); i += 1 }
    let mut r = io::Cursor::new(v);
    r.set_position([0, 1, 3, 7, u64::max_value() - 2, u64::max_value()][pick("position", 0, 5) as usize]);
    operation(&mut r);
    operation(&mut r);
}
/// Iterators come to an end.
pub fn root_c21_blocks() {
    let n = pick("blocks", 1, 2);
    let mut at = 0;
    let mut i = 0;
    while i < n {
        at = block(at, pick("block", 0, 7), i + 1 == n && pick("last", 0, 1) == 1);
        i += 1;
    }
    let end = pick("bytes before the end", 0, at);
    if end < at && end > 5 && end % 3 != 0 { return }
    ends(end);
    let mut it = MetadataBlockReader::new(BufferedReader::new(Rd));
    let mut k = 0;
    while let Some(_) = it.next() {
        k += 1;
        vx_check(k <= n + 1, "it ends: an iterator over metadata blocks");
        it.size_hint();
    }
}
pub fn root_c21_samples() {
    let a = opened();
    let f = ::frame::Shape { chc: [0, 1][pick("channels", 0, 1) as usize], bpc: 4, bs: pick("block size", 1, 2), time: 0 };
    let at = f.frame(a);
    let end = pick("end", a, at);
    ends(end);
    vx_config("sub_any", true);
    let mut r = match FlacReader::new(Rd) { Ok(r) => r, Err(_) => return };
    let mut k = 0;
    if pick("kind", 0, 1) == 0 {
        for _ in r.samples() { k += 1; vx_check(k <= 5, "it ends: an iterator over samples") }
    } else {
        for _ in r.into_samples() { k += 1; vx_check(k <= 5, "it ends: an iterator over samples") }
    }
}
pub fn root_c21_tags() {
    let mut at = put(0, &[0x66, 0x4c, 0x61, 0x43]);
    at = block(at, INFO, false);
    block(at, COMMENT, true);
    if let Ok(r) = FlacReader::new(Rd) {
        let mut k = 0;
        for _ in r.tags() { k += 1; vx_check(k <= 1, "it ends: an iterator over tags") }
        k = 0;
        for _ in r.get_tag(["AB", "ab", "", "Abc"][pick("name", 0, 3) as usize]) { k += 1; vx_check(k <= 1, "it ends: an iterator over values") }
    }
}
pub fn root_c21_pairs() {
    let s = ::frame::Shape { chc: pick("channels", 1, 10) as u8, bpc: 4, bs: pick("block size", 1, 4), time: 0 };
    s.frame(0);
    vx_config("sub_any", true);
    if let Ok(Some(bl)) = FrameReader::new(Src).read_next_or_eof(Vec::new()) {
        if bl.channels() != 2 { return }
        let mut k = 0;
        for _ in bl.stereo_samples() { k += 1; vx_check(k <= 4, "it ends: an iterator over pairs") }
    }
}
/// Long operations on a stream which does not end.
pub fn root_c21_long() {
    let mut r = BufferedReader::new(Rd);
    let n = [255, 256, 257, 2047, 2048, 2049, 4096, 65535, 65536, 65537, 131072][pick("length", 0, 10) as usize];
    if pick("before", 0, 1) == 1 { let _ = r.read_u8(); }
    if pick("operation", 0, 1) == 0 { let _ = r.skip(n); }
    else { let mut b = vec![0; n as usize]; let _ = r.read_into(&mut b); }
    let _ = r.read_u8();
}
