//! C11: Vorbis comments.
use vx::*;
use src::*;
use std::str;
use std::borrow::Cow;
use claxon::Error;
use claxon::metadata::*;

fn le32(at: u64) -> u64 {
    b(at) as u64 | (b(at + 1) as u64) << 8 | (b(at + 2) as u64) << 16 | (b(at + 3) as u64) << 24
}
/// What a block contains: its entries' places, lengths and separators.
/// Stands for String::from_utf8_lossy; what it makes of invalid text is not of interest.
pub fn stub_from_utf8_lossy(v: &[u8]) -> Cow<str> {
    match stub_from_utf8(v) { Ok(s) => Cow::Borrowed(s), Err(_) => Cow::Owned(String::new()) }
}
pub struct Spec { pub vendor: (u64, u64), pub entries: Vec<(u64, u64, u64)> }
fn within(x: u8, lo: u8, hi: u8, part: bool) -> bool {
    if part { vx_part(x >= lo && x <= hi) } else { x >= lo && x <= hi }
}
/// The well-formed sequences of the Unicode standard (table 3-7), as an automaton; 8 rejects.
pub fn step(s: u64, x: u8, part: bool) -> u64 {
    match s {
        0 => if within(x, 0, 0x7f, part) { 0 }
            else if within(x, 0xc2, 0xdf, part) { 1 }
            else if within(x, 0xe0, 0xe0, part) { 4 }
            else if within(x, 0xed, 0xed, part) { 5 }
            else if within(x, 0xe1, 0xef, part) { 2 }
            else if within(x, 0xf0, 0xf0, part) { 6 }
            else if within(x, 0xf1, 0xf3, part) { 3 }
            else if within(x, 0xf4, 0xf4, part) { 7 }
            else { 8 },
        1 => if within(x, 0x80, 0xbf, part) { 0 } else { 8 },
        2 => if within(x, 0x80, 0xbf, part) { 1 } else { 8 },
        3 => if within(x, 0x80, 0xbf, part) { 2 } else { 8 },
        4 => if within(x, 0xa0, 0xbf, part) { 1 } else { 8 },
        5 => if within(x, 0x80, 0x9f, part) { 1 } else { 8 },
        6 => if within(x, 0x90, 0xbf, part) { 2 } else { 8 },
        _ => if within(x, 0x80, 0x8f, part) { 2 } else { 8 },
    }
}
fn assume_ascii(at: u64, n: u64) {
    let mut i = 0;
    while i < n {
        vx_assume(b(at + i) < 0x80);
        i += 1;
    }
}
fn utf8(at: u64, n: u64) -> bool {
    let mut s = 0;
    let mut i = 0;
    while i < n && s < 8 {
        s = step(s, b(at + i), true);
        i += 1;
    }
    s == 0
}
/// Stands for str::from_utf8.
pub fn stub_from_utf8(v: &[u8]) -> Result<&str, str::Utf8Error> {
    let mut s = 0;
    let mut i = 0;
    while i < v.len() && s < 8 {
        s = step(s, v[i], false);
        i += 1;
    }
    if s == 0 { return Ok(unsafe { str::from_utf8_unchecked(v) }) }
    vx_config("utf8", false);
    let e = str::from_utf8(&[0xff]).err();
    vx_config("utf8", true);
    match e { Some(e) => Err(e), None => { vx_unknown("UTF-8"); loop {} } }
}
/// The content of a block of this length at this place per the specification, or nothing if it is to be rejected.
/// The lengths are those the caller has chosen.
/// Which texts are assumed to be ASCII: 1 the vendor string, 2 the comments.
pub fn spec(at: u64, len: u64, ascii: u32) -> Option<Spec> {
    let end = at + len;
    if len < 8 { return None }
    let n = le32(at);
    if vx_part(n > len + 8) { return None }
    let n = vx_split(n, 0, len + 8);
    if n > len - 8 { return None }
    let mut s = Spec { vendor: (at + 4, n), entries: Vec::new() };
    if ascii & 1 != 0 { assume_ascii(at + 4, n) }
    let good = utf8(at + 4, n);
    let count = le32(at + 4 + n);
    let mut p = at + 8 + n;
    // even empty entries take four bytes
    let many = vx_part(count > (end - p) / 4);
    let count = if many { count } else { vx_split(count, 0, (end - p) / 4) };
    let mut k = 0;
    // if there are too many, the rest matters only in that it does not make up for it
    while many || k < count {
        if end - p < 4 { return None }
        let n = le32(p);
        p += 4;
        if vx_part(n > end - p + 8) { return None }
        let n = vx_split(n, 0, end - p + 8);
        if n > end - p { return None }
        if n > 0 {
            if ascii & 2 != 0 { assume_ascii(p, n) }
            let mut sep = 0;
            while sep < n && vx_part(b(p + sep) != b'=') {
                if vx_part(b(p + sep) < 0x20 || b(p + sep) > 0x7d) { return None }
                sep += 1;
            }
            if sep == n || !utf8(p, n) { return None }
            s.entries.push((p, n, sep));
            p += n;
        }
        k += 1;
    }
    if p != end || !good { return None }
    Some(s)
}
pub fn equal(x: &str, at: u64, n: u64, m: &'static str) {
    let x = x.as_bytes();
    vx_check(x.len() as u64 == n, m);
    let mut i = 0;
    while i < n {
        vx_check(x[i as usize] == b(at + i), m);
        i += 1;
    }
}
pub fn matches(v: &VorbisComment, s: &Spec) {
    equal(&v.vendor, s.vendor.0, s.vendor.1, "the vendor string is reported");
    vx_check(v.comments.len() == s.entries.len(), "exactly the non-empty comments are reported");
    let mut i = 0;
    while i < s.entries.len() {
        let (at, n, sep) = s.entries[i];
        equal(&v.comments[i].0, at, n, "the comments are reported in order");
        vx_check(v.comments[i].1 as u64 == sep, "a comment is split at its first '='");
        i += 1;
    }
    let mut it = Tags::new(&v.comments);
    let mut i = 0;
    while i < s.entries.len() {
        let (at, n, sep) = s.entries[i];
        match it.next() {
            Some((k, x)) => {
                equal(k, at, sep, "a tag's name is what precedes the first '='");
                equal(x, at + sep + 1, n - sep - 1, "a tag's value is what follows the first '='");
            }
            None => vx_fail("every comment is a tag"),
        }
        i += 1;
    }
}
fn block(len: u64, ascii: u32) {
    vx_config("utf8", true);
    let s = spec(0, len, ascii);
    match (read_metadata_block(&mut Src, 4, len as u32), s) {
        (Ok(MetadataBlock::VorbisComment(v)), Some(s)) => {
            matches(&v, &s);
            vx_check(pos() == len, "the block's length is consumed");
        }
        (Err(Error::FormatError(_)), None) => vx_check(true, "an invalid block is rejected"),
        (Ok(_), None) => vx_fail("an invalid block is rejected"),
        _ => vx_fail("a valid block is accepted"),
    }
}
fn upto(lo: u64, hi: u64, ascii: u32) { block(vx_split(vx_any_u64("length", lo, hi), lo, hi), ascii) }
pub fn root_c11_any0() { upto(0, 12, 0) }
pub fn root_c11_any1() { upto(13, 13, 0) }
pub fn root_c11_comment0() { upto(14, 15, 1) }
pub fn root_c11_comment1() { upto(16, 16, 1) }
pub fn root_c11_vendor() { upto(14, 14, 2) }
pub fn root_c11_ascii0() { upto(15, 18, 3) }
pub fn root_c11_ascii1() { upto(19, 20, 3) }
pub fn root_c11_ascii2() { upto(21, 21, 3) }
pub fn root_c11_ascii3() { upto(22, 22, 3) }
pub fn root_c11_ascii4() { upto(23, 23, 3) }
pub fn root_c11_ascii5() { upto(24, 24, 3) }
fn put32(at: u64, x: u64) {
    let mut i = 0;
    while i < 4 {
        vx_assume(b(at + i) as u64 == (x >> (8 * i)) & 255);
        i += 1;
    }
}
/// Long texts, many comments: lengths as given, the separator of each comment where chosen.
fn long(vendor: u64, lens: &[u64], seps: &[u64]) {
    put32(0, vendor);
    put32(4 + vendor, lens.len() as u64);
    let mut p = 8 + vendor;
    let mut i = 0;
    while i < lens.len() {
        put32(p, lens[i]);
        p += 4;
        let mut k = 0;
        while k < lens[i] {
            // no separator before this place
            if k < seps[i] { vx_assume(b(p + k) != b'=' && b(p + k) >= 0x20 && b(p + k) <= 0x7d) }
            if k == seps[i] { vx_assume(b(p + k) == b'=') }
            k += 1;
        }
        p += lens[i];
        i += 1;
    }
    block(p, 3)
}
pub fn root_c11_long0() {
    let sep = vx_split(vx_any_u64("separator", 0, 40), 0, 40);
    long(300, &[40], &[sep])
}
pub fn root_c11_long1() {
    let sep = vx_split(vx_any_u64("separator", 0, 9), 0, 9);
    long(3, &[5, 9, 0, 2, 0, 0, 14, 1, 1, 3, 2, 2, 3, 20, 3, 260], &[2, sep, 0, 0, 0, 0, 1, 0, 0, 2, 1, 1, 1, 12, 2, 255])
}
