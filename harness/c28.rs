//! C28: errors keep what they report.
use vx::*;
use src::*;
use std::error;
use std::fmt;
use std::io;
use claxon::Error;

fn pick(l: &'static str, lo: u64, hi: u64) -> u64 { vx_split(vx_any_u64(l, lo, hi), lo, hi) }

fn reason(k: u64) -> &'static str {
    match k { 0 => "frame CRC mismatch", 1 => "frame crc mismatch", 2 => "frame CRC mismatch!", 3 => "invalid residual", _ => "" }
}
fn make(kind: u64, r: u64) -> Error {
    match kind {
        0 => Error::FormatError(reason(r)),
        1 => Error::Unsupported(reason(r)),
        _ => Error::IoError(vx_io_err(r, 5 + r)),
    }
}
/// Two errors are the same if they are of the same kind and for the same reason.
pub fn root_c28_equal() {
    let (k, m) = (pick("kind", 0, 2), pick("kind", 0, 2));
    let (r, s) = (pick("reason", 0, 4), pick("reason", 0, 4));
    let (x, y) = (make(k, r), make(m, s));
    vx_check((x == y) == (k == m && r == s && k != 2), "errors are equal if kind and reason are, and I/O errors never are");
    vx_check((x != y) != (x == y), "errors are different if they are not equal");
}
/// Conversions keep the error.
pub fn root_c28_convert() {
    let k = vx_any_u64("kind", 0, 40);
    let e: Error = Error::from(vx_io_err(k, 9));
    match e {
        Error::IoError(ref e) => vx_check(vx_err_tag(e) == 9 && vx_err_kind(e) == k, "an I/O error is kept as it is"),
        _ => vx_fail("an I/O error is kept as it is"),
    }
    let mut v = Vec::new();
    v.push(0x80);
    match String::from_utf8(v) {
        Err(e) => match Error::from(e) {
            Error::FormatError(_) => {}
            _ => vx_fail("text which is not UTF-8 is a format error"),
        },
        Ok(_) => {}
    }
}
/// The cause of an I/O error is the error of the reader; others have none.
pub fn root_c28_cause() {
    let k = pick("kind", 0, 2);
    let r = pick("reason", 0, 4);
    let e = make(k, r);
    match error::Error::cause(&e) {
        Some(c) => {
            vx_check(k == 2, "only I/O errors have a cause");
            if let Error::IoError(ref i) = e {
                vx_check(c as *const error::Error as *const io::Error == i as *const io::Error, "the cause of an I/O error is the reader's error");
            }
        }
        None => vx_check(k != 2, "the cause of an I/O error is the reader's error"),
    }
    if k == 0 { vx_check(error::Error::description(&e) == reason(r), "a format error is described by its reason") }
}
/// What has been written: its length, and its bytes.
const WRITTEN: u32 = 30;
const TEXT: u32 = 100;
pub fn stub_write_str(_f: &mut fmt::Formatter, x: &str) -> fmt::Result {
    for c in x.as_bytes() {
        let n = vx_get(WRITTEN);
        vx_set(TEXT + n as u32, *c as u64);
        vx_set(WRITTEN, n + 1);
    }
    Ok(())
}
struct Nowhere;
impl fmt::Write for Nowhere {
    fn write_str(&mut self, _x: &str) -> fmt::Result { Ok(()) }
}
pub fn root_c28_shown() {
    vx_config("fmt", true);
    vx_config("case", true);
    let k = pick("kind", 0, 1);
    let s = reason(pick("reason", 0, 4));
    let e = if k == 0 { Error::FormatError(s) } else { Error::Unsupported(s) };
    let mut t = Nowhere;
    let mut f = fmt::Formatter::new(&mut t, fmt::FormattingOptions::new());
    vx_check(fmt::Display::fmt(&e, &mut f).is_ok(), "an error can be shown");
    let n = vx_get(WRITTEN);
    let m = s.len() as u64;
    vx_check(n >= m, "an error is shown with its reason");
    let mut i = 0;
    while i < m {
        vx_check(n >= m && vx_get(TEXT + (n - m + i) as u32) == s.as_bytes()[i as usize] as u64, "an error is shown with its reason");
        i += 1;
    }
}
