//! C27: opening by path, and taking readers back.
use vx::*;
use src::*;
use std::fs::{File, OpenOptions};
use std::io;
use std::mem;
use std::path::Path;
use claxon::{Error, FlacReader, FlacReaderOptions};
use claxon::frame::FrameReader;
use claxon::input::{BufferedReader, ReadBytes};

/// Files opened, and whether opening fails.
pub const OPENED: u32 = 20;
pub const DENIED: u32 = 22;

fn pick(l: &'static str, lo: u64, hi: u64) -> u64 { vx_split(vx_any_u64(l, lo, hi), lo, hi) }

// ---- a file system with one file, whose contents are stream 0

fn open_file(p: &Path) -> io::Result<File> {
    vx_check(p.as_os_str().as_encoded_bytes() == b"a.flac", "the file opened is the one asked for");
    vx_set(OPENED, vx_get(OPENED) + 1);
    if vx_get(DENIED) != 0 { return Err(vx_io_err(1000, 77)) }
    let fd: i32 = 5;
    Ok(unsafe { mem::transmute(fd) })
}
pub fn stub_file_open<P: AsRef<Path>>(p: P) -> io::Result<File> { open_file(p.as_ref()) }
pub fn stub_options_open<P: AsRef<Path>>(_o: &OpenOptions, p: P) -> io::Result<File> { open_file(p.as_ref()) }
pub fn stub_file_read(_f: &mut File, d: &mut [u8]) -> io::Result<usize> {
    use std::io::Read;
    Rd.read(d)
}

fn c27(n: u64, kinds: u64, info_first: bool) {
    vx_config("file", true);
    vx_set(CHUNK, pick("chunks", 0, 1));
    ::c14::opened_by(n, kinds, info_first, pick("options", 0, 3), 1);
    vx_check(vx_get(OPENED) == 1, "the file is opened once");
}
pub fn root_c27_open1() { c27(1, 8, false) }
pub fn root_c27_open2() { c27(2, 8, true) }
pub fn root_c27_open3() { c27(3, 6, true) }
/// Opening the file fails.
pub fn root_c27_denied() {
    vx_config("file", true);
    vx_set(DENIED, 1);
    let o = pick("options", 0, 4);
    let x = FlacReaderOptions { metadata_only: o & 1 != 0, read_vorbis_comment: o & 2 != 0 };
    let r = if o == 4 { FlacReader::open("a.flac") } else { FlacReader::open_ext("a.flac", x) };
    match r {
        Err(Error::IoError(e)) => vx_check(vx_err_tag(&e) == 77, "failing to open the file is reported as that I/O error"),
        _ => vx_fail("failing to open the file is reported as that I/O error"),
    }
    vx_check(vx_get(OPENED) == 1, "the file is opened once");
}

/// Through the file and directly, nothing is told apart.
fn alike(n: u64, kinds: u64, info_first: bool) {
    use c14::*;
    vx_config("file", true);
    let mut at = put(0, &[0x66, 0x4c, 0x61, 0x43]);
    let mut i = 0;
    while i < n {
        let k = if i == 0 && info_first { INFO } else { pick("kind of block", 0, kinds - 1) };
        at = block(at, k, i + 1 == n);
        i += 1;
    }
    // cut short, or not
    let cut = pick("cut", 0, 1);
    vx_set(END, at - cut + 1);
    vx_set(CHUNK, 1);
    let o = pick("options", 0, 4);
    let x = FlacReaderOptions { metadata_only: o & 1 != 0, read_vorbis_comment: o & 2 != 0 };
    let (p, end) = {
        let r = if o == 4 { FlacReader::open("a.flac") } else { FlacReader::open_ext("a.flac", x) };
        let p = pos();
        vx_set(POS, 0);
        vx_set(FAILED, 0);
        vx_set(SAWEND, 0);
        (p, r.map(|r| (r.tags().len(), r.vendor().is_some())))
    };
    let r = if o == 4 { FlacReader::new(Rd) } else { FlacReader::new_ext(Rd, x) };
    vx_check(p == pos(), "open reads as much of the file as new reads of its contents");
    let same = match (end, r.map(|r| (r.tags().len(), r.vendor().is_some()))) {
        (Ok(a), Ok(b)) => a == b,
        (Err(Error::IoError(_)), Err(Error::IoError(_))) => true,
        (Err(Error::FormatError(a)), Err(Error::FormatError(b))) => a == b,
        (Err(Error::Unsupported(a)), Err(Error::Unsupported(b))) => a == b,
        _ => false,
    };
    vx_check(same, "the outcome of open is the one of new on the file's contents");
}
pub fn root_c27_alike1() { alike(1, 8, false) }
pub fn root_c27_alike2() { alike(2, 8, true) }
pub fn root_c27_alike3() { alike(3, 7, true) }

// ---- readers taken back

/// A reader which is told from another one.
struct Named { number: u64 }
impl io::Read for Named {
    fn read(&mut self, d: &mut [u8]) -> io::Result<usize> { Rd.read(d) }
}
const MINE: &'static str = "into_inner returns the reader passed in";
pub fn root_c27_back() {
    let x = vx_any_u64("reader", 0, !0);
    let end = opened();
    vx_set(END, end + 1);
    match pick("reader", 0, 5) {
        0 => vx_check(BufferedReader::new(Named { number: x }).into_inner().number == x, MINE),
        1 => {
            let mut r = BufferedReader::new(Named { number: x });
            let _ = r.read_u8();
            let _ = r.skip(5);
            vx_check(r.into_inner().number == x, MINE)
        }
        2 => {
            let mut r = FrameReader::new(BufferedReader::new(Named { number: x }));
            if vx_part(vx_any_u64("used", 0, 1) == 0) { let _ = r.read_next_or_eof(Vec::new()); }
            vx_check(r.into_inner().into_inner().number == x, MINE)
        }
        k => {
            let o = FlacReaderOptions { metadata_only: k == 4, read_vorbis_comment: k == 5 };
            match FlacReader::new_ext(Named { number: x }, o) {
                Ok(mut r) => {
                    if k == 5 { let _ = r.blocks().read_next_or_eof(Vec::new()); }
                    vx_check(r.into_inner().number == x, MINE)
                }
                Err(_) => vx_fail("a valid stream is opened"),
            }
        }
    }
}
