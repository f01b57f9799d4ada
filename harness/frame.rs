//! C03, C16, C23: frames whose subframes yield arbitrary samples.
use vx::*;
use src::*;
use sub::sext;
use claxon::{Block, Error};
use claxon::frame::FrameReader;
use claxon::input::{Bitstream, ReadBytes};

// ghost registers
const NSUB: u32 = 10;
/// Sample j of the i-th subframe decoded, of the given width: a function of stream 1.
pub fn coded(i: u64, j: u64, w: u32) -> i32 {
    sext(vx_bits(1, (i * 65536 + j) * 64, w), w) as i32
}
/// Stands for subframe::decode: any samples of the width asked for.
pub fn stub_subframe_fill<R: ReadBytes>(_input: &mut Bitstream<R>, bps: u32, buffer: &mut [i32]) -> Result<(), Error> {
    let n = vx_get(NSUB);
    let mut j = 0;
    while j < buffer.len() {
        buffer[j] = coded(n, j as u64, bps);
        j += 1;
    }
    vx_set(NSUB, n + 1);
    Ok(())
}
pub struct Shape { pub chc: u8, pub bpc: u8, pub bs: u64, pub time: u64 }
impl Shape {
    pub fn channels(&self) -> u64 { if self.chc < 8 { self.chc as u64 + 1 } else { 2 } }
    pub fn width(&self) -> u32 { match self.bpc { 1 => 8, 2 => 12, 4 => 16, 5 => 20, _ => 24 } }
    /// The bytes of the frame's header, with its CRC, are these.
    pub fn header(&self, at: u64) -> u64 {
        let h = [0xff, 0xf9, 0x69, self.chc << 4 | self.bpc << 1, self.time as u8, (self.bs - 1) as u8];
        let mut c = 0;
        let mut i = 0;
        while i < 6 {
            vx_assume(b(at + i) == h[i as usize]);
            c = crc8(c, h[i as usize]);
            i += 1;
        }
        vx_assume(b(at + 6) == c);
        at + 7
    }
    /// Header and footer are these, with no subframe data in between.
    pub fn frame(&self, at: u64) -> u64 {
        self.header(at);
        let mut c = 0;
        let mut i = 0;
        while i < 7 {
            c = crc16(c, b(at + i));
            i += 1;
        }
        vx_assume(b(at + 7) == (c >> 8) as u8);
        vx_assume(b(at + 8) == (c & 255) as u8);
        at + 9
    }
    /// The sample the block has at this place, if the subframes decoded from number `sub` on belong to it.
    pub fn sample(&self, sub: u64, ch: u64, j: u64) -> i32 {
        let w = self.width();
        let side = |i: u64| (i == 1 && (self.chc == 8 || self.chc == 10)) || (i == 0 && self.chc == 9);
        let x = |i: u64| coded(sub + i, j, if side(i) { w + 1 } else { w });
        match (self.chc, ch) {
            (8, 1) => x(0).wrapping_sub(x(1)),
            (9, 0) => x(1).wrapping_add(x(0)),
            (10, _) => {
                let s = x(1);
                let m = x(0).wrapping_mul(2).wrapping_add((s as u32 & 1) as i32);
                if ch == 0 { m.wrapping_add(s) >> 1 } else { m.wrapping_sub(s) >> 1 }
            }
            (_, i) => x(i),
        }
    }
}
pub fn shape(chlo: u64, chhi: u64, bslo: u64, bshi: u64) -> Shape {
    let chc = vx_split(vx_any_u64("channel code", chlo, chhi), chlo, chhi) as u8;
    let bpcs = [1, 2, 4, 5, 6];
    let bpc = bpcs[vx_split(vx_any_u64("width code", 0, 4), 0, 4) as usize];
    let bs = vx_split(vx_any_u64("block size", bslo, bshi), bslo, bshi);
    Shape { chc: chc, bpc: bpc, bs: bs, time: 0 }
}
fn decoded(r: Result<Option<Block>, Error>) -> Option<Block> {
    match r {
        Ok(Some(b)) => Some(b),
        _ => { vx_fail("a valid frame is decoded"); None }
    }
}

// ---- C16

fn c16(chlo: u64, chhi: u64) {
    c16_of(shape(chlo, chhi, 1, 3))
}
/// Long blocks: nothing special happens at some later place.
fn c16_long(chlo: u64, chhi: u64, bs: u64) {
    let chc = vx_split(vx_any_u64("channel code", chlo, chhi), chlo, chhi) as u8;
    c16_of(Shape { chc: chc, bpc: 4, bs: bs, time: 0 })
}
fn c16_of(s: Shape) {
    let e = s.frame(0);
    vx_config("sub_fill", true);
    let mut fr = FrameReader::new(Src);
    let bl = match decoded(fr.read_next_or_eof(Vec::new())) { Some(b) => b, None => return };
    let (n, bs) = (s.channels(), s.bs);
    vx_check(bl.channels() as u64 == n && bl.duration() as u64 == bs && bl.len() as u64 == n * bs, "channel count, duration and length agree");
    let mut ch = 0;
    while ch < n {
        let c = bl.channel(ch as u32);
        vx_check(c.len() as u64 == bs, "a channel has the block's duration");
        let mut j = 0;
        while j < bs {
            let want = s.sample(0, ch, j);
            vx_check(c[j as usize] == want, "channel() yields the sample the format defines");
            vx_check(bl.sample(ch as u32, j as u32) == want, "sample() yields the sample the format defines");
            j += 1;
        }
        ch += 1;
    }
    if n == 2 {
        let mut it = bl.stereo_samples();
        let mut j = 0;
        while j < bs {
            match it.next() {
                Some((l, r)) => vx_check(l == s.sample(0, 0, j) && r == s.sample(0, 1, j), "stereo_samples() yields the samples the format defines"),
                None => vx_fail("stereo_samples() yields every sample"),
            }
            j += 1;
        }
        vx_check(it.next().is_none(), "stereo_samples() ends after the block");
        vx_check(it.next().is_none(), "stereo_samples() stays at its end");
    }
    // what the block does not have is refused
    match if bs == 1 { vx_split(vx_any_u64("refused", 0, 3), 0, 3) } else { 0 } {
        0 => {}
        1 => if n != 2 {
            vx_panic_ok(true);
            bl.stereo_samples();
            vx_fail("stereo iteration over other than two channels panics");
            return
        },
        2 => {
            vx_panic_ok(true);
            bl.channel(n as u32);
            vx_fail("channel() panics for a channel the block does not have");
            return
        }
        _ => {
            vx_panic_ok(true);
            bl.sample(n as u32, 0);
            vx_fail("sample() panics for a channel the block does not have");
            return
        }
    }
    let v = bl.into_buffer();
    vx_check(v.len() as u64 == n * bs, "the raw buffer has every sample once");
    let mut i = 0;
    while i < n * bs {
        vx_check(v[i as usize] == s.sample(0, i / bs, i % bs), "the raw buffer has the channels one after the other");
        i += 1;
    }
    vx_check(pos() == e, "the frame is consumed exactly");
}
pub fn root_c16_mono() { c16(0, 0) }
pub fn root_c16_independent() { c16(1, 3) }
pub fn root_c16_many() { c16(4, 7) }
pub fn root_c16_left_side() { c16(8, 8) }
pub fn root_c16_right_side() { c16(9, 9) }
pub fn root_c16_mid_side() { c16(10, 10) }
pub fn root_c16_independent_long() { c16_long(0, 7, 20) }
pub fn root_c16_left_side_long() { c16_long(8, 8, 67) }
pub fn root_c16_right_side_long() { c16_long(9, 9, 67) }
pub fn root_c16_mid_side_long() { c16_long(10, 10, 67) }

// ---- C03, C23

/// A few layouts: channel code, block size.
fn layout(i: u64) -> Shape {
    let l = [(0, 1), (0, 3), (1, 2), (2, 1), (7, 2), (8, 1), (8, 2), (9, 2), (10, 1), (10, 3)];
    let i = vx_split(i, 0, 9) as usize;
    Shape { chc: l[i].0, bpc: 4, bs: l[i].1, time: 0 }
}
/// How long the recycled buffer is: at most its capacity.
fn recycled(lo: u64, len: u64) -> (u64, u64) {
    let cap = vx_any_u64("capacity", lo, 1 << 20);
    let l = vx_any_u64("length", 0, 1 << 20);
    vx_assume(l <= cap);
    let _ = vx_part(cap >= len);
    let _ = vx_part(l < len);
    let _ = vx_part(l > len);
    let _ = vx_part(l == 0);
    (l, cap)
}
fn same_samples(bl: &Block, s: &Shape, sub: u64, msg: &'static str) {
    let (n, bs) = (s.channels(), s.bs);
    vx_check(bl.channels() as u64 == n && bl.duration() as u64 == bs && bl.len() as u64 == n * bs, "the block has channels times block size samples");
    let mut i = 0;
    while i < n * bs {
        vx_check(bl.sample((i / bs) as u32, (i % bs) as u32) == s.sample(sub, i / bs, i % bs), msg);
        i += 1;
    }
}
/// Whatever buffer is passed in, the block is the frame's.
pub fn root_c03_samples() {
    let s = layout(vx_any_u64("layout", 0, 9));
    s.frame(0);
    let need = s.channels() * s.bs;
    let (l, cap) = recycled(0, need);
    vx_config("sub_fill", true);
    let v = vx_vec_i32(l as usize, cap as usize);
    let mut fr = FrameReader::new(Src);
    if let Some(bl) = decoded(fr.read_next_or_eof(v)) {
        same_samples(&bl, &s, 0, "a sample is the one decoded from the frame, whatever the recycled buffer was");
        let v = bl.into_buffer();
        vx_check(v.len() as u64 == need, "the raw buffer has exactly the block's samples");
        let mut i = 0;
        while i < need {
            vx_check(v[i as usize] == s.sample(0, i / s.bs, i % s.bs), "the raw buffer has exactly the block's samples");
            i += 1;
        }
    }
}
/// A frame after another one, with the buffer of the first.
pub fn root_c03_sequence() {
    let a = layout(vx_any_u64("first", 0, 9));
    let z = layout(vx_any_u64("second", 0, 9));
    let e = a.frame(0);
    z.frame(e);
    vx_config("sub_fill", true);
    let mut fr = FrameReader::new(Src);
    let bl = match decoded(fr.read_next_or_eof(Vec::new())) { Some(b) => b, None => return };
    same_samples(&bl, &a, 0, "the first block is the first frame's");
    if let Some(bl) = decoded(fr.read_next_or_eof(bl.into_buffer())) {
        same_samples(&bl, &z, a.channels(), "the block decoded into a recycled buffer is the second frame's");
        vx_check(bl.into_buffer().len() as u64 == z.channels() * z.bs, "the raw buffer has exactly the block's samples");
    }
}
pub fn root_c23_frame() {
    let s = layout(vx_any_u64("layout", 0, 9));
    s.frame(0);
    let need = s.channels() * s.bs;
    let (l, cap) = recycled(need, need);
    vx_config("sub_fill", true);
    let v = vx_vec_i32(l as usize, cap as usize);
    let at = v.as_ptr();
    let c = v.capacity();
    let before = vx_allocs();
    let mut fr = FrameReader::new(Src);
    let r = fr.read_next_or_eof(v);
    vx_check(vx_allocs() == before, "no heap allocation while decoding into a large enough buffer");
    if let Some(bl) = decoded(r) {
        let v = bl.into_buffer();
        vx_check(v.as_ptr() == at, "the block has the buffer passed in");
        vx_check(v.capacity() == c, "the buffer keeps its capacity");
        vx_check(vx_allocs() == before, "no heap allocation while returning the buffer");
    }
}

/// A frame without subframe data of any block size, up to eight independent channels.
fn any_size(nlo: u64, nhi: u64) -> (u64, u64) {
    let n = vx_split(vx_any_u64("channels", nlo, nhi), nlo, nhi);
    let h = [0xff, 0xf9, 0x79, ((n - 1) as u8) << 4 | 8, 0];
    let mut c8 = 0;
    let mut c16 = 0;
    let mut i = 0;
    while i < 8 {
        if i < 5 { vx_assume(b(i) == h[i as usize]) }
        if i == 7 { vx_assume(b(i) == c8) }
        c8 = crc8(c8, b(i));
        c16 = crc16(c16, b(i));
        i += 1;
    }
    vx_assume(b(8) == (c16 >> 8) as u8);
    vx_assume(b(9) == (c16 & 255) as u8);
    let bs = ((b(5) as u64) << 8 | b(6) as u64) + 1;
    vx_assume(bs <= 0xffff);
    (n, bs)
}
fn c03_size(nlo: u64, nhi: u64) {
    let (n, bs) = any_size(nlo, nhi);
    let (l, cap) = recycled(0, n * bs);
    vx_config("sub_record", true);
    let v = vx_vec_i32(l as usize, cap as usize);
    if let Some(bl) = decoded(FrameReader::new(Src).read_next_or_eof(v)) {
        vx_check(bl.channels() as u64 == n && bl.duration() as u64 == bs && bl.len() as u64 == n * bs, "the block has channels times block size samples");
        vx_check(bl.into_buffer().len() as u64 == n * bs, "the raw buffer has exactly the block's samples");
    }
}
pub fn root_c03_size0() { c03_size(1, 4) }
pub fn root_c03_size1() { c03_size(5, 8) }
fn c23_size(nlo: u64, nhi: u64) {
    let (n, bs) = any_size(nlo, nhi);
    let (l, cap) = recycled(1, n * bs);
    vx_assume(cap >= n * bs);
    vx_config("sub_record", true);
    let v = vx_vec_i32(l as usize, cap as usize);
    let at = v.as_ptr();
    let before = vx_allocs();
    let r = FrameReader::new(Src).read_next_or_eof(v);
    vx_check(vx_allocs() == before, "no heap allocation while decoding into a large enough buffer");
    if let Some(bl) = decoded(r) {
        let v = bl.into_buffer();
        vx_check(v.as_ptr() == at, "the block has the buffer passed in");
        vx_check(vx_allocs() == before, "no heap allocation while returning the buffer");
    }
}
pub fn root_c23_size0() { c23_size(1, 4) }
pub fn root_c23_size1() { c23_size(5, 8) }

// ---- C13

fn c13_size(nlo: u64, nhi: u64) {
    let (n, bs) = any_size(nlo, nhi);
    let (l, cap) = recycled(0, n * bs);
    vx_config("sub_record", true);
    let v = vx_vec_i32(l as usize, cap as usize);
    vx_alloc_limit(4 * n * bs);
    let before = vx_allocs();
    let r = FrameReader::new(Src).read_next_or_eof(v);
    vx_check(vx_allocs() <= before + 1, "at most one buffer is allocated per frame");
    vx_alloc_limit(0);
    if let Some(bl) = decoded(r) {
        let v = bl.into_buffer();
        vx_check(cap >= n * bs || v.capacity() as u64 == n * bs, "a new buffer holds exactly the samples of the block");
    }
}
pub fn root_c13_frame_size0() { c13_size(1, 4) }
pub fn root_c13_frame_size1() { c13_size(5, 8) }
