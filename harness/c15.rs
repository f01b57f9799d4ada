//! C15: sample iteration.
use vx::*;
use src::*;
use frame::{Shape, coded};
use claxon::{FlacReader, Error, Result};

fn layout(i: u64) -> Shape {
    let l = [(0, 1), (0, 2), (1, 1), (1, 3), (2, 2), (8, 2), (10, 1)];
    let i = vx_split(i, 0, 6) as usize;
    Shape { chc: l[i].0, bpc: 4, bs: l[i].1, time: 0 }
}
/// The samples of a block, interleaved.
fn block<I: Iterator<Item = Result<i32>>>(it: &mut I, s: &Shape, sub: u64) {
    let mut j = 0;
    while j < s.bs {
        let mut ch = 0;
        while ch < s.channels() {
            match it.next() {
                Some(Ok(x)) => vx_check(x == s.sample(sub, ch, j), "every sample of every block is yielded once, interleaved"),
                Some(Err(_)) => { vx_fail("no error is yielded for a valid frame"); return }
                None => { vx_fail("iteration does not end before the stream does"); return }
            }
            ch += 1;
        }
        j += 1;
    }
}
fn over<I: Iterator<Item = Result<i32>>>(it: &mut I) {
    vx_check(it.next().is_none(), "iteration ends for good");
    vx_check(it.next().is_none(), "iteration ends for good");
}
/// Two blocks, then what `tail` says: 0 end of stream, 1 a broken frame, 2 a truncated one, 3 an I/O error.
fn stream(a: &Shape, z: &Shape, tail: u64) {
    let at = opened();
    let at = a.frame(at);
    let at = z.frame(at);
    match tail {
        0 => vx_set(END, at + 1),
        1 => {
            vx_assume(b(at) == 0xfe);
            vx_assume(b(at + 1) == 0);
            // not to be looked at
            let at = a.frame(at + 2);
            vx_set(END, at + 1);
        }
        2 => { vx_assume(b(at) == 0xff); vx_assume(b(at + 1) == 0xf8); vx_set(END, at + 3) }
        _ => { vx_set(END, at + 1); vx_set(KIND, 7) }
    }
}
fn yields<I: Iterator<Item = Result<i32>>>(it: &mut I, a: &Shape, z: &Shape, tail: u64) {
    block(it, a, 0);
    block(it, z, a.channels());
    match tail {
        0 => {}
        1 => match it.next() {
            Some(Err(Error::FormatError(_))) => vx_check(true, "the first error is yielded"),
            _ => vx_fail("the first error is yielded"),
        },
        _ => match it.next() {
            Some(Err(Error::IoError(_))) => vx_check(true, "the first error is yielded"),
            _ => vx_fail("the first error is yielded"),
        },
    }
    over(it);
}
fn pair(into: bool, lo: u64, hi: u64) {
    let tail = vx_split(vx_any_u64("tail", 0, 3), 0, 3);
    let a = layout(vx_any_u64("first", lo, hi));
    let z = layout(vx_any_u64("second", 0, 6));
    stream(&a, &z, tail);
    vx_config("sub_fill", true);
    let mut r = match FlacReader::new(Rd) { Ok(r) => r, Err(_) => { vx_fail("a valid stream is opened"); return } };
    if into {
        yields(&mut r.into_samples(), &a, &z, tail);
    } else {
        yields(&mut r.samples(), &a, &z, tail);
    }
}
pub fn root_c15_samples0() { pair(false, 0, 2) }
pub fn root_c15_samples1() { pair(false, 3, 4) }
pub fn root_c15_samples2() { pair(false, 5, 6) }
pub fn root_c15_into_samples0() { pair(true, 0, 2) }
pub fn root_c15_into_samples1() { pair(true, 3, 4) }
pub fn root_c15_into_samples2() { pair(true, 5, 6) }
/// Longer blocks.
pub fn root_c15_long() {
    let l = [(0, 40), (1, 17), (7, 5), (2, 256)];
    let i = vx_split(vx_any_u64("first", 0, 3), 0, 3) as usize;
    let k = vx_split(vx_any_u64("second", 0, 2), 0, 2) as usize;
    let a = Shape { chc: l[i].0, bpc: 4, bs: l[i].1, time: 0 };
    let z = Shape { chc: l[k].0, bpc: 4, bs: l[k].1, time: 0 };
    stream(&a, &z, 0);
    vx_config("sub_fill", true);
    let mut r = match FlacReader::new(Rd) { Ok(r) => r, Err(_) => { vx_fail("a valid stream is opened"); return } };
    yields(&mut r.samples(), &a, &z, 0);
}
