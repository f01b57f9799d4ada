//! C17 to C20: subframes.
use vx::*;
use src::*;
use claxon::Error;
use claxon::subframe::decode;
use claxon::input::Bitstream;

pub fn sext(x: u64, bits: u32) -> i64 {
    if bits == 0 { return 0 }
    ((x << (64 - bits)) as i64) >> (64 - bits)
}
fn zigzag(x: u64) -> i64 {
    if x & 1 == 0 { (x >> 1) as i64 } else { -1 - (x >> 1) as i64 }
}
/// What the format says about a subframe.
#[derive(Clone, Copy, PartialEq)]
pub enum Exp { Ok, Format, Unsupported }

pub struct Spec { pub p: u64, pub out: Vec<i32>, pub n: usize }
impl Spec {
    pub fn new(n: usize) -> Spec { Spec { p: 0, out: vec![0; n + 1], n: n } }
    pub fn bits(&mut self, n: u32) -> u64 {
        let x = vx_bits(0, self.p, n);
        self.p += n as u64;
        x
    }
    pub fn unary(&mut self) -> u64 {
        let q = vx_unary(0, self.p) as u64;
        self.p += q + 1;
        q
    }
    /// The verbatim samples from a to b.
    pub fn verbatim(&mut self, a: usize, b: usize, bps: u32) {
        let mut i = a;
        while i < b {
            self.out[i] = sext(self.bits(bps), bps) as i32;
            i += 1;
        }
    }
    /// The residual, at out[warm..n]; parameters of the first partition split over all values.
    pub fn residual(&mut self, warm: usize, params: &[u64]) -> Exp {
        let method = vx_split(self.bits(2), 0, 3);
        if method >= 2 { return Exp::Format }
        let po = vx_split(self.bits(4), 0, 15);
        let parts = 1usize << po;
        if self.n % parts != 0 || self.n / parts < warm { return Exp::Format }
        let mut part = 0;
        let mut i = warm;
        while part < parts {
            let w = if method == 0 { 4 } else { 5 };
            let k = self.bits(w);
            if params.len() == 0 {
                vx_split(k, 0, 31);
            } else {
                let mut a = false;
                let mut j = 0;
                while j < params.len() {
                    if vx_part(k == params[j]) { a = true; break }
                    j += 1;
                }
                if !a { vx_assume(false) }
            }
            if k == (1 << w) - 1 { return Exp::Unsupported }
            let end = (part + 1) * (self.n / parts);
            while i < end {
                let q = self.unary();
                let r = self.bits(k as u32);
                // valid residuals fit into 32 bits
                vx_assume(q < 1 << (32 - k));
                self.out[i] = zigzag((q << k) + r) as i32;
                i += 1;
            }
            part += 1;
        }
        Exp::Ok
    }
    pub fn fixed(&mut self, order: usize) {
        let mut i = order;
        while i < self.n {
            let o = &self.out;
            let x = |k: usize| o[i - k] as i64;
            let p = match order {
                0 => 0,
                1 => x(1),
                2 => 2 * x(1) - x(2),
                3 => 3 * x(1) - 3 * x(2) + x(3),
                _ => 4 * x(1) - 6 * x(2) + 4 * x(3) - x(4),
            };
            let s = (p + o[i] as i64) as i32;
            self.out[i] = s;
            i += 1;
        }
    }
    /// The subframe header, from its type code on: number of wasted bits.
    pub fn wasted(&mut self, max: u64) -> u32 {
        if vx_part(self.bits(1) == 1) {
            let q = self.unary();
            if max == 0 { vx_assume(false) }
            if q >= 40 { vx_assume(false) }
            vx_split(q + 1, 1, max) as u32
        } else { 0 }
    }
    pub fn shift(&mut self, w: u32) {
        let mut i = 0;
        while i < self.n {
            self.out[i] = ((self.out[i] as i64) << w) as i32;
            i += 1;
        }
    }
}
/// Decode, and compare with the specification.
pub fn compare(s: &Spec, e: Exp, bps: u32, what: &'static str, err: &'static str) {
    vx_config("bits", true);
    vx_set(POS, 0);
    vx_set(PURE, 1);
    let mut buf = vec![0i32; s.n + 1];
    vx_havoc_i32(&mut buf, -0x8000_0000, 0x7fff_ffff);
    let guard = buf[s.n];
    let r = {
        let mut bs = Bitstream::new(Src);
        decode(&mut bs, bps, &mut buf[..s.n])
    };
    match e {
        Exp::Ok => {
            match r { Ok(()) => {}, Err(_) => { vx_fail("a valid subframe is decoded"); return } }
            let mut i = 0;
            while i < s.n {
                vx_check(buf[i] == s.out[i], what);
                i += 1;
            }
            vx_check(pos_bits() == s.p, "the subframe is consumed exactly");
        }
        Exp::Format => match r {
            Err(Error::FormatError(_)) => vx_check(true, err),
            _ => vx_fail(err),
        },
        Exp::Unsupported => match r {
            Err(Error::Unsupported(_)) => vx_check(true, err),
            _ => vx_fail(err),
        },
    }
    vx_check(buf[s.n] == guard, "nothing is written outside the block");
}
/// Type code: header bit and six bits.
pub fn typ(s: &mut Spec, code: u64) {
    vx_assume(s.bits(1) == 0);
    vx_assume(s.bits(6) == code);
}
/// Rice coded, one partition.
pub fn rice1(s: &Spec) {
    vx_assume(vx_bits(0, s.p, 2) == 0);
    vx_assume(vx_bits(0, s.p + 2, 4) == 0);
}
const CONST: &'static str = "a constant subframe fills the block with its sign-extended value";
const VERB: &'static str = "a verbatim subframe yields the coded values in order";

// ---- C17

/// All codes: padding bit, reserved types, wasted bits.
pub fn root_c17_codes() {
    let mut s = Spec::new(1);
    let pad = s.bits(1);
    let code = vx_split(s.bits(6), 0, 63);
    let reserved = (code >= 2 && code < 8) || (code > 12 && code < 32);
    if vx_part(pad == 1) {
        compare(&s, Exp::Format, 16, "", "a set padding bit is rejected");
    } else if reserved {
        compare(&s, Exp::Format, 16, "", "a reserved subframe code is rejected");
    }
}
fn constant(lo: u64, hi: u64) {
    let bps = vx_split(vx_any_u64("bps", lo, hi), lo, hi) as u32;
    let n = vx_split(vx_any_u64("n", 1, 3), 1, 3) as usize;
    constant_of(bps, n)
}
fn constant_of(bps: u32, n: usize) {
    let mut s = Spec::new(n);
    typ(&mut s, 0);
    let w = s.wasted(40);
    if w >= bps {
        compare(&s, Exp::Format, bps, CONST, "a subframe without remaining width is rejected");
        return
    }
    let x = sext(s.bits(bps - w), bps - w) as i32;
    let mut i = 0;
    while i < n { s.out[i] = x; i += 1; }
    s.shift(w);
    compare(&s, Exp::Ok, bps, CONST, "");
}
pub fn root_c17_constant0() { constant(1, 10) }
pub fn root_c17_constant1() { constant(11, 18) }
pub fn root_c17_constant2() { constant(19, 25) }
pub fn root_c17_constant3() { constant(26, 32) }
fn verbatim(lo: u64, hi: u64) {
    let bps = vx_split(vx_any_u64("bps", lo, hi), lo, hi) as u32;
    let n = vx_split(vx_any_u64("n", 1, 3), 1, 3) as usize;
    verbatim_of(bps, n)
}
fn verbatim_of(bps: u32, n: usize) {
    let mut s = Spec::new(n);
    typ(&mut s, 1);
    let w = s.wasted(40);
    if w >= bps {
        compare(&s, Exp::Format, bps, VERB, "a subframe without remaining width is rejected");
        return
    }
    s.verbatim(0, n, bps - w);
    s.shift(w);
    compare(&s, Exp::Ok, bps, VERB, "");
}
pub fn root_c17_verbatim0() { verbatim(1, 10) }
pub fn root_c17_verbatim1() { verbatim(11, 18) }
pub fn root_c17_verbatim2() { verbatim(19, 25) }
pub fn root_c17_verbatim3() { verbatim(26, 32) }
/// Longer blocks.
pub fn root_c17_long() {
    let n = [4, 5, 8, 16, 17, 33, 67][vx_split(vx_any_u64("size", 0, 6), 0, 6) as usize];
    let bps = [4, 8, 12, 16, 17, 24, 25][vx_split(vx_any_u64("width", 0, 6), 0, 6) as usize];
    if vx_part(vx_any_u64("constant", 0, 1) == 1) { constant_of(bps, n) } else { verbatim_of(bps, n) }
}

// ---- C18

fn fixed(order: usize) {
    let bpss = [4, 8, 9, 12, 16, 17, 24, 25];
    let bps = bpss[vx_split(vx_any_u64("width", 0, 7), 0, 7) as usize];
    let n = vx_split(vx_any_u64("n", 1, order as u64 + 6), 1, order as u64 + 6) as usize;
    fixed_of(order, bps, n, 2, 3)
}
/// All widths a frame can have.
fn fixed_width(order: usize) {
    let bps = vx_split(vx_any_u64("width", 4, 25), 4, 25) as u32;
    fixed_of(order, bps, order + 2, 4, 5)
}
fn fixed_long(order: usize) {
    let n = [16, 17, 33, 50][vx_split(vx_any_u64("size", 0, 3), 0, 3) as usize];
    fixed_of(order, 16, n, 1, 2)
}
fn fixed_of(order: usize, bps: u32, n: usize, wmax: u64, k: u64) {
    let mut s = Spec::new(n);
    typ(&mut s, 8 + order as u64);
    let w = s.wasted(wmax);
    if w >= bps {
        compare(&s, Exp::Format, bps, "", "a subframe without remaining width is rejected");
        return
    }
    if n < order {
        compare(&s, Exp::Format, bps, "", "an order larger than the block is rejected");
        return
    }
    s.verbatim(0, order, bps - w);
    rice1(&s);
    match s.residual(order, &[k]) {
        Exp::Ok => {}
        _ => return,
    }
    s.fixed(order);
    s.shift(w);
    compare(&s, Exp::Ok, bps, "every sample is residual plus fixed prediction", "");
}
pub fn root_c18_order0() { fixed(0) }
pub fn root_c18_order1() { fixed(1) }
pub fn root_c18_order2() { fixed(2) }
pub fn root_c18_order3() { fixed(3) }
pub fn root_c18_order4() { fixed(4) }
pub fn root_c18_width0() { fixed_width(0) }
pub fn root_c18_width1() { fixed_width(1) }
pub fn root_c18_width2() { fixed_width(2) }
pub fn root_c18_width3() { fixed_width(3) }
pub fn root_c18_width4() { fixed_width(4) }
pub fn root_c18_long0() { fixed_long(0) }
pub fn root_c18_long1() { fixed_long(1) }
pub fn root_c18_long2() { fixed_long(2) }
pub fn root_c18_long3() { fixed_long(3) }
pub fn root_c18_long4() { fixed_long(4) }
/// Blocks of sizes in use, a size which wraps eight bits among them.
fn far() -> usize {
    vx_config("long", true);
    [100, 257, 600][vx_split(vx_any_u64("size", 0, 2), 0, 2) as usize]
}
pub fn root_c17_far() {
    let n = far();
    if vx_part(vx_any_u64("constant", 0, 1) == 1) { constant_of(16, n) } else { verbatim_of(16, n) }
}
/// All quotients are 0, in one partition; with warm-up samples the remainders are given.
fn far_residual(s: &mut Spec, warm: usize, k: u64) {
    rice1(s);
    s.p += 6;
    vx_assume(s.bits(4) == k);
    let mut i = warm;
    while i < s.n {
        vx_assume(vx_unary(0, s.p) == 0);
        s.p += 1;
        let z = s.bits(k as u32);
        if warm > 0 { vx_assume(z == (7 * i as u64) & 15) }
        s.out[i] = zigzag(z) as i32;
        i += 1;
    }
}
fn fixed_far(order: usize) {
    let n = far();
    let mut s = Spec::new(n);
    typ(&mut s, 8 + order as u64);
    vx_assume(s.bits(1) == 0);
    s.verbatim(0, order, 16);
    far_residual(&mut s, order, 4);
    s.fixed(order);
    compare(&s, Exp::Ok, 16, "every sample is residual plus fixed prediction", "");
}
pub fn root_c18_far0() { fixed_far(0) }
pub fn root_c18_far1() { fixed_far(1) }
pub fn root_c18_far2() { fixed_far(2) }
pub fn root_c18_far4() { fixed_far(4) }

// ---- C19

fn pick(n: usize, v: &[usize]) -> usize {
    v[vx_split(vx_any_u64("case", 0, n as u64 - 1), 0, n as u64 - 1) as usize]
}
/// Linear prediction: order, coded precision, block size.
fn lpc(bps: u32, order: usize, prec: u32, n: usize) {
    let mut s = Spec::new(n);
    typ(&mut s, 31 + order as u64);
    vx_assume(s.bits(1) == 0);
    if n < order {
        compare(&s, Exp::Format, bps, "", "an order larger than the block is rejected");
        return
    }
    s.verbatim(0, order, bps);
    vx_assume(s.bits(4) == prec as u64 - 1);
    if prec == 16 {
        compare(&s, Exp::Format, bps, "", "the invalid precision is rejected");
        return
    }
    let shift = sext(s.bits(5), 5);
    if vx_part(shift < 0) {
        compare(&s, Exp::Unsupported, bps, "", "a negative shift is rejected");
        return
    }
    let mut c = [0i64; 32];
    let mut i = 0;
    while i < order {
        c[i] = sext(s.bits(prec), prec);
        i += 1;
    }
    rice1(&s);
    match s.residual(order, &[12]) {
        Exp::Ok => {}
        _ => return,
    }
    let mut i = order;
    while i < n {
        let mut sum = 0i64;
        let mut k = 0;
        while k < order {
            sum += c[k] * s.out[i - 1 - k] as i64;
            k += 1;
        }
        s.out[i] = ((sum >> shift) + s.out[i] as i64) as i32;
        i += 1;
    }
    compare(&s, Exp::Ok, bps, "every sample is residual plus shifted prediction", "");
}
/// All precisions.
fn lpc_prec(lo: u64, hi: u64) {
    let order = vx_split(vx_any_u64("order", lo, hi), lo, hi) as usize;
    let prec = vx_split(vx_any_u64("precision", 1, 16), 1, 16) as u32;
    lpc(16, order, prec, order + 2);
}
pub fn root_c19_precision0() { lpc_prec(1, 8) }
pub fn root_c19_precision1() { lpc_prec(9, 16) }
pub fn root_c19_precision2() { lpc_prec(17, 24) }
pub fn root_c19_precision3() { lpc_prec(25, 32) }
/// All widths.
fn lpc_width(lo: u64, hi: u64) {
    let order = vx_split(vx_any_u64("order", lo, hi), lo, hi) as usize;
    let bps = vx_split(vx_any_u64("bps", 4, 25), 4, 25) as u32;
    lpc(bps, order, 15, order + 1);
}
pub fn root_c19_width0() { lpc_width(1, 8) }
pub fn root_c19_width1() { lpc_width(9, 16) }
pub fn root_c19_width2() { lpc_width(17, 24) }
pub fn root_c19_width3() { lpc_width(25, 32) }
/// Block sizes: below the order, and around the limit between the two predictors.
fn lpc_length(lo: u64, hi: u64) {
    let order = vx_split(vx_any_u64("order", lo, hi), lo, hi);
    let n = vx_any_u64("n", 1, 36);
    if vx_part(n < order) {
        lpc(16, order as usize, 13, vx_split(n, 1, order - 1) as usize);
    } else {
        vx_assume(n < order + 4 || order < 13 && n < 16);
        lpc(16, order as usize, 13, vx_split(n, order, order + 15) as usize);
    }
}
pub fn root_c19_length0() { lpc_length(1, 3) }
pub fn root_c19_length1() { lpc_length(4, 6) }
pub fn root_c19_length2() { lpc_length(7, 9) }
pub fn root_c19_length3() { lpc_length(10, 12) }
pub fn root_c19_length4() { lpc_length(13, 18) }
pub fn root_c19_length5() { lpc_length(19, 23) }
pub fn root_c19_length6() { lpc_length(24, 28) }
pub fn root_c19_length7() { lpc_length(29, 32) }
/// Long blocks, for coefficients which keep samples small: the oldest sample once more, or the difference of the latest two.
fn lpc_far(lo: u64) {
    let order = [1, 2, 8, 12, 13, 31, 32][vx_split(vx_any_u64("case", lo, lo + 1), lo, lo + 1) as usize];
    let n = far();
    let oldest = order < 2 || vx_part(vx_any_u64("oldest", 0, 1) == 1);
    let mut s = Spec::new(n);
    typ(&mut s, 31 + order as u64);
    vx_assume(s.bits(1) == 0);
    s.verbatim(0, order, 16);
    vx_assume(s.bits(4) == 4);
    vx_assume(s.bits(5) == 0);
    let mut c = [0i64; 32];
    if oldest { c[order - 1] = 1 } else { c[0] = 1; c[1] = -1 }
    let mut i = 0;
    while i < order {
        vx_assume(s.bits(5) == c[i] as u64 & 31);
        i += 1;
    }
    far_residual(&mut s, order, 4);
    let mut i = order;
    while i < n {
        let d = if oldest { s.out[i - order] } else { s.out[i - 1].wrapping_sub(s.out[i - 2]) };
        s.out[i] = s.out[i].wrapping_add(d);
        i += 1;
    }
    compare(&s, Exp::Ok, 16, "every sample is residual plus shifted prediction", "");
}
pub fn root_c19_far0() { lpc_far(0) }
pub fn root_c19_far1() { lpc_far(2) }
pub fn root_c19_far2() { lpc_far(4) }
pub fn root_c19_far3() { lpc_far(5) }

// ---- C20

const RES: &'static str = "every residual is decoded with the parameter of its partition";
/// A fixed subframe of the given order, with any residual using the given parameters.
fn residual(order: usize, n: usize, method: u64, po: u64, params: &[u64]) {
    let mut s = Spec::new(n);
    typ(&mut s, 8 + order as u64);
    vx_assume(s.bits(1) == 0);
    s.verbatim(0, order, 9);
    if method < 4 { vx_assume(vx_bits(0, s.p, 2) == method) }
    if po < 16 { vx_assume(vx_bits(0, s.p + 2, 4) == po) }
    let e = s.residual(order, params);
    match e {
        Exp::Ok => s.fixed(order),
        _ => {}
    }
    compare(&s, e, 9, RES, "a reserved, inconsistent or unsupported residual is rejected");
}
/// All parameters, in two partitions.
fn params2(method: u64) { residual(0, 2, method, 1, &[]) }
pub fn root_c20_rice() { params2(0) }
pub fn root_c20_rice2() { params2(1) }
/// All methods and partition orders, for each block size and number of warm-up samples.
fn partitions(lo: u64, hi: u64) {
    let n = vx_split(vx_any_u64("n", lo, hi), lo, hi) as usize;
    let order = vx_split(vx_any_u64("order", 0, 4), 0, 4) as usize;
    if n >= order { residual(order, n, 4, 16, &[6]) }
}
pub fn root_c20_partitions0() { partitions(1, 6) }
pub fn root_c20_partitions1() { partitions(7, 12) }
pub fn root_c20_partitions2() { partitions(13, 18) }
pub fn root_c20_partitions3() { partitions(24, 24) }
pub fn root_c20_partitions4() { partitions(32, 32) }
/// Different parameters from partition to partition.
pub fn root_c20_mixed() {
    let order = vx_split(vx_any_u64("order", 0, 3), 0, 3) as usize;
    let method = vx_split(vx_any_u64("method", 0, 1), 0, 1);
    residual(order, 16, method, 2, &[0, 8, 9, 14]);
}
/// All parameters, in one partition with several samples.
pub fn root_c20_long() {
    let method = vx_split(vx_any_u64("method", 0, 1), 0, 1);
    residual(1, 4, method, 0, &[]);
}
/// Long blocks in many partitions, each with its own parameter; remainders are anything and quotients 0.
fn residual_far(method: u64) {
    let n = [256, 576, 1024][vx_split(vx_any_u64("size", 0, 2), 0, 2) as usize];
    let po = [0, 4, 6][vx_split(vx_any_u64("partition order", 0, 2), 0, 2) as usize];
    vx_config("long", true);
    let mut s = Spec::new(n);
    typ(&mut s, 8);
    vx_assume(s.bits(1) == 0);
    vx_assume(s.bits(2) == method);
    vx_assume(s.bits(4) == po);
    let len = n >> po;
    let mut i = 0;
    while i < n {
        let k = (5 * (i / len) as u64 + 3) % if method == 0 { 15 } else { 31 };
        vx_assume(s.bits(if method == 0 { 4 } else { 5 }) == k);
        let e = i + len;
        while i < e {
            vx_assume(vx_unary(0, s.p) == 0);
            s.p += 1;
            s.out[i] = zigzag(s.bits(k as u32)) as i32;
            i += 1;
        }
    }
    compare(&s, Exp::Ok, 16, RES, "");
}
pub fn root_c20_far0() { residual_far(0) }
pub fn root_c20_far1() { residual_far(1) }
/// All block sizes: partition orders which do not fit are rejected before any residual.
fn sizes(lo: u64, hi: u64) {
    let order = vx_split(vx_any_u64("order", 0, 4), 0, 4) as usize;
    let n = vx_any_u64("n", 1, 65535);
    if n < order as u64 { return }
    let mut s = Spec::new(0);
    typ(&mut s, 8 + order as u64);
    vx_assume(s.bits(1) == 0);
    s.p += 9 * order as u64;
    let method = vx_split(s.bits(2), 0, 1);
    let po = vx_split(s.bits(4), lo, hi);
    let w = if method == 0 { 4 } else { 5 };
    // an escape code in the first partition
    vx_assume(s.bits(w) == (1 << w) - 1);
    vx_config("bits", true);
    vx_set(POS, 0);
    vx_set(PURE, 1);
    let mut buf = vx_vec_i32(n as usize, n as usize);
    let r = {
        let mut bs = Bitstream::new(Src);
        decode(&mut bs, 9, &mut buf)
    };
    if vx_part(n & ((1 << po) - 1) == 0) {
        let len = n >> po;
        if vx_part(len >= order as u64) {
            match r {
                Err(Error::Unsupported(_)) => vx_check(pos_bits() == s.p, "a consistent partition order is accepted"),
                _ => vx_fail("a consistent partition order is accepted"),
            }
            return
        }
    }
    match r {
        Err(Error::FormatError(_)) => vx_check(true, "an inconsistent partition order is rejected"),
        _ => vx_fail("an inconsistent partition order is rejected"),
    }
}
pub fn root_c20_sizes0() { sizes(0, 7) }
pub fn root_c20_sizes1() { sizes(8, 15) }

// ---- C03, C23

fn twice(s: &Spec, bps: u32) {
    vx_config("bits", true);
    vx_set(PURE, 1);
    let mut a = [0i32; 80];
    let mut z = [0i32; 80];
    vx_havoc_i32(&mut a, -0x8000_0000, 0x7fff_ffff);
    vx_havoc_i32(&mut z, -0x8000_0000, 0x7fff_ffff);
    let r = {
        let mut bs = Bitstream::new(Src);
        decode(&mut bs, bps, &mut a[..s.n])
    };
    if r.is_err() { return }
    vx_set(POS, 0);
    let r = {
        let mut bs = Bitstream::new(Src);
        decode(&mut bs, bps, &mut z[..s.n])
    };
    vx_check(r.is_ok(), "whether a subframe is decoded does not depend on the buffer's contents");
    let mut i = 0;
    while i < s.n {
        vx_check(a[i] == z[i], "a decoded sample does not depend on the buffer's contents");
        i += 1;
    }
}
fn sizes_of() -> usize { [1, 2, 3, 5, 8, 16, 17, 33][vx_split(vx_any_u64("size", 0, 7), 0, 7) as usize] }
/// Decoding does not allocate.
fn frugal(s: &Spec, bps: u32) {
    vx_config("bits", true);
    vx_set(PURE, 1);
    let mut a = [0i32; 80];
    let before = vx_allocs();
    let r = {
        let mut bs = Bitstream::new(Src);
        decode(&mut bs, bps, &mut a[..s.n])
    };
    vx_check(vx_allocs() == before, "no heap allocation while decoding a subframe");
}
fn twice_of(code: u64, n: usize, k: u64, po: u64) { twice_by(code, n, 0, k, po) }
fn twice_by(code: u64, n: usize, method: u64, k: u64, po: u64) {
    let (s, bps) = some_subframe(code, n, method, k, po);
    twice(&s, bps)
}
fn frugal_of(code: u64, n: usize, k: u64, po: u64) {
    let (s, bps) = some_subframe(code, n, 0, k, po);
    frugal(&s, bps)
}
fn some_subframe(code: u64, n: usize, method: u64, k: u64, po: u64) -> (Spec, u32) {
    let mut s = Spec::new(n);
    typ(&mut s, code);
    let w = s.wasted(1);
    let order = if code >= 32 { code - 31 } else if code >= 8 { code - 8 } else { 0 };
    if code >= 8 {
        s.p += order * (10 - w as u64);
        if code >= 32 {
            vx_assume(s.bits(4) == 4);
            s.p += 5 + 5 * order;
        }
        vx_assume(s.bits(2) == method);
        vx_assume(s.bits(4) == po);
        let mut i = order;
        let mut part = 0;
        while part < 1u64 << po {
            vx_assume(s.bits(4 + method as u32) == k);
            let end = (part + 1) * (n as u64 >> po);
            while i < end {
                let q = s.unary();
                vx_assume(q < 1 << (32 - k));
                s.p += k;
                i += 1;
            }
            part += 1;
        }
    }
    (s, 10)
}
pub fn root_c03_plain() {
    let code = vx_split(vx_any_u64("type", 0, 1), 0, 1);
    let n = [1, 2, 3, 5, 8, 16, 17, 33, 64, 67][vx_split(vx_any_u64("size", 0, 9), 0, 9) as usize];
    twice_of(code, n, 0, 0)
}
pub fn root_c03_fixed() {
    let order = vx_split(vx_any_u64("order", 0, 4), 0, 4);
    let n = sizes_of();
    if (n as u64) < order { return }
    twice_of(8 + order, n, 2, 0)
}
pub fn root_c03_partitions() {
    let order = vx_split(vx_any_u64("order", 0, 2), 0, 2);
    let po = vx_split(vx_any_u64("partition order", 1, 3), 1, 3);
    twice_of(8 + order, 24, 9, po)
}
/// All parameters, few samples.
pub fn root_c03_params() {
    let method = vx_split(vx_any_u64("method", 0, 1), 0, 1);
    let k = vx_split(vx_any_u64("parameter", 0, 30), 0, 30);
    if method == 0 && k > 14 { return }
    let order = vx_split(vx_any_u64("order", 0, 1), 0, 1);
    let po = vx_split(vx_any_u64("partition order", 0, 1), 0, 1);
    twice_by(8 + order, 4, method, k, po)
}
fn c03_lpc(lo: u64, hi: u64) {
    let order = vx_split(vx_any_u64("order", lo, hi), lo, hi);
    let n = order as usize + [0, 1, 6, 14][vx_split(vx_any_u64("size", 0, 3), 0, 3) as usize];
    twice_of(31 + order, n, 2, 0)
}
pub fn root_c03_lpc0() { c03_lpc(1, 12) }
pub fn root_c03_lpc1() { c03_lpc(13, 24) }
pub fn root_c03_lpc2() { c03_lpc(25, 32) }
pub fn root_c23_subframe() {
    let code = vx_split(vx_any_u64("type", 0, 63), 0, 63);
    if code >= 2 && code < 8 || code > 12 && code < 32 { return }
    let n = if code >= 32 { code as usize - 29 } else { 6 };
    frugal_of(code, n, 2, if code == 9 { 1 } else { 0 })
}
