//! Value domain: hash-consed polynomials over atoms, with exact bit provenance.
//!
//! A term `T` denotes an integer as a polynomial with i128 coefficients over
//! atoms. Atoms are symbols, input bytes, bit fields, wrapped sums, ...
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct T(pub u32);
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct A(pub u32);
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct M(pub u32);

pub type Bit = (A, u8);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AK {
    /// A fresh symbol with a range.
    Sym { id: u32, name: String, lo: i128, hi: i128 },
    /// Byte `pos` of input stream `src`.
    Byte { src: u32, pos: T },
    /// `n` consecutive bits of bit stream `src`, most significant first.
    SRun { src: u32, pos: T, n: u32 },
    /// As SRun, for a width which is not constant.
    SRunV { src: u32, pos: T, n: T },
    /// The number of zero bits at bit position `pos` before the next one bit.
    Unary { src: u32, pos: T },
    /// Element of an array whose contents are unknown.
    Elem { arr: u32, idx: T, lo: i128, hi: i128 },
    /// Bits lo..lo+len of non-negative atom `a`.
    Field { a: A, lo: u8, len: u8 },
    /// Exclusive or of at least two bits.
    XBit(Vec<Bit>),
    /// p mod 2^w, as unsigned or two's complement number.
    Wrap { w: u8, signed: bool, p: T },
    /// 2^e
    Pow2 { e: T },
    Op { op: &'static str, args: Vec<T>, lo: i128, hi: i128 },
    Ge0(T),
    Eq0(T),
    BoolSet { root: A, set: [u64; 4] },
    /// A function of a finite-domain atom.
    Tab { root: A, vals: Vec<i128> },
    /// Loop recurrence: init, body over SelfV; value after k iterations.
    Mu { init: T, body: T, k: T, lo: i128, hi: i128 },
    /// Bound variables, depth-indexed.
    SelfV { d: u32, lo: i128, hi: i128 },
    Idx { d: u32 },
}

#[derive(Default)]
struct Arena {
    polys: Vec<&'static [(M, i128)]>,
    pmask: Vec<u128>,
    pix: HashMap<&'static [(M, i128)], T>,
    monos: Vec<&'static [A]>,
    mix: HashMap<&'static [A], M>,
    atoms: Vec<&'static AK>,
    amask: Vec<u128>,
    aix: HashMap<&'static AK, A>,
    tables: HashMap<(T, A), &'static [i128]>,
    roots: HashMap<T, Option<A>>,
    nsym: u32,
}

thread_local!(static AR: RefCell<Arena> = RefCell::new({
    let mut a = Arena::default();
    let e: &'static [A] = &[];
    a.monos.push(e);
    a.mix.insert(e, M(0));
    a
}));

pub const M1: M = M(0);

pub fn intern(mut v: Vec<(M, i128)>) -> T {
    v.retain(|x| x.1 != 0);
    v.sort_unstable_by_key(|x| x.0);
    AR.with(|r| {
        let mut r = r.borrow_mut();
        if let Some(&t) = r.pix.get(&v[..]) {
            return t;
        }
        let mut mask = 0;
        for &(m, _) in &v {
            for a in r.monos[m.0 as usize] {
                mask |= r.amask[a.0 as usize];
            }
        }
        let s: &'static [(M, i128)] = Box::leak(v.into_boxed_slice());
        let t = T(r.polys.len() as u32);
        r.polys.push(s);
        r.pmask.push(mask);
        r.pix.insert(s, t);
        t
    })
}
pub fn poly(t: T) -> &'static [(M, i128)] {
    AR.with(|r| r.borrow().polys[t.0 as usize])
}
pub fn mask(t: T) -> u128 {
    AR.with(|r| r.borrow().pmask[t.0 as usize])
}
pub fn amask(a: A) -> u128 {
    AR.with(|r| r.borrow().amask[a.0 as usize])
}
pub fn mono(m: M) -> &'static [A] {
    AR.with(|r| r.borrow().monos[m.0 as usize])
}
pub fn atom(a: A) -> &'static AK {
    AR.with(|r| r.borrow().atoms[a.0 as usize])
}
pub fn mk_mono(mut v: Vec<A>) -> M {
    v.sort_unstable();
    AR.with(|r| {
        let mut r = r.borrow_mut();
        if let Some(&m) = r.mix.get(&v[..]) {
            return m;
        }
        let s: &'static [A] = Box::leak(v.into_boxed_slice());
        let m = M(r.monos.len() as u32);
        r.monos.push(s);
        r.mix.insert(s, m);
        m
    })
}
pub fn kids(k: &AK) -> Vec<T> {
    match k {
        AK::Byte { pos, .. } | AK::SRun { pos, .. } | AK::Unary { pos, .. } => vec![*pos],
        AK::SRunV { pos, n, .. } => vec![*pos, *n],
        AK::Elem { idx, .. } => vec![*idx],
        AK::Wrap { p, .. } => vec![*p],
        AK::Pow2 { e } => vec![*e],
        AK::Op { args, .. } => args.clone(),
        AK::Ge0(p) | AK::Eq0(p) => vec![*p],
        AK::Mu { init, body, k, .. } => vec![*init, *body, *k],
        _ => vec![],
    }
}
pub fn akids(k: &AK) -> Vec<A> {
    match k {
        AK::Field { a, .. } => vec![*a],
        AK::XBit(b) => b.iter().map(|x| x.0).collect(),
        AK::BoolSet { root, .. } | AK::Tab { root, .. } => vec![*root],
        _ => vec![],
    }
}
pub fn mk_atom(k: AK) -> A {
    let have = AR.with(|r| r.borrow().aix.get(&k).cloned());
    if let Some(a) = have {
        return a;
    }
    let mut mk = 0u128;
    for t in kids(&k) {
        mk |= mask(t);
    }
    for a in akids(&k) {
        mk |= amask(a);
    }
    AR.with(|r| {
        let mut r = r.borrow_mut();
        let a = A(r.atoms.len() as u32);
        mk |= 1u128 << (a.0 % 127);
        let s: &'static AK = Box::leak(Box::new(k));
        r.atoms.push(s);
        r.amask.push(mk);
        r.aix.insert(s, a);
        a
    })
}
pub fn var(a: A) -> T {
    intern(vec![(mk_mono(vec![a]), 1)])
}
pub fn at(k: AK) -> T {
    var(mk_atom(k))
}
pub fn fresh(name: &str, lo: i128, hi: i128) -> T {
    if lo == hi {
        return int(lo);
    }
    let id = AR.with(|r| {
        let mut r = r.borrow_mut();
        r.nsym += 1;
        r.nsym
    });
    at(AK::Sym { id, name: name.to_string(), lo, hi })
}
pub fn int(c: i128) -> T {
    intern(if c == 0 { vec![] } else { vec![(M1, c)] })
}
pub fn konst(t: T) -> Option<i128> {
    let p = poly(t);
    if p.is_empty() {
        return Some(0);
    }
    if p.len() == 1 && p[0].0 == M1 {
        return Some(p[0].1);
    }
    None
}
pub fn cpart(t: T) -> i128 {
    let p = poly(t);
    if !p.is_empty() && p[0].0 == M1 { p[0].1 } else { 0 }
}
/// The term as a single atom with coefficient 1.
pub fn as_atom(t: T) -> Option<A> {
    let p = poly(t);
    if p.len() == 1 && p[0].1 == 1 && mono(p[0].0).len() == 1 {
        return Some(mono(p[0].0)[0]);
    }
    None
}
pub fn addm(a: T, b: T, cb: i128) -> T {
    if cb == 0 || b == int(0) {
        return a;
    }
    let (pa, pb) = (poly(a), poly(b));
    let mut v = Vec::with_capacity(pa.len() + pb.len());
    let (mut i, mut j) = (0, 0);
    while i < pa.len() || j < pb.len() {
        if j == pb.len() || (i < pa.len() && pa[i].0 < pb[j].0) {
            v.push(pa[i]);
            i += 1;
        } else if i == pa.len() || pb[j].0 < pa[i].0 {
            v.push((pb[j].0, pb[j].1.wrapping_mul(cb)));
            j += 1;
        } else {
            v.push((pa[i].0, pa[i].1.wrapping_add(pb[j].1.wrapping_mul(cb))));
            i += 1;
            j += 1;
        }
    }
    intern(v)
}
pub fn add(a: T, b: T) -> T {
    addm(a, b, 1)
}
pub fn sub(a: T, b: T) -> T {
    addm(a, b, -1)
}
pub fn addc(a: T, c: i128) -> T {
    addm(a, int(1), c)
}
pub fn mulc(a: T, c: i128) -> T {
    addm(int(0), a, c)
}
pub fn mul(a: T, b: T) -> T {
    if let Some(c) = konst(a) {
        return mulc(b, c);
    }
    if let Some(c) = konst(b) {
        return mulc(a, c);
    }
    let (pa, pb) = (poly(a), poly(b));
    let mut h: HashMap<M, i128> = HashMap::new();
    for &(ma, ca) in pa {
        for &(mb, cb) in pb {
            let mut v = mono(ma).to_vec();
            v.extend_from_slice(mono(mb));
            let m = mk_mono(v);
            let e = h.entry(m).or_insert(0);
            *e = e.wrapping_add(ca.wrapping_mul(cb));
        }
    }
    intern(h.into_iter().collect())
}

// ---------------------------------------------------------------- ranges

/// The range of an atom that holds in every state.
pub fn arange(a: A) -> (i128, i128) {
    match atom(a) {
        AK::Sym { lo, hi, .. } | AK::Elem { lo, hi, .. } | AK::Op { lo, hi, .. } => (*lo, *hi),
        AK::Mu { lo, hi, .. } | AK::SelfV { lo, hi, .. } => (*lo, *hi),
        AK::Idx { .. } => (0, 1 << 63),
        AK::Byte { .. } => (0, 255),
        AK::SRun { n, .. } => (0, (1i128 << n) - 1),
        AK::SRunV { .. } => (0, (1i128 << 32) - 1),
        AK::Unary { .. } => (0, (1i128 << 32) - 1),
        AK::Field { len, .. } => (0, (1i128 << len) - 1),
        AK::XBit(_) | AK::Ge0(_) | AK::Eq0(_) | AK::BoolSet { .. } => (0, 1),
        AK::Wrap { w, signed, .. } => wrange(*w, *signed),
        AK::Tab { vals, .. } => (*vals.iter().min().unwrap(), *vals.iter().max().unwrap()),
        AK::Pow2 { e } => {
            let (l, h) = Env::new().ival(*e);
            (1i128 << l.clamp(0, 100), 1i128 << h.clamp(0, 100))
        }
    }
}
pub fn wrange(w: u8, signed: bool) -> (i128, i128) {
    if w >= 127 {
        return (if signed { i128::MIN / 4 } else { 0 }, i128::MAX / 4);
    }
    if signed {
        (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
    } else {
        (0, (1i128 << w) - 1)
    }
}
fn bitlen(x: i128) -> u8 {
    (128 - x.leading_zeros()) as u8
}

pub type VS = [u64; 4];
pub fn vs_has(s: &VS, v: usize) -> bool {
    s[v / 64] >> (v % 64) & 1 != 0
}
pub fn vs_set(s: &mut VS, v: usize) {
    s[v / 64] |= 1 << (v % 64)
}

/// Bit as an affine form over GF(2).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct BF {
    pub c: bool,
    pub xs: Vec<Bit>,
}
pub fn bf_const(c: bool) -> BF {
    BF { c, xs: vec![] }
}
pub fn bf_xor(a: &BF, b: &BF) -> BF {
    let mut xs = Vec::with_capacity(a.xs.len() + b.xs.len());
    let (mut i, mut j) = (0, 0);
    while i < a.xs.len() || j < b.xs.len() {
        if j == b.xs.len() || (i < a.xs.len() && a.xs[i] < b.xs[j]) {
            xs.push(a.xs[i]);
            i += 1;
        } else if i == a.xs.len() || b.xs[j] < a.xs[i] {
            xs.push(b.xs[j]);
            j += 1;
        } else {
            i += 1;
            j += 1;
        }
    }
    BF { c: a.c ^ b.c, xs }
}

/// What is known on the current path.
#[derive(Clone, Default)]
pub struct Env {
    pub vs: HashMap<A, VS>,
    pub bounds: HashMap<A, (i128, i128)>,
    pub subst: HashMap<A, T>,
    pub smask: u128,
    pub ges: Vec<T>,
    pub nes: Vec<T>,
    pub eqs: Vec<T>,
    /// Known bits (mask, value) of atoms with a large range.
    pub known: HashMap<A, (u64, u64)>,
    pub dead: bool,
    /// Conditions already decided, verbatim.
    pub lits: HashMap<T, bool>,
    /// Normal forms under what is known.
    cache: std::rc::Rc<std::cell::RefCell<HashMap<T, T>>>,
}

fn smul(a: i128, b: i128) -> i128 {
    a.checked_mul(b).unwrap_or(if (a < 0) == (b < 0) { i128::MAX / 4 } else { i128::MIN / 4 })
}
fn sadd(a: i128, b: i128) -> i128 {
    a.saturating_add(b).clamp(i128::MIN / 4, i128::MAX / 4)
}

impl Env {
    pub fn new() -> Env {
        Env::default()
    }
    /// More is known now.
    fn touch(&mut self) {
        if std::rc::Rc::strong_count(&self.cache) > 1 || !self.cache.borrow().is_empty() {
            self.cache = Default::default();
        }
    }
    pub fn arange(&self, a: A) -> (i128, i128) {
        if let Some(&t) = self.subst.get(&a) {
            if let Some(c) = konst(t) {
                return (c, c);
            }
        }
        if let Some(s) = self.vs.get(&a) {
            let mut lo = 256;
            let mut hi = -1;
            for v in 0..256 {
                if vs_has(s, v) {
                    if lo == 256 {
                        lo = v as i128;
                    }
                    hi = v as i128;
                }
            }
            return (lo, hi);
        }
        let d = arange(a);
        let d = match atom(a) {
            AK::Pow2 { e } => {
                let (l, h) = self.ival(*e);
                (1i128 << l.clamp(0, 100), 1i128 << h.clamp(0, 100))
            }
            AK::SRunV { n, .. } => {
                let (_, h) = self.ival(*n);
                (0, (1i128 << h.clamp(0, 64)) - 1)
            }
            AK::Op { op: "shr", args, .. } => {
                // floor(p / 2^k)
                let (l, h) = self.ival(args[0]);
                let (kl, kh) = self.ival(args[1]);
                let (kl, kh) = (kl.clamp(0, 120) as u32, kh.clamp(0, 120) as u32);
                let lo = if l >= 0 { l >> kh } else { l >> kl };
                let hi = if h >= 0 { h >> kl } else { h >> kh };
                (lo.max(d.0), hi.min(d.1))
            }
            AK::Op { op: "div", args, .. } => {
                let (l, h) = self.ival(args[0]);
                let (dl, _) = self.ival(args[1]);
                if dl >= 1 && l >= 0 { (d.0.max(0), d.1.min(h / dl)) } else { d }
            }
            AK::Op { op: "rem", args, .. } => {
                let (l, h) = self.ival(args[0]);
                let (_, dh) = self.ival(args[1]);
                if l >= 0 { (0, d.1.min(h).min(dh - 1)) } else { d }
            }
            AK::Op { op: "min", args, .. } => {
                let (l, h) = self.ival(args[0]);
                let (l2, h2) = self.ival(args[1]);
                (l.min(l2).max(d.0), h.min(h2).min(d.1))
            }
            _ => d,
        };
        if let Some(&b) = self.bounds.get(&a) {
            return (b.0.max(d.0), b.1.min(d.1));
        }
        d
    }
    pub fn ival(&self, t: T) -> (i128, i128) {
        if self.smask & mask(t) != 0 && poly(t).len() > 0 {
            if let Some(root) = single_root(t) {
                if let Some(vs) = self.vs.get(&root) {
                    let tb = table(t, root);
                    let mut r: Option<(i128, i128)> = None;
                    for v in 0..tb.len() {
                        if vs_has(vs, v) {
                            r = Some(match r {
                                None => (tb[v], tb[v]),
                                Some((l, h)) => (l.min(tb[v]), h.max(tb[v])),
                            });
                        }
                    }
                    if let Some(r) = r {
                        return r;
                    }
                }
            }
        }
        let (mut lo, mut hi) = (0i128, 0i128);
        for &(m, c) in poly(t) {
            let (mut l, mut h) = (1i128, 1i128);
            let ms = mono(m);
            let mut i = 0;
            while i < ms.len() {
                let (al, ah) = self.arange(ms[i]);
                if i + 1 < ms.len() && ms[i + 1] == ms[i] {
                    // square
                    let (x, y) = (smul(al, al), smul(ah, ah));
                    let sl = if al <= 0 && ah >= 0 { 0 } else { x.min(y) };
                    let sh = x.max(y);
                    let v = [smul(l, sl), smul(l, sh), smul(h, sl), smul(h, sh)];
                    l = *v.iter().min().unwrap();
                    h = *v.iter().max().unwrap();
                    i += 2;
                    continue;
                }
                let v = [smul(l, al), smul(l, ah), smul(h, al), smul(h, ah)];
                l = *v.iter().min().unwrap();
                h = *v.iter().max().unwrap();
                i += 1;
            }
            let (x, y) = (smul(l, c), smul(h, c));
            lo = sadd(lo, x.min(y));
            hi = sadd(hi, x.max(y));
        }
        (lo, hi)
    }

    // ------------------------------------------------------------ bits

    fn base_bits(&self, a: A) -> Vec<BF> {
        let one = |b: Bit| BF { c: false, xs: vec![b] };
        match atom(a) {
            AK::XBit(xs) => vec![BF { c: false, xs: xs.clone() }],
            AK::Field { a: p, lo, len } => (*lo..*lo + *len).map(|i| one((*p, i))).collect(),
            _ => {
                let (_, h) = arange(a);
                (0..bitlen(h)).map(|i| one((a, i))).collect()
            }
        }
    }

    /// The bits of `t mod 2^w`, least significant first, if every bit has a known origin.
    pub fn bits_strict(&self, t: T, w: u8) -> Option<Vec<BF>> {
        for attempt in 0..2 {
            if let Some(r) = self.bits_try(t, w, attempt == 1) {
                return Some(r);
            }
        }
        self.bits_table(t, w)
    }
    /// Bits with any coefficients, whose sum has affine bits: with all but one bit zero, the
    /// value differs from the constant K in certain positions; if those sets are disjoint,
    /// there are no carries between them. Overlapping bits are tabulated together.
    fn bits_table(&self, t: T, w: u8) -> Option<Vec<BF>> {
        if w > 64 {
            return None;
        }
        let mask = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
        let mut k = 0u64;
        let mut xs: Vec<(BF, u64)> = vec![];
        for &(m, c) in poly(t) {
            let cm = c as u64 & mask;
            if m == M1 {
                k = k.wrapping_add(cm) & mask;
                continue;
            }
            if cm == 0 {
                continue;
            }
            let ms = mono(m);
            if ms.len() != 1 {
                return None;
            }
            let a = ms[0];
            if let AK::Pow2 { .. } = atom(a) {
                return None;
            }
            let (lo, hi) = arange(a);
            if lo < 0 || hi >= 1i128 << 64 {
                return None;
            }
            let bs = self.base_bits(a);
            let used = bs.len().min(w as usize - cm.trailing_zeros() as usize);
            for (i, b) in bs.into_iter().take(used).enumerate() {
                let ci = cm << i & mask;
                // the same bit in several places counts once
                if let Some(u) = xs.iter_mut().find(|u| u.0 == b) {
                    u.1 = u.1.wrapping_add(ci) & mask;
                } else {
                    xs.push((b, ci));
                }
            }
            if xs.len() > 64 {
                return None;
            }
        }
        let lin: Vec<u64> = xs.iter().map(|x| (k.wrapping_add(x.1) & mask) ^ k).collect();
        let n = xs.len();
        let mut group: Vec<usize> = (0..n).collect();
        loop {
            let mut changed = false;
            for i in 0..n {
                for j in 0..i {
                    if lin[i] & lin[j] != 0 && group[i] != group[j] {
                        let (a, b) = (group[i].max(group[j]), group[i].min(group[j]));
                        for g in group.iter_mut() {
                            if *g == a {
                                *g = b;
                            }
                        }
                        changed = true;
                    }
                }
            }
            if !changed {
                break;
            }
        }
        for g in 0..n {
            let mem: Vec<usize> = (0..n).filter(|&i| group[i] == g).collect();
            if mem.len() < 2 {
                continue;
            }
            if mem.len() > 9 {
                return None;
            }
            for x in 0..1usize << mem.len() {
                let (mut v, mut e) = (k, 0);
                for (j, &i) in mem.iter().enumerate() {
                    if x >> j & 1 != 0 {
                        v = v.wrapping_add(xs[i].1) & mask;
                        e ^= lin[i];
                    }
                }
                if v != k ^ e {
                    return None;
                }
            }
        }
        let mut res = vec![];
        for i in 0..w as usize {
            let mut f = bf_const(k >> i & 1 != 0);
            for j in 0..n {
                if lin[j] >> i & 1 != 0 {
                    f = bf_xor(&f, &xs[j].0);
                }
            }
            res.push(f);
        }
        Some(res)
    }
    fn bits_try(&self, t: T, w: u8, compl1: bool) -> Option<Vec<BF>> {
        if w > 64 {
            return None;
        }
        let md = |c: i128| c.rem_euclid(1i128 << w);
        let mut out: Vec<Option<BF>> = vec![None; w as usize];
        let mut c0 = 0i128;
        let mut place = |i: usize, b: BF| -> bool {
            if i >= w as usize {
                return true;
            }
            if out[i].is_some() {
                return false;
            }
            out[i] = Some(b);
            true
        };
        for &(m, c) in poly(t) {
            if m == M1 {
                c0 += c;
                continue;
            }
            let ms = mono(m);
            let cm = md(c);
            if cm == 0 {
                continue;
            }
            if ms.len() != 1 {
                return None;
            }
            let a = ms[0];
            if let AK::Pow2 { .. } = atom(a) {
                return None;
            }
            let (lo, hi) = arange(a);
            let (bs, sext) = if lo < 0 {
                // two's complement carrier
                let (cw, p) = match atom(a) {
                    AK::Wrap { w, signed: true, p } => (*w, *p),
                    _ => {
                        let mut cw = 8;
                        while cw < 64 && !(lo >= -(1i128 << (cw - 1)) && hi < (1i128 << (cw - 1))) {
                            cw *= 2;
                        }
                        if !(lo >= -(1i128 << (cw - 1)) && hi < (1i128 << (cw - 1))) {
                            return None;
                        }
                        (cw, var(a))
                    }
                };
                let u = mk_atom(AK::Wrap { w: cw, signed: false, p });
                let b: Vec<BF> = (0..cw).map(|i| BF { c: false, xs: vec![(u, i)] }).collect();
                (b, true)
            } else {
                if hi >= 1i128 << 64 {
                    return None;
                }
                (self.base_bits(a), false)
            };
            if cm.count_ones() == 1 {
                let k = cm.trailing_zeros() as usize;
                for i in 0..w as usize {
                    let b = if i < bs.len() {
                        bs[i].clone()
                    } else if sext {
                        bs[bs.len() - 1].clone()
                    } else {
                        break;
                    };
                    if !place(k + i, b) {
                        return None;
                    }
                }
            } else if bs.len() == 1 && !sext && !(compl1 && c < 0) {
                for i in 0..w as usize {
                    if cm >> i & 1 != 0 && !place(i, bs[0].clone()) {
                        return None;
                    }
                }
            } else if c < 0 && (-c).count_ones() == 1 && !sext {
                let k = (-c).trailing_zeros() as usize;
                for (i, b) in bs.iter().enumerate() {
                    if k + i < w as usize {
                        c0 -= 1i128 << (k + i);
                    }
                    if !place(k + i, BF { c: !b.c, xs: b.xs.clone() }) {
                        return None;
                    }
                }
                if k + bs.len() > w as usize {
                    return None;
                }
            } else {
                return None;
            }
        }
        let c0 = md(c0);
        for i in 0..w as usize {
            if c0 >> i & 1 != 0 {
                match out[i] {
                    None => out[i] = Some(bf_const(true)),
                    Some(_) => return None,
                }
            }
        }
        Some(out.into_iter().map(|x| x.unwrap_or(bf_const(false))).collect())
    }
    /// The bits of `t mod 2^w`, with an opaque carrier if necessary.
    pub fn bits(&self, t: T, w: u8) -> Vec<BF> {
        if let Some(b) = self.bits_strict(t, w) {
            return b;
        }
        let p = self.reduce(t, w);
        let u = mk_atom(AK::Wrap { w, signed: false, p });
        (0..w).map(|i| BF { c: false, xs: vec![(u, i)] }).collect()
    }

    pub fn from_bits(&self, bits: &[BF], signed: bool) -> T {
        let w = bits.len();
        let mut acc = int(0);
        let mut outer = false;
        let mut i = 0;
        while i < w {
            let b = &bits[i];
            let k = 1i128 << i;
            if b.xs.is_empty() {
                if b.c {
                    acc = addc(acc, k);
                }
                i += 1;
                continue;
            }
            if b.xs.len() > 1 {
                let x = at(AK::XBit(b.xs.clone()));
                acc = if b.c { addm(addc(acc, k), x, -k) } else { addm(acc, x, k) };
                i += 1;
                continue;
            }
            let (a, lo) = b.xs[0];
            let mut n = 1;
            while i + n < w
                && bits[i + n].c == b.c
                && bits[i + n].xs.len() == 1
                && bits[i + n].xs[0] == (a, lo + n as u8)
            {
                n += 1;
            }
            let f = match atom(a) {
                AK::Wrap { w: aw, signed: false, p } if lo == 0 && !b.c && i + n == w => {
                    outer = outer || n < *aw as usize || signed;
                    if n == *aw as usize && !signed {
                        self.wrap(*aw, false, *p)
                    } else {
                        *p
                    }
                }
                _ => self.field(a, lo, n as u8),
            };
            if b.c {
                acc = addm(addc(acc, k * ((1i128 << n) - 1)), f, -k);
            } else {
                acc = addm(acc, f, k);
            }
            i += n;
        }
        if outer {
            return self.wrap(w as u8, signed, acc);
        }
        if signed && w > 0 {
            let b = &bits[w - 1];
            let top = if b.xs.is_empty() {
                int(b.c as i128)
            } else {
                let x = if b.xs.len() > 1 {
                    at(AK::XBit(b.xs.clone()))
                } else {
                    self.field(b.xs[0].0, b.xs[0].1, 1)
                };
                if b.c { sub(int(1), x) } else { x }
            };
            acc = addm(acc, top, -(1i128 << w));
        }
        acc
    }
    pub fn field(&self, a: A, lo: u8, len: u8) -> T {
        let (_, h) = self.arange(a);
        let w = bitlen(h);
        if lo == 0 && len >= w {
            if let AK::Wrap { w, signed, p } = atom(a) {
                return self.wrap(*w, *signed, *p);
            }
            return var(a);
        }
        at(AK::Field { a, lo, len })
    }

    // ------------------------------------------------------------ arithmetic

    /// A canonical polynomial congruent to `t` modulo 2^w.
    pub fn reduce(&self, t: T, w: u8) -> T {
        if w > 120 {
            return t;
        }
        let m2 = 1i128 << w;
        let mut cur = t;
        for _ in 0..8 {
            let mut acc = int(0);
            let mut changed = false;
            for &(m, c) in poly(cur) {
                let mut cm = c.rem_euclid(m2);
                if cm > m2 / 2 || (cm == m2 / 2 && m == M1) {
                    cm -= m2;
                }
                if cm == 0 {
                    changed = true;
                    continue;
                }
                if cm != c {
                    changed = true;
                }
                let ms = mono(m);
                let mut inner = None;
                for (j, &a) in ms.iter().enumerate() {
                    if let AK::Wrap { w: w2, p, .. } = atom(a) {
                        if *w2 as u32 + cm.trailing_zeros() >= w as u32 {
                            inner = Some((j, *p));
                            break;
                        }
                    }
                }
                match inner {
                    Some((j, p)) => {
                        changed = true;
                        let mut rest = ms.to_vec();
                        rest.remove(j);
                        let r = intern(vec![(mk_mono(rest), cm)]);
                        acc = add(acc, mul(r, p));
                    }
                    None => acc = add(acc, intern(vec![(m, cm)])),
                }
            }
            cur = acc;
            if !changed {
                break;
            }
        }
        cur
    }
    pub fn in_range(&self, t: T, w: u8, signed: bool) -> bool {
        let (lo, hi) = wrange(w, signed);
        let (l, h) = self.ival(t);
        l >= lo && h <= hi
    }
    pub fn wrap(&self, w: u8, signed: bool, t: T) -> T {
        if self.in_range(t, w, signed) || w > 120 {
            return t;
        }
        let (lo, hi) = wrange(w, signed);
        if self.proves_ge0(addc(t, -lo)) && self.proves_ge0(sub(int(hi), t)) {
            return t;
        }
        let m2 = 1i128 << w;
        let (l, h) = self.ival(t);
        let q = (l - lo).div_euclid(m2);
        if q != 0 && (h - lo).div_euclid(m2) == q && l > i128::MIN / 8 && h < i128::MAX / 8 {
            return addc(t, -q * m2);
        }
        let simple = poly(t).iter().all(|&(m, _)| {
            mono(m).len() <= 1
                && mono(m).iter().all(|&a| !matches!(atom(a), AK::Wrap { .. }) && arange(a).0 >= 0)
        });
        if simple && w <= 64 {
            if let Some(b) = self.bits_strict(t, w) {
                return self.from_bits(&b, signed);
            }
        }
        let p = self.reduce(t, w);
        if self.in_range(p, w, signed) {
            return p;
        }
        let (l, h) = self.ival(p);
        let q = (l - lo).div_euclid(m2);
        if (h - lo).div_euclid(m2) == q && l > i128::MIN / 8 && h < i128::MAX / 8 {
            return addc(p, -q * m2);
        }
        at(AK::Wrap { w, signed, p })
    }
    pub fn bitop(&self, op: char, a: T, b: T, w: u8, signed: bool) -> T {
        if let (Some(x), Some(y)) = (konst(a), konst(b)) {
            let r = match op {
                '&' => x & y,
                '|' => x | y,
                _ => x ^ y,
            };
            return int(r);
        }
        if a == b {
            return if op == '^' { int(0) } else { a };
        }
        for (x, y) in [(a, b), (b, a)] {
            match (konst(y), op) {
                (Some(0), '&') => return int(0),
                (Some(0), _) => return x,
                (Some(c), '&') if c == -1 || (!signed && c == wrange(w, false).1) => return x,
                _ => {}
            }
        }
        // a mask made of one bit
        for (x, y) in [(a, b), (b, a)] {
            let q = poly(y);
            let m = if signed { -1 } else { wrange(w, false).1 };
            if q.len() == 1 && q[0].1 == m && w > 1 && mono(q[0].0).len() == 1 && arange(mono(q[0].0)[0]) == (0, 1) && konst(x).is_none() {
                let bit = var(mono(q[0].0)[0]);
                let r = match op {
                    '&' => mul(bit, x),
                    '|' => add(x, mul(bit, sub(int(m), x))),
                    _ => add(x, mul(bit, sub(int(m), mulc(x, 2)))),
                };
                return self.sq(r);
            }
        }
        // disjoint sum: multiple of 2^k (symbolic k) and a k-bit value
        if op != '&' {
            for (x, y) in [(a, b), (b, a)] {
                if let Some(e) = self.pow2_mult(x) {
                    if self.lt_pow2(y, e) {
                        return add(x, y);
                    }
                }
            }
        }
        let (ba, bb) = (self.bits(a, w), self.bits(b, w));
        let mut out = Vec::with_capacity(w as usize);
        let mut bad = false;
        let mut bads: Vec<(usize, BF, BF)> = vec![];
        for (x, y) in ba.iter().zip(&bb) {
            let r = match op {
                '^' => bf_xor(x, y),
                '&' | '|' => {
                    let z = op == '|';
                    if x.xs.is_empty() {
                        if x.c == z { bf_const(z) } else { y.clone() }
                    } else if y.xs.is_empty() {
                        if y.c == z { bf_const(z) } else { x.clone() }
                    } else if x == y {
                        x.clone()
                    } else if x.xs == y.xs {
                        bf_const(z)
                    } else {
                        bad = true;
                        bads.push((out.len(), x.clone(), y.clone()));
                        bf_const(false)
                    }
                }
                _ => unreachable!(),
            };
            out.push(r);
        }
        if bad {
            let name = if op == '&' { "and" } else { "or" };
            if w == 1 {
                // boolean combination
                let (x, y) = (a, b);
                let pr = {
                    // x*y over 0/1 values is x&y
                    let m = mul(x, y);
                    self.sq(m)
                };
                return if op == '&' { pr } else { sub(add(x, y), pr) };
            }
            if bads.len() == 1 && !(signed && bads[0].0 + 1 == w as usize) {
                let (k, x, y) = &bads[0];
                let (x, y) = (self.from_bits(std::slice::from_ref(x), false), self.from_bits(std::slice::from_ref(y), false));
                let m = mul(x, y);
                let pr = self.sq(m);
                let r = if op == '&' { pr } else { sub(add(x, y), pr) };
                return add(self.from_bits(&out, signed), mulc(r, 1 << k));
            }
            let (mut x, mut y) = (a, b);
            if y < x {
                std::mem::swap(&mut x, &mut y);
            }
            let (lo, mut hi) = wrange(w, signed);
            let mut lo2 = lo;
            let (al, ah) = self.ival(a);
            let (bl, bh) = self.ival(b);
            if al >= 0 && bl >= 0 {
                lo2 = if op == '&' { 0 } else { al.max(bl) };
                hi = if op == '&' { ah.min(bh) } else { (1i128 << bitlen(ah.max(bh))) - 1 };
            } else if op == '&' && al >= 0 {
                lo2 = 0;
                hi = ah;
            } else if op == '&' && bl >= 0 {
                lo2 = 0;
                hi = bh;
            }
            return at(AK::Op { op: name, args: vec![x, y], lo: lo2, hi });
        }
        self.from_bits(&out, signed)
    }
    /// Reduce squares of 0/1 atoms.
    fn sq(&self, t: T) -> T {
        let mut v = vec![];
        for &(m, c) in poly(t) {
            let mut ms = mono(m).to_vec();
            ms.dedup_by(|x, y| x == y && arange(*x) == (0, 1));
            v.push((mk_mono(ms), c));
        }
        let mut h: HashMap<M, i128> = HashMap::new();
        for (m, c) in v {
            *h.entry(m).or_insert(0) += c;
        }
        intern(h.into_iter().collect())
    }
    /// If t is divisible by 2^e for a symbolic e: e.
    fn pow2_mult(&self, t: T) -> Option<T> {
        let mut e = None;
        let mut p = t;
        if let Some(a) = as_atom(t) {
            if let AK::Wrap { p: q, .. } = atom(a) {
                p = *q;
            }
        }
        if poly(p).is_empty() {
            return None;
        }
        for &(m, _) in poly(p) {
            let mut f = None;
            for &a in mono(m) {
                if let AK::Pow2 { e } = atom(a) {
                    f = Some(*e);
                }
            }
            if f.is_none() || (e.is_some() && e != f) {
                return None;
            }
            e = f;
        }
        e
    }
    fn lt_pow2(&self, t: T, e: T) -> bool {
        if let Some(a) = as_atom(t) {
            if let AK::SRunV { n, .. } = atom(a) {
                return *n == e;
            }
        }
        let p2 = self.pow2(e);
        self.ival(t).0 >= 0 && self.proves_ge0(addc(sub(p2, t), -1))
    }
    pub fn pow2(&self, e: T) -> T {
        if let Some(c) = konst(e) {
            return int(1i128 << c.clamp(0, 120));
        }
        // 2^(c+x) = 2^c * 2^x
        let c = cpart(e);
        if c > 0 && c < 100 {
            let x = addc(e, -c);
            if self.ival(x).0 >= 0 {
                return mulc(at(AK::Pow2 { e: x }), 1i128 << c);
            }
        }
        at(AK::Pow2 { e })
    }
    pub fn not(&self, a: T, w: u8, signed: bool) -> T {
        if signed { sub(int(-1), a) } else { sub(int(wrange(w, false).1), a) }
    }
    pub fn shl(&self, a: T, k: T, w: u8, signed: bool) -> T {
        let p2 = self.pow2(k);
        let r = mul(a, p2);
        let r = self.cancel_pow2(r);
        self.wrap(w, signed, r)
    }
    /// x * 2^e * floor(y / 2^e) etc. are left alone; 2^a*2^b merges.
    fn cancel_pow2(&self, t: T) -> T {
        let mut acc = int(0);
        let mut ch = false;
        for &(m, c) in poly(t) {
            let ms = mono(m);
            let ps: Vec<A> = ms.iter().cloned().filter(|&a| matches!(atom(a), AK::Pow2 { .. })).collect();
            if ps.len() >= 2 {
                let mut e = int(0);
                let mut rest = vec![];
                for &a in ms {
                    if let AK::Pow2 { e: x } = atom(a) {
                        e = add(e, *x);
                    } else {
                        rest.push(a);
                    }
                }
                ch = true;
                acc = add(acc, mul(intern(vec![(mk_mono(rest), c)]), self.pow2(e)));
            } else {
                acc = add(acc, intern(vec![(m, c)]));
            }
        }
        if ch { acc } else { t }
    }
    /// floor(a / 2^k) for the value a (two's complement arithmetic shift; logical for a >= 0).
    pub fn shr(&self, a: T, k: T, w: u8, signed: bool) -> T {
        let k = match konst(k) {
            Some(c) => c,
            None => {
                return self.shr_sym(a, k, w, signed);
            }
        };
        if k == 0 {
            return a;
        }
        if let Some(c) = konst(a) {
            return int(c >> k.clamp(0, 126));
        }
        self.floordiv2(a, k as u8, w, signed)
    }
    fn shr_sym(&self, a: T, k: T, w: u8, signed: bool) -> T {
        if a == int(0) {
            return a;
        }
        // exact division by 2^k
        let mut ok = true;
        let mut acc = int(0);
        for &(m, c) in poly(a) {
            let ms = mono(m);
            if let Some(j) = ms.iter().position(|&x| matches!(atom(x), AK::Pow2 { e } if *e == k)) {
                let mut r = ms.to_vec();
                r.remove(j);
                acc = add(acc, intern(vec![(mk_mono(r), c)]));
            } else {
                ok = false;
            }
        }
        if ok {
            return acc;
        }
        // sign extension: (v << (W-b)) as signed >> (W-b)
        if let Some(x) = as_atom(a) {
            if let AK::Wrap { w: ww, signed: sg, p } = atom(x) {
                let mut ok = true;
                let mut acc = int(0);
                for &(m, c) in poly(*p) {
                    let ms = mono(m);
                    if let Some(j) = ms.iter().position(|&x| matches!(atom(x), AK::Pow2 { e } if *e == k)) {
                        let mut r = ms.to_vec();
                        r.remove(j);
                        acc = add(acc, intern(vec![(mk_mono(r), c)]));
                    } else {
                        ok = false;
                    }
                }
                if ok && *ww == w && *sg == signed {
                    let (lo, hi) = wrange(w, signed);
                    let b = sub(int(w as i128), k);
                    let name = if signed { "sext" } else { "zext" };
                    return at(AK::Op { op: name, args: vec![acc, b], lo, hi });
                }
            }
        }
        let (l, h) = self.ival(a);
        let (lo, hi) = wrange(w, signed);
        let (l, h) = (l.min(0).max(lo), h.max(0).min(hi));
        at(AK::Op { op: "shr", args: vec![a, k], lo: l, hi: h })
    }
    pub fn floordiv2(&self, a: T, k: u8, w: u8, signed: bool) -> T {
        let m2 = 1i128 << k;
        // q * 2^k + r with r in [0, 2^k)
        let mut q = int(0);
        let mut r = int(0);
        for &(m, c) in poly(a) {
            if m == M1 {
                q = addc(q, c.div_euclid(m2));
                r = addc(r, c.rem_euclid(m2));
            } else if c % m2 == 0 {
                q = add(q, intern(vec![(m, c / m2)]));
            } else {
                r = add(r, intern(vec![(m, c)]));
            }
        }
        let (rl, rh) = self.ival(r);
        if rl >= 0 && rh < m2 {
            return q;
        }
        // floor of the remainder if it is within one multiple
        let fq = rl.div_euclid(m2);
        if rh.div_euclid(m2) == fq && rl > i128::MIN / 8 && rh < i128::MAX / 8 {
            return addc(q, fq);
        }
        // Wrap(w, 2^k q) >> k = Wrap(w-k, q), after splitting odd parts
        if let Some(x) = as_atom(a) {
            if let AK::Wrap { w: ww, signed: sg, p } = atom(x) {
                if *ww > k {
                    let p2 = self.split_low(*p, k);
                    if poly(p2).iter().all(|&(_, c)| c % m2 == 0) {
                        let q = intern(poly(p2).iter().map(|&(m, c)| (m, c / m2)).collect());
                        return self.wrap(*ww - k, *sg, q);
                    }
                }
            }
        }
        let a2 = self.split_low(a, k);
        if a2 != a {
            let mut q = int(0);
            let mut r = int(0);
            for &(m, c) in poly(a2) {
                if m == M1 {
                    q = addc(q, c.div_euclid(m2));
                    r = addc(r, c.rem_euclid(m2));
                } else if c % m2 == 0 {
                    q = add(q, intern(vec![(m, c / m2)]));
                } else {
                    r = add(r, intern(vec![(m, c)]));
                }
            }
            let (rl, rh) = self.ival(r);
            if rl >= 0 && rh < m2 {
                return q;
            }
        }
        // by bits
        if let Some(b) = self.bits_strict(a, w) {
            let opaque = b.iter().all(|x| x.xs.len() == 1 && matches!(atom(x.xs[0].0), AK::Wrap { .. }));
            if !opaque {
                let k = k as usize;
                let n = b.len();
                if k < n {
                    let mut o: Vec<BF> = b[k..].to_vec();
                    if signed {
                        while o.len() < n {
                            let l = o[o.len() - 1].clone();
                            o.push(l);
                        }
                    } else {
                        while o.len() < n {
                            o.push(bf_const(false));
                        }
                    }
                    return self.from_bits(&o, signed);
                }
                return int(0);
            } else if !signed && (k as usize) < b.len() {
                let mut o: Vec<BF> = b[k as usize..].to_vec();
                while o.len() < b.len() {
                    o.push(bf_const(false));
                }
                return self.from_bits(&o, false);
            }
        }
        let (l, h) = self.ival(a);
        at(AK::Op { op: "shr", args: vec![a, int(k as i128)], lo: l >> k, hi: h >> k })
    }
    /// Replace signed/wrapped atoms x with odd coefficients by low(x,k) + 2^k * (x >> k).
    fn split_low(&self, t: T, k: u8) -> T {
        let m2 = 1i128 << k;
        let has_low: Vec<A> = poly(t)
            .iter()
            .filter(|&&(m, c)| c % m2 != 0 && mono(m).len() == 1)
            .map(|&(m, _)| mono(m)[0])
            .collect();
        if has_low.len() < 2 {
            return t;
        }
        let mut acc = int(0);
        for &(m, c) in poly(t) {
            let ms = mono(m);
            if c % m2 != 0 && ms.len() == 1 {
                let a = ms[0];
                let splittable = match atom(a) {
                    AK::Elem { .. } | AK::Sym { .. } | AK::Op { .. } | AK::Mu { .. } | AK::SelfV { .. } | AK::Wrap { .. } => true,
                    _ => false,
                };
                if let AK::SRun { n, .. } = atom(a) {
                    if *n > k as u32 {
                        acc = add(acc, mulc(self.field(a, 0, k), c));
                        acc = add(acc, mulc(self.field(a, k, *n as u8 - k), c * m2));
                        continue;
                    }
                }
                if splittable {
                    let low = self.low(var(a), k);
                    let (l, h) = arange(a);
                    let hi = at(AK::Op { op: "shr", args: vec![var(a), int(k as i128)], lo: l >> k, hi: h >> k });
                    acc = add(acc, mulc(low, c));
                    acc = add(acc, mulc(hi, c * m2));
                    continue;
                }
            }
            acc = add(acc, intern(vec![(m, c)]));
        }
        acc
    }
    fn low(&self, t: T, k: u8) -> T {
        let (l, h) = self.ival(t);
        let mut w = 8;
        while w < 64 && (w < k || !(l >= -(1i128 << (w - 1)) && h < (1i128 << (w - 1)))) {
            w *= 2;
        }
        let b = self.bits(t, w);
        self.from_bits(&b[..k as usize], false)
    }
    pub fn div(&self, a: T, b: T, w: u8, signed: bool) -> T {
        if let (Some(x), Some(y)) = (konst(a), konst(b)) {
            if y != 0 {
                return int(x / y);
            }
        }
        if konst(b) == Some(1) {
            return a;
        }
        if let Some(c) = konst(b) {
            if c > 0 && (c as u128).is_power_of_two() {
                let k = c.trailing_zeros() as u8;
                if self.proves_ge0(a) {
                    return self.floordiv2(a, k, w, signed);
                }
                // truncation equals floor for exact multiples
                let f = self.floordiv2(a, k, w, signed);
                let exact = |t: T| poly(t).iter().all(|&(_, x)| x % c == 0);
                let is_exact = exact(a)
                    || exact(self.split_low(a, k))
                    || match as_atom(a).map(atom) {
                        Some(AK::Wrap { w: ww, p, .. }) if *ww > k => exact(self.split_low(*p, k)),
                        _ => false,
                    };
                if is_exact {
                    return f;
                }
            }
            if c > 1 {
                let mut q = int(0);
                let mut r = int(0);
                for &(m, x) in poly(a) {
                    if x % c == 0 {
                        q = add(q, intern(vec![(m, x / c)]));
                    } else if m == M1 {
                        q = addc(q, x.div_euclid(c));
                        r = addc(r, x.rem_euclid(c));
                    } else {
                        r = add(r, intern(vec![(m, x)]));
                    }
                }
                let (rl, rh) = self.ival(r);
                if self.proves_ge0(a) && rl >= 0 && rh < c {
                    return q;
                }
            }
        }
        // exact division by an atom or polynomial factor
        if let Some(q) = exact_div(a, b) {
            return q;
        }
        let (l, h) = self.ival(a);
        let (bl, _) = self.ival(b);
        let (lo, hi) = wrange(w, signed);
        let r = if l >= 0 && bl >= 1 { (0, h / bl) } else { (lo.max(-h.abs().max(l.abs())), hi.min(h.abs().max(l.abs()))) };
        at(AK::Op { op: "div", args: vec![a, b], lo: r.0, hi: r.1 })
    }
    pub fn rem(&self, a: T, b: T, w: u8, signed: bool) -> T {
        if let (Some(x), Some(y)) = (konst(a), konst(b)) {
            if y != 0 {
                return int(x % y);
            }
        }
        if let Some(c) = konst(b) {
            if c > 0 && (c as u128).is_power_of_two() && self.proves_ge0(a) {
                let q = self.floordiv2(a, c.trailing_zeros() as u8, w, signed);
                return sub(a, mulc(q, c));
            }
        }
        if exact_div(a, b).is_some() {
            return int(0);
        }
        let (l, h) = self.ival(a);
        let (_, bh) = self.ival(b);
        let (lo, hi) = wrange(w, signed);
        let r = if l >= 0 { (0, h.min(bh.max(1) - 1)) } else { (lo, hi) };
        at(AK::Op { op: "rem", args: vec![a, b], lo: r.0, hi: r.1 })
    }

    // ------------------------------------------------------------ conditions

    pub fn ge0(&self, p: T) -> T {
        let (l, h) = self.ival(p);
        if l >= 0 {
            return int(1);
        }
        if h < 0 {
            return int(0);
        }
        if let Some(b) = self.as_boolset(|e, v| e(p, v) >= 0, p) {
            return b;
        }
        // normalise by gcd
        let p = norm_ge(p);
        let q = poly(p);
        let lead = q.iter().find(|x| x.0 != M1).unwrap();
        if lead.1 < 0 {
            return sub(int(1), at(AK::Ge0(norm_ge(addc(mulc(p, -1), -1)))));
        }
        at(AK::Ge0(p))
    }
    pub fn eq0(&self, p: T) -> T {
        let (l, h) = self.ival(p);
        if l > 0 || h < 0 {
            return int(0);
        }
        if l == 0 && h == 0 {
            return int(1);
        }
        if let Some(b) = self.as_boolset(|e, v| e(p, v) == 0, p) {
            return b;
        }
        // canonicalise bit fields
        let q = poly(p);
        let mut g = 0i128;
        for &(m, c) in q {
            if m != M1 {
                g = gcd(g, c.abs());
            }
        }
        let c0 = cpart(p);
        if g != 0 && c0 % g != 0 {
            return int(0);
        }
        // parity: wrapped sums cannot be compared further
        let lead = q.iter().find(|x| x.0 != M1).unwrap();
        let s = if lead.1 < 0 { -1 } else { 1 };
        let p = intern(q.iter().map(|&(m, c)| (m, c / g * s)).collect());
        // a one-bit atom compared with a constant
        if let Some(a) = q.iter().find(|x| x.0 != M1).map(|x| x.0).filter(|&m| q.len() <= 2 && mono(m).len() == 1).map(|m| mono(m)[0]) {
            if arange(a) == (0, 1) && poly(p).iter().all(|&(m, c)| m == M1 || c == 1) {
                return match -cpart(p) {
                    0 => sub(int(1), var(a)),
                    1 => var(a),
                    _ => int(0),
                };
            }
        }
        at(AK::Eq0(p))
    }
    fn as_boolset(&self, f: impl Fn(&dyn Fn(T, usize) -> i128, usize) -> bool, p: T) -> Option<T> {
        let root = single_root(p)?;
        if as_atom(p) == Some(root) && arange(root) == (0, 1) {
            // fall through to table as well
        }
        let tb = table(p, root);
        let look = |_: T, v: usize| tb[v];
        let mut set = [0u64; 4];
        let n = arange(root).1 as usize + 1;
        for v in 0..n {
            if f(&look, v) {
                vs_set(&mut set, v);
            }
        }
        Some(mk_boolset(root, set))
    }
    pub fn lt(&self, a: T, b: T) -> T {
        self.ge0(addc(sub(b, a), -1))
    }
    pub fn le(&self, a: T, b: T) -> T {
        self.ge0(sub(b, a))
    }
    pub fn eq(&self, a: T, b: T) -> T {
        if a == b {
            return int(1);
        }
        self.eq0(sub(a, b))
    }

    // ------------------------------------------------------------ normalisation

    pub fn norm(&self, t: T) -> T {
        if self.smask & mask(t) == 0 {
            return t;
        }
        let mut memo = HashMap::new();
        let r = self.norm_memo(t, &mut memo);
        r
    }
    fn norm_memo(&self, t: T, memo: &mut HashMap<T, T>) -> T {
        if self.smask & mask(t) == 0 {
            return t;
        }
        if let Some(&r) = self.cache.borrow().get(&t) {
            return r;
        }
        // a term over one finite root whose value set fixes it
        if let Some(root) = single_root(t) {
            if let Some(vs) = self.vs.get(&root) {
                let tb = table(t, root);
                let mut it = (0..tb.len()).filter(|&v| vs_has(vs, v)).map(|v| tb[v]);
                if let Some(x) = it.next() {
                    if it.all(|y| y == x) {
                        self.cache.borrow_mut().insert(t, int(x));
                        return int(x);
                    }
                }
            }
        }
        let mut acc = int(0);
        for &(m, c) in poly(t) {
            let ms = mono(m);
            if ms.iter().all(|&a| amask(a) & self.smask == 0) {
                acc = add(acc, intern(vec![(m, c)]));
                continue;
            }
            let mut r = int(c);
            for &a in ms {
                r = mul(r, self.norm_atom(a, memo));
            }
            acc = add(acc, r);
        }
        let acc = self.sq_if_bool(acc);
        self.cache.borrow_mut().insert(t, acc);
        acc
    }
    fn sq_if_bool(&self, t: T) -> T {
        if poly(t).iter().any(|&(m, _)| mono(m).len() > 1) {
            self.sq(t)
        } else {
            t
        }
    }
    fn norm_atom(&self, a: A, memo: &mut HashMap<T, T>) -> T {
        if overtime() {
            return var(a);
        }
        if amask(a) & self.smask == 0 {
            return var(a);
        }
        if let Some(&s) = self.subst.get(&a) {
            return self.norm_memo(s, memo);
        }
        if let Some(root) = single_root(var(a)) {
            if let Some(vs) = self.vs.get(&root) {
                let tb = table(var(a), root);
                let mut it = (0..tb.len()).filter(|&v| vs_has(vs, v)).map(|v| tb[v]);
                if let Some(x) = it.next() {
                    if it.all(|y| y == x) {
                        return int(x);
                    }
                }
            }
        }
        let k = atom(a);
        if let AK::Field { a: p, lo, len } = k {
            if let Some(t) = self.known_field(*p, *lo, *len) {
                return t;
            }
        }
        if self.known.contains_key(&a) {
            let w = bitlen(arange(a).1);
            if w <= 64 {
                return self.known_field(a, 0, w).unwrap();
            }
        }
        if kids(k).iter().all(|&t| mask(t) & self.smask == 0) && akids(k).iter().all(|&t| amask(t) & self.smask == 0) {
            return var(a);
        }
        self.rebuild(a, &mut |t| self.norm_memo(t, memo), &mut |x| {
            let mut m2 = HashMap::new();
            self.norm_atom(x, &mut m2)
        })
    }
    /// Rebuild an atom with its children mapped, through the smart constructors.
    pub fn rebuild(&self, a: A, f: &mut dyn FnMut(T) -> T, fa: &mut dyn FnMut(A) -> T) -> T {
        match atom(a).clone() {
            AK::Byte { src, pos } => at(AK::Byte { src, pos: f(pos) }),
            AK::SRun { src, pos, n } => at(AK::SRun { src, pos: f(pos), n }),
            AK::SRunV { src, pos, n } => {
                let n = f(n);
                let pos = f(pos);
                srun(src, pos, n)
            }
            AK::Unary { src, pos } => at(AK::Unary { src, pos: f(pos) }),
            AK::Elem { arr, idx, lo, hi } => at(AK::Elem { arr, idx: f(idx), lo, hi }),
            AK::Field { a: p, lo, len } => {
                let v = fa(p);
                if v == var(p) {
                    return var(a);
                }
                let w = bitlen(arange(p).1).max(lo + len);
                let b = self.bits(v, w.min(64));
                self.from_bits(&b[lo as usize..(lo + len) as usize], false)
            }
            AK::XBit(xs) => {
                let mut acc = bf_const(false);
                let mut same = true;
                for (p, i) in &xs {
                    if let Some(&(km, kv)) = self.known.get(p) {
                        if km >> i & 1 != 0 {
                            acc.c ^= kv >> i & 1 != 0;
                            same = false;
                        } else {
                            acc = bf_xor(&acc, &BF { c: false, xs: vec![(*p, *i)] });
                        }
                        continue;
                    }
                    if let Some(vs) = self.vs.get(p) {
                        let mut it = (0..256usize).filter(|&v| vs_has(vs, v)).map(|v| v >> i & 1);
                        if let Some(x) = it.next() {
                            if it.all(|y| y == x) {
                                acc.c ^= x != 0;
                                same = false;
                                continue;
                            }
                        }
                    }
                    let v = fa(*p);
                    if v == var(*p) {
                        acc = bf_xor(&acc, &BF { c: false, xs: vec![(*p, *i)] });
                    } else {
                        same = false;
                        let b = self.bits(v, (i + 1).max(bitlen(arange(*p).1)).min(64));
                        acc = bf_xor(&acc, &b[*i as usize]);
                    }
                }
                if same {
                    return var(a);
                }
                self.from_bits(&[acc], false)
            }
            AK::Wrap { w, signed, p } => {
                let q = f(p);
                self.wrap(w, signed, q)
            }
            AK::Pow2 { e } => {
                let e = f(e);
                self.pow2(e)
            }
            AK::Op { op, args, lo, hi } => {
                let n: Vec<T> = args.iter().map(|&x| f(x)).collect();
                self.mk_op(op, n, lo, hi)
            }
            AK::Ge0(p) => {
                let q = f(p);
                self.ge0(q)
            }
            AK::Eq0(p) => {
                let q = f(p);
                self.eq0(q)
            }
            AK::Mu { init, body, k, lo, hi } => {
                let (i, b, k) = (f(init), f(body), f(k));
                mu(i, b, k, lo, hi)
            }
            AK::Tab { root, vals } => {
                let v = fa(root);
                if v == var(root) {
                    return var(a);
                }
                if let Some(c) = konst(v) {
                    return int(vals[c as usize]);
                }
                if let Some(r2) = single_root(v) {
                    let tb = table(v, r2);
                    return mk_tab(r2, tb.iter().map(|&x| if x >= 0 && (x as usize) < vals.len() { vals[x as usize] } else { vals[0] }).collect());
                }
                let (lo, hi) = arange(a);
                let mut args = vec![v];
                args.extend(vals.iter().map(|&x| int(x)));
                at(AK::Op { op: "tab", args, lo, hi })
            }
            AK::BoolSet { root, set } => {
                let v = fa(root);
                if v == var(root) {
                    return var(a);
                }
                if let Some(c) = konst(v) {
                    return int(vs_has(&set, c as usize) as i128);
                }
                // one root is a bit field of another now
                if let Some(r2) = single_root(v) {
                    let tb = table(v, r2);
                    let mut s2 = [0u64; 4];
                    for (i, &x) in tb.iter().enumerate() {
                        if x >= 0 && x < 256 && vs_has(&set, x as usize) {
                            vs_set(&mut s2, i);
                        }
                    }
                    return mk_boolset(r2, s2);
                }
                at(AK::Op { op: "member", args: vec![v, int(set[0] as i128), int(set[1] as i128), int(set[2] as i128), int(set[3] as i128)], lo: 0, hi: 1 })
            }
            AK::Sym { .. } | AK::SelfV { .. } | AK::Idx { .. } => var(a),
        }
    }
    pub fn mk_op(&self, op: &'static str, n: Vec<T>, lo: i128, hi: i128) -> T {
        match op {
            "shr" => {
                let (w, s) = fit(lo, hi);
                return self.shr(n[0], n[1], w, s);
            }
            "and" | "or" => {
                let (w, s) = fit(lo, hi);
                return self.bitop(if op == "and" { '&' } else { '|' }, n[0], n[1], w, s);
            }
            "div" => {
                let (w, s) = fit(lo, hi);
                return self.div(n[0], n[1], w, s);
            }
            "rem" => {
                let (w, s) = fit(lo, hi);
                return self.rem(n[0], n[1], w, s);
            }
            "clz" => {
                if let (Some(x), Some(w)) = (konst(n[0]), konst(n[1])) {
                    return int((w as u32 - (128 - (x as u128).leading_zeros())) as i128);
                }
            }
            "min" => return self.min(n[0], n[1]),
            "sext" => {
                if let Some(b) = konst(n[1]) {
                    if b >= 1 && b <= 64 {
                        let bits = self.bits(n[0], b as u8);
                        return self.from_bits(&bits, true);
                    }
                }
            }
            "zext" => {
                if let Some(b) = konst(n[1]) {
                    let bits = self.bits(n[0], b as u8);
                    return self.from_bits(&bits, false);
                }
            }
            _ => {}
        }
        at(AK::Op { op, args: n, lo, hi })
    }
    pub fn min(&self, a: T, b: T) -> T {
        if a == b || self.proves_ge0(sub(b, a)) {
            return a;
        }
        if self.proves_ge0(sub(a, b)) {
            return b;
        }
        let (al, ah) = self.ival(a);
        let (bl, bh) = self.ival(b);
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        at(AK::Op { op: "min", args: vec![x, y], lo: al.min(bl), hi: ah.min(bh) })
    }

    // ------------------------------------------------------------ entailment

    pub fn proves_ge0(&self, p: T) -> bool {
        let (l, h) = self.ival(p);
        if l >= 0 {
            return true;
        }
        if h < 0 || (self.ges.is_empty() && self.smask == 0) {
            return false;
        }
        let p = self.norm(p);
        let mut budget = 400;
        self.ent(p, 4, &mut budget)
    }
    fn ent(&self, p: T, depth: u32, budget: &mut i32) -> bool {
        let (l, _) = self.ival(p);
        if l >= 0 {
            return true;
        }
        *budget -= 1;
        if depth == 0 || *budget <= 0 || poly(p).len() > 200 || overtime() {
            return false;
        }
        // intrinsic facts of min(): min(a,b) <= a, b
        for &(m, c) in poly(p) {
            if m == M1 {
                continue;
            }
            // only try to cancel terms that pull the lower bound down
            let one = intern(vec![(m, c)]);
            let (tl, th) = self.ival(one);
            if tl == th {
                continue;
            }
            let ms = mono(m);
            for (j, &a) in ms.iter().enumerate() {
                match atom(a) {
                    AK::Op { op: "min", args, .. } if c < 0 => {
                        let mut rest = ms.to_vec();
                        rest.remove(j);
                        if rest.iter().any(|&x| self.arange(x).0 < 0) {
                            continue;
                        }
                        let r = intern(vec![(mk_mono(rest), c)]);
                        for &g in args {
                            let q = add(sub(p, one), mul(r, g));
                            if self.ent(q, depth - 1, budget) {
                                return true;
                            }
                        }
                    }
                    AK::Op { op: "div", args, .. } if c < 0 && ms.len() == 1 => {
                        // c*(a/b) >= c*a' when a/b*b <= a: if c*... handle b const
                        if let Some(b) = konst(args[1]) {
                            if b > 0 && self.ival(args[0]).0 >= 0 {
                                // a/b <= a/b (real): b*(a/b) <= a
                                let q = add(mulc(sub(p, one), b), mulc(args[0], c));
                                if self.ent(q, depth - 1, budget) {
                                    return true;
                                }
                            }
                        }
                    }
                    AK::Op { op: "shr", args, .. } if c < 0 && ms.len() == 1 => {
                        if let Some(b) = konst(args[1]) {
                            if b < 60 {
                                let q = add(mulc(sub(p, one), 1 << b), mulc(args[0], c));
                                if self.ent(q, depth - 1, budget) {
                                    return true;
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            for &f in &self.ges {
                if mask(f) & mask(one) == 0 {
                    continue;
                }
                for &(fm, fc) in poly(f) {
                    if fm == M1 || (fc < 0) != (c < 0) {
                        continue;
                    }
                    // p's monomial must be fm times non-negative atoms
                    let fms = mono(fm);
                    let mut rest = ms.to_vec();
                    let mut ok = true;
                    for x in fms {
                        match rest.iter().position(|y| y == x) {
                            Some(i) => {
                                rest.remove(i);
                            }
                            None => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if !ok || rest.iter().any(|&x| self.arange(x).0 < 0) {
                        continue;
                    }
                    // scale so that fm cancels: p*|fc| - f*|c|*rest
                    let g = gcd(c.abs(), fc.abs());
                    let (sp, sf) = (fc.abs() / g, c.abs() / g);
                    let q = sub(mulc(p, sp), mul(mulc(f, sf), intern(vec![(mk_mono(rest), 1)])));
                    if poly(q).len() > poly(p).len() + 6 {
                        continue;
                    }
                    if self.ent(q, depth - 1, budget) {
                        return true;
                    }
                }
            }
        }
        false
    }
    pub fn proves_eq0(&self, p: T) -> bool {
        let p = self.norm(p);
        if p == int(0) {
            return true;
        }
        canon(p) == int(0) || (self.proves_ge0(p) && self.proves_ge0(mulc(p, -1)))
    }
    pub fn decide(&self, c: T) -> Option<bool> {
        if let Some(k) = konst(c) {
            return Some(k != 0);
        }
        if let Some(&b) = self.lits.get(&c) {
            return Some(b);
        }
        let c = self.norm(c);
        if let Some(k) = konst(c) {
            return Some(k != 0);
        }
        let (l, h) = self.ival(c);
        if l == h {
            return Some(l != 0);
        }
        let (neg, a) = match lit(c) {
            Some(x) => x,
            None => return None,
        };
        match atom(a) {
            AK::Ge0(p) => {
                if self.proves_ge0(*p) {
                    return Some(!neg);
                }
                if self.proves_ge0(addc(mulc(*p, -1), -1)) {
                    return Some(neg);
                }
                None
            }
            AK::Eq0(p) => {
                let np = mulc(*p, -1);
                if self.nes.iter().any(|&x| x == *p || x == np) {
                    return Some(neg);
                }
                if self.proves_ge0(addc(*p, -1)) || self.proves_ge0(addc(np, -1)) {
                    return Some(neg);
                }
                let cp = canon(*p);
                if cp == int(0) {
                    return Some(!neg);
                }
                if self.nes.iter().any(|&x| {
                    let cx = canon(x);
                    cx == cp || cx == mulc(cp, -1)
                }) {
                    return Some(neg);
                }
                if self.proves_ge0(*p) && self.proves_ge0(np) {
                    return Some(!neg);
                }
                None
            }
            _ => None,
        }
    }
    fn set_subst(&mut self, a: A, t: T) {
        self.touch();
        self.known.remove(&a);
        self.subst.insert(a, t);
        self.smask |= 1u128 << (a.0 % 127);
    }
    /// Assume boolean term `c` is `want`. False if infeasible.
    pub fn assume(&mut self, c: T, want: bool) -> bool {
        if konst(c).is_none() {
            self.lits.insert(c, want);
            self.lits.insert(sub(int(1), c), !want);
        }
        if !self.assume1(c, want) {
            self.dead = true;
            return false;
        }
        true
    }
    fn assume1(&mut self, c: T, want: bool) -> bool {
        let c = self.norm(c);
        if let Some(k) = konst(c) {
            return (k != 0) == want;
        }
        if let Some(root) = single_root(c) {
            let tb = table(c, root);
            return self.filter_root(root, |v| (tb[v] != 0) == want);
        }
        if let Some((neg, a)) = lit(c) {
            let want = want != neg;
            match atom(a).clone() {
                AK::Ge0(p) => {
                    return if want { self.add_ge(p) } else { self.add_ge(addc(mulc(p, -1), -1)) };
                }
                AK::Eq0(p) => {
                    return if want { self.add_eq(p) } else { self.add_ne(p) };
                }
                _ => {
                    return self.add_eq(addc(var(a), -(want as i128)));
                }
            }
        }
        // conjunctions of literals: product
        let p = poly(c);
        if want && p.len() == 1 && p[0].1 == 1 {
            for &a in mono(p[0].0) {
                if !self.assume1(var(a), true) {
                    return false;
                }
            }
            return true;
        }
        // disjunction negated: all factors false
        let nc = sub(int(1), c);
        if !want {
            let p = poly(nc);
            if p.len() == 1 && p[0].1 == 1 {
                return self.assume1(nc, true);
            }
        }
        self.add_eq(addc(c, -(want as i128)))
    }
    pub fn filter_root(&mut self, root: A, f: impl Fn(usize) -> bool) -> bool {
        let n = arange(root).1 as usize + 1;
        let (blo, bhi) = self.bounds.get(&root).cloned().unwrap_or((0, 255));
        let old = self.vs.get(&root).cloned();
        let mut s = [0u64; 4];
        let mut cnt = 0;
        let mut last = 0;
        let mut ocnt = 0;
        for v in 0..n {
            if (v as i128) < blo || v as i128 > bhi {
                continue;
            }
            if old.map(|o| vs_has(&o, v)).unwrap_or(true) {
                ocnt += 1;
                if f(v) {
                    vs_set(&mut s, v);
                    cnt += 1;
                    last = v;
                }
            }
        }
        if cnt == 0 {
            return false;
        }
        if cnt == ocnt && old.is_some() {
            return true;
        }
        self.touch();
        self.vs.insert(root, s);
        self.smask |= 1u128 << (root.0 % 127);
        if cnt == 1 {
            self.known.remove(&root);
            self.set_subst(root, int(last as i128));
        } else {
            let (mut and, mut or) = (255u64, 0u64);
            for v in (0..n).filter(|&v| vs_has(&s, v)) {
                and &= v as u64;
                or |= v as u64;
            }
            let km = (and | !or) & ((1u64 << bitlen(n as i128 - 1)) - 1);
            if km != 0 {
                self.touch();
                self.known.insert(root, (km, and & km));
            }
        }
        self.propagate(amask(root))
    }
    fn propagate(&mut self, touched: u128) -> bool {
        let hit = |t: &T| mask(*t) & touched != 0;
        let mut again: Vec<(u8, T)> = vec![];
        let env = self.clone();
        for (k, v) in [(0u8, &mut self.ges), (1, &mut self.nes), (2, &mut self.eqs)] {
            let mut keep = vec![];
            for t in v.drain(..) {
                if hit(&t) {
                    let n = env.norm(t);
                    if n != t {
                        again.push((k, n));
                        continue;
                    }
                }
                keep.push(t);
            }
            *v = keep;
        }
        // substituted definitions must stay in range
        for (k, t) in again {
            let ok = match k {
                0 => self.add_ge(t),
                1 => self.add_ne(t),
                _ => self.add_eq(t),
            };
            if !ok {
                return false;
            }
        }
        // substitutions whose definition changed: range check
        let subs: Vec<(A, T)> = self.subst.iter().filter(|(_, t)| mask(**t) & touched != 0).map(|(a, t)| (*a, *t)).collect();
        for (a, t) in subs {
            let (lo, hi) = arange(a);
            let n = self.norm(t);
            let (l, h) = self.ival(n);
            if h < lo || l > hi {
                return false;
            }
        }
        true
    }
    pub fn add_ge(&mut self, p: T) -> bool {
        let p = self.norm(p);
        let (l, h) = self.ival(p);
        if l >= 0 {
            return true;
        }
        if h < 0 {
            return false;
        }
        if let Some(root) = single_root(p) {
            let tb = table(p, root);
            return self.filter_root(root, |v| tb[v] >= 0);
        }
        let p = norm_ge(p);
        if self.ges.contains(&p) {
            return true;
        }
        if self.proves_ge0(addc(mulc(p, -1), -1)) {
            return false;
        }
        // single linear atom: bounds
        let q = poly(p);
        let nonc: Vec<_> = q.iter().filter(|x| x.0 != M1).collect();
        if nonc.len() == 1 && mono(nonc[0].0).len() == 1 {
            let a = mono(nonc[0].0)[0];
            let (c, k) = (nonc[0].1, cpart(p));
            let (mut bl, mut bh) = self.arange(a);
            if c > 0 {
                // c*a + k >= 0  =>  a >= ceil(-k/c)
                bl = bl.max((-k + c - 1).div_euclid(c));
            } else {
                bh = bh.min(k.div_euclid(-c));
            }
            if bl > bh {
                return false;
            }
            self.touch();
            self.bounds.insert(a, (bl, bh));
            if bl == bh {
                return self.add_eq(addc(var(a), -bl));
            }
            return self.after_bounds(a);
        }
        self.touch();
        self.ges.push(p);
        let np = mulc(p, -1);
        if self.proves_ge0(np) {
            return self.add_eq(p);
        }
        // a disequality may sharpen it
        let nes: Vec<T> = self.nes.iter().cloned().filter(|&x| x == p || x == np).collect();
        if !nes.is_empty() {
            self.ges.pop();
            return self.add_ge(addc(p, -1));
        }
        true
    }
    fn after_bounds(&mut self, a: A) -> bool {
        // re-check facts on a
        let m = 1u128 << (a.0 % 127);
        let g: Vec<T> = self.ges.iter().cloned().filter(|&t| mask(t) & m != 0).collect();
        for t in g {
            if self.ival(t).1 < 0 {
                return false;
            }
        }
        let g: Vec<T> = self.nes.iter().cloned().filter(|&t| mask(t) & m != 0).collect();
        for t in g {
            let (l, h) = self.ival(t);
            if l == 0 && h == 0 {
                return false;
            }
            if (l == 0 || h == 0) && poly(t).iter().filter(|x| x.0 != M1).count() == 1 {
                self.touch();
                self.nes.retain(|&x| x != t);
                return self.add_ge(if l == 0 { addc(t, -1) } else { addc(mulc(t, -1), -1) });
            }
        }
        true
    }
    pub fn add_ne(&mut self, p: T) -> bool {
        let p = self.norm(p);
        if p == int(0) {
            return false;
        }
        let (l, h) = self.ival(p);
        if l > 0 || h < 0 {
            return true;
        }
        if let Some(root) = single_root(p) {
            let tb = table(p, root);
            return self.filter_root(root, |v| tb[v] != 0);
        }
        let np = mulc(p, -1);
        if self.proves_ge0(p) {
            return self.add_ge(addc(p, -1));
        }
        if self.proves_ge0(np) {
            return self.add_ge(addc(np, -1));
        }
        if canon(p) == int(0) {
            return false;
        }
        // a one-bit atom
        if let Some(a) = poly(p).iter().find(|x| x.0 != M1).filter(|x| poly(p).len() <= 2 && mono(x.0).len() == 1 && x.1.abs() == 1).map(|x| mono(x.0)[0]) {
            if arange(a) == (0, 1) {
                let c = poly(p).iter().find(|x| x.0 != M1).unwrap().1;
                let v = -cpart(p) * c;
                if v == 0 || v == 1 {
                    return self.add_eq(addc(var(a), -(1 - v)));
                }
            }
        }
        if !self.nes.contains(&p) {
            self.touch();
            self.nes.push(p);
        }
        true
    }
    pub fn add_eq(&mut self, p: T) -> bool {
        let p = self.norm(p);
        if p == int(0) {
            return true;
        }
        let (l, h) = self.ival(p);
        if l > 0 || h < 0 {
            return false;
        }
        let np = mulc(p, -1);
        if self.nes.iter().any(|&x| x == p || x == np) {
            return false;
        }
        if let Some(root) = single_root(p) {
            let tb = table(p, root);
            return self.filter_root(root, |v| tb[v] == 0);
        }
        if self.proves_ge0(addc(p, -1)) || self.proves_ge0(addc(np, -1)) {
            return false;
        }
        let q: Vec<(M, i128)> = poly(p).to_vec();
        let c0 = cpart(p);
        let mut g = 0;
        for &(m, c) in &q {
            if m != M1 {
                g = gcd(g, c.abs());
            }
        }
        if g > 1 {
            if c0 % g != 0 {
                return false;
            }
            return self.add_eq(intern(q.iter().map(|&(m, c)| (m, c / g)).collect()));
        }
        let nonc: Vec<(M, i128)> = q.iter().cloned().filter(|x| x.0 != M1).collect();
        // disjoint bit fields = constant
        if nonc.len() > 1 && nonc.iter().all(|x| mono(x.0).len() == 1 && arange(mono(x.0)[0]).0 >= 0) {
            for s in [1i128, -1] {
                let pos = sub(mulc(p, s), int(c0 * s));
                let k = -c0 * s;
                if poly(pos).iter().all(|x| x.1 > 0) {
                    let hi = Env::new().ival(pos).1;
                    if k < 0 || k > hi {
                        return false;
                    }
                    let w = bitlen(hi);
                    if w <= 64 {
                        let mut cover = 0u128;
                        let mut ok = true;
                        for &(m, c) in poly(pos) {
                            let a = mono(m)[0];
                            if c.count_ones() != 1 {
                                ok = false;
                                break;
                            }
                            let b = ((1u128 << bitlen(arange(a).1)) - 1) << c.trailing_zeros();
                            if cover & b != 0 {
                                ok = false;
                                break;
                            }
                            cover |= b;
                        }
                        if ok {
                            if (k as u128) & !cover != 0 {
                                return false;
                            }
                            for &(m, c) in poly(pos).to_vec().iter() {
                                let a = mono(m)[0];
                                let n = bitlen(arange(a).1);
                                let v = (k >> c.trailing_zeros()) & ((1i128 << n) - 1);
                                if !self.add_eq(addc(var(a), -v)) {
                                    return false;
                                }
                            }
                            return true;
                        }
                    }
                }
            }
        }
        // solve for an atom
        let mut best: Option<(u32, A, i128)> = None;
        for &(m, c) in &nonc {
            let ms = mono(m);
            if ms.len() != 1 || c.abs() != 1 {
                continue;
            }
            let a = ms[0];
            let bit = amask(a);
            let _ = bit;
            let mut occurs = false;
            for &(m2, _) in &nonc {
                for &b in mono(m2) {
                    if b != a && depends(b, a) {
                        occurs = true;
                    }
                    if b == a && (m2 != m) {
                        occurs = true;
                    }
                }
            }
            if occurs {
                continue;
            }
            let pri = match atom(a) {
                AK::Sym { lo, hi, .. } if hi - lo > 255 => 6,
                AK::Byte { .. } => 5,
                AK::Sym { .. } => 4,
                AK::XBit(_) => 3,
                AK::Field { .. } | AK::SRun { .. } | AK::SRunV { .. } | AK::Elem { .. } => 3,
                AK::Op { .. } | AK::Unary { .. } | AK::Mu { .. } => 2,
                AK::Wrap { .. } => 1,
                AK::Eq0(_) | AK::Ge0(_) | AK::BoolSet { .. } => 2,
                _ => 0,
            };
            if pri > 0 && best.map(|b| pri > b.0 || (pri == b.0 && a > b.1)).unwrap_or(true) {
                best = Some((pri, a, c));
            }
        }
        if let Some((_, a, c)) = best {
            // c*a + rest = 0  =>  a = -rest/c
            let rest = addm(p, var(a), -c);
            let def = mulc(rest, -c);
            // boolean atoms: assume their meaning
            if let Some(v) = konst(def) {
                match atom(a).clone() {
                    AK::Ge0(_) | AK::Eq0(_) | AK::BoolSet { .. } => {
                        return self.assume1(var(a), v != 0);
                    }
                    _ => {}
                }
            }
            let (lo, hi) = self.arange(a);
            self.set_subst(a, def);
            let (l, h) = self.ival(def);
            if l < lo && !self.add_ge(addc(def, -lo)) {
                return false;
            }
            if h > hi && !self.add_ge(sub(int(hi), def)) {
                return false;
            }
            if let Some(v) = konst(def) {
                if let AK::Field { a: par, lo, len } = atom(a).clone() {
                    let (pl, ph) = self.arange(par);
                    self.split_field(par, lo, len, v);
                    // what is known of the whole holds for the remaining fields
                    let w = bitlen(ph);
                    if pl >= 0 && w <= 64 && self.known.contains_key(&par) {
                        if let Some(t) = self.known_field(par, 0, w as u8) {
                            let (l, h) = self.ival(t);
                            if l < pl && !self.add_ge(addc(t, -pl)) {
                                return false;
                            }
                            if h > ph && !self.add_ge(sub(int(ph), t)) {
                                return false;
                            }
                        }
                    }
                    return self.propagate(1u128 << (a.0 % 127) | 1u128 << (par.0 % 127));
                }
            }
            return self.propagate(1u128 << (a.0 % 127));
        }
        if !self.eqs.contains(&p) {
            self.touch();
            self.eqs.push(p);
            // both inequalities help entailment
            self.ges.push(p);
            self.ges.push(np);
        }
        true
    }
    /// A field of `par` has become constant.
    fn split_field(&mut self, par: A, lo: u8, len: u8, v: i128) {
        if arange(par).0 < 0 || lo + len > 64 {
            return;
        }
        let m = (((1u128 << len) - 1) << lo) as u64;
        self.touch();
        let e = self.known.entry(par).or_insert((0, 0));
        e.0 |= m;
        e.1 = (e.1 & !m) | (((v as u128) << lo) as u64 & m);
        self.smask |= 1u128 << (par.0 % 127);
    }
    fn known_field(&self, par: A, lo: u8, len: u8) -> Option<T> {
        let &(km, kv) = self.known.get(&par)?;
        let b: Vec<BF> = (lo..lo + len)
            .map(|i| if km >> i & 1 != 0 { bf_const(kv >> i & 1 != 0) } else { BF { c: false, xs: vec![(par, i)] } })
            .collect();
        Some(self.from_bits(&b, false))
    }
}

/// The width and signedness of the smallest machine type holding the range.
pub fn fit(lo: i128, hi: i128) -> (u8, bool) {
    let s = lo < 0;
    for w in [8u8, 16, 32, 64] {
        let (a, b) = wrange(w, s);
        if lo >= a && hi <= b {
            return (w, s);
        }
    }
    (64, s)
}

pub fn srun(src: u32, pos: T, n: T) -> T {
    match konst(n) {
        Some(0) => int(0),
        Some(c) if c <= 64 => at(AK::SRun { src, pos, n: c as u32 }),
        _ => at(AK::SRunV { src, pos, n }),
    }
}
pub fn mu(init: T, body: T, k: T, lo: i128, hi: i128) -> T {
    if konst(k) == Some(0) {
        return init;
    }
    at(AK::Mu { init, body, k, lo, hi })
}

pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a } else { gcd(b, a % b) }
}
fn norm_ge(p: T) -> T {
    let q = poly(p);
    let mut g = 0;
    for &(m, c) in q {
        if m != M1 {
            g = gcd(g, c.abs());
        }
    }
    if g <= 1 {
        return p;
    }
    intern(q.iter().map(|&(m, c)| (m, if m == M1 { c.div_euclid(g) } else { c / g })).collect())
}
/// c = a or c = 1 - a for an atom a: (negated, a).
pub fn lit(c: T) -> Option<(bool, A)> {
    let p = poly(c);
    if p.len() == 1 && p[0].1 == 1 && mono(p[0].0).len() == 1 {
        return Some((false, mono(p[0].0)[0]));
    }
    if p.len() == 2 && p[0] == (M1, 1) && p[1].1 == -1 && mono(p[1].0).len() == 1 {
        return Some((true, mono(p[1].0)[0]));
    }
    None
}
pub fn mk_tab(root: A, vals: Vec<i128>) -> T {
    if vals.iter().all(|&x| x == vals[0]) {
        return int(vals[0]);
    }
    if vals.iter().all(|&x| x == 0 || x == 1) {
        let mut set = [0u64; 4];
        for (i, &x) in vals.iter().enumerate() {
            if x == 1 {
                vs_set(&mut set, i);
            }
        }
        return mk_boolset(root, set);
    }
    if vals.iter().enumerate().all(|(i, &x)| x == i as i128) {
        return var(root);
    }
    at(AK::Tab { root, vals })
}
fn mk_boolset(root: A, set: VS) -> T {
    let n = arange(root).1 as usize + 1;
    let cnt = (0..n).filter(|&v| vs_has(&set, v)).count();
    if cnt == 0 {
        return int(0);
    }
    if cnt == n {
        return int(1);
    }
    if n == 2 {
        return if vs_has(&set, 1) { var(root) } else { sub(int(1), var(root)) };
    }
    if vs_has(&set, 0) {
        let mut s = [0u64; 4];
        for v in 0..n {
            if !vs_has(&set, v) {
                vs_set(&mut s, v);
            }
        }
        return sub(int(1), at(AK::BoolSet { root, set: s }));
    }
    // one bit of the root
    for i in 0..8u8 {
        if (0..n).all(|v| vs_has(&set, v) == (v >> i & 1 != 0)) {
            return at(AK::Field { a: root, lo: i, len: 1 });
        }
    }
    at(AK::BoolSet { root, set })
}
pub fn depends(b: A, a: A) -> bool {
    depends_in(b, a, &mut HashSet::new())
}
fn depends_in(b: A, a: A, seen: &mut HashSet<A>) -> bool {
    if b == a {
        return true;
    }
    // atoms are made after their parts
    if b.0 < a.0 || amask(b) & (1u128 << (a.0 % 127)) == 0 || !seen.insert(b) {
        return false;
    }
    let k = atom(b);
    akids(k).iter().any(|&x| depends_in(x, a, seen)) || kids(k).iter().any(|&t| tdepends_in(t, a, seen))
}
pub fn tdepends(t: T, a: A) -> bool {
    tdepends_in(t, a, &mut HashSet::new())
}
fn tdepends_in(t: T, a: A, seen: &mut HashSet<A>) -> bool {
    mask(t) & (1u128 << (a.0 % 127)) != 0 && poly(t).iter().any(|&(m, _)| mono(m).iter().any(|&x| depends_in(x, a, seen)))
}
pub fn exact_div(a: T, b: T) -> Option<T> {
    // polynomial long division for a monomial divisor, and for a = q*b with b multi-term
    let pb = poly(b);
    if pb.is_empty() {
        return None;
    }
    if poly(a).is_empty() {
        return Some(int(0));
    }
    let mut rem = a;
    let mut q = int(0);
    for _ in 0..64 {
        let pr = poly(rem);
        if pr.is_empty() {
            return Some(q);
        }
        // highest term by (degree, id)
        let key = |m: M| (mono(m).len(), mono(m).to_vec());
        let lb = pb.iter().max_by_key(|x| key(x.0)).unwrap();
        let lr = pr.iter().max_by_key(|x| key(x.0)).unwrap();
        if lr.1 % lb.1 != 0 {
            return None;
        }
        let mut r = mono(lr.0).to_vec();
        for x in mono(lb.0) {
            let i = r.iter().position(|y| y == x)?;
            r.remove(i);
        }
        let t = intern(vec![(mk_mono(r), lr.1 / lb.1)]);
        q = add(q, t);
        rem = sub(rem, mul(t, b));
    }
    None
}

/// The single finite-domain atom (at most 256 values) a term depends on.
pub fn single_root(t: T) -> Option<A> {
    let have = AR.with(|r| r.borrow().roots.get(&t).cloned());
    if let Some(r) = have {
        return r;
    }
    let mut r: Option<A> = None;
    let mut ok = true;
    for &(m, _) in poly(t) {
        for &a in mono(m) {
            if !root_of(a, &mut r) {
                ok = false;
                break;
            }
        }
        if !ok {
            break;
        }
    }
    let res = if ok { r } else { None };
    AR.with(|x| x.borrow_mut().roots.insert(t, res));
    res
}
fn root_of(a: A, r: &mut Option<A>) -> bool {
    let mut put = |x: A| match *r {
        None => {
            *r = Some(x);
            true
        }
        Some(y) => x == y,
    };
    match atom(a) {
        AK::Field { a: p, .. } => return root_of(*p, r),
        AK::XBit(xs) => return xs.iter().all(|x| root_of(x.0, r)),
        AK::BoolSet { root, .. } | AK::Tab { root, .. } => return put(*root),
        AK::Byte { .. } => return put(a),
        AK::SRun { n, .. } if *n <= 8 => return put(a),
        AK::Sym { lo, hi, .. } | AK::Elem { lo, hi, .. } if *lo >= 0 && *hi <= 255 => return put(a),
        _ => {}
    }
    let ks: Vec<T> = match atom(a) {
        AK::Wrap { p, .. } | AK::Ge0(p) | AK::Eq0(p) => vec![*p],
        AK::Pow2 { e } => vec![*e],
        AK::Op { op, args, .. } if ["shr", "div", "rem", "and", "or", "clz"].contains(op) => args.clone(),
        _ => return false,
    };
    for t in ks {
        if konst(t).is_some() {
            continue;
        }
        match single_root(t) {
            Some(x) => {
                if !put(x) {
                    return false;
                }
            }
            None => return false,
        }
    }
    true
}
/// The values of `t` for each value of its root.
pub fn table(t: T, root: A) -> &'static [i128] {
    if let Some(x) = AR.with(|r| r.borrow().tables.get(&(t, root)).cloned()) {
        return x;
    }
    let n = arange(root).1 as usize + 1;
    let mut out = vec![0i128; n];
    for &(m, c) in poly(t) {
        let mut v = vec![c; n];
        for &a in mono(m) {
            let ta = atable(a, root);
            for i in 0..n {
                v[i] *= ta[i];
            }
        }
        for i in 0..n {
            out[i] += v[i];
        }
    }
    let s: &'static [i128] = Box::leak(out.into_boxed_slice());
    AR.with(|r| r.borrow_mut().tables.insert((t, root), s));
    s
}
fn atable(a: A, root: A) -> Vec<i128> {
    let n = arange(root).1 as usize + 1;
    if a == root {
        return (0..n as i128).collect();
    }
    match atom(a) {
        AK::Field { a: p, lo, len } => atable(*p, root).iter().map(|x| (x >> lo) & ((1i128 << len) - 1)).collect(),
        AK::XBit(xs) => {
            let mut o = vec![0i128; n];
            for (p, i) in xs {
                let tp = atable(*p, root);
                for v in 0..n {
                    o[v] ^= tp[v] >> i & 1;
                }
            }
            o
        }
        AK::Tab { vals, .. } => vals.clone(),
        AK::BoolSet { set, .. } => (0..n).map(|v| vs_has(set, v) as i128).collect(),
        AK::Wrap { w, signed, p } => table(*p, root)
            .iter()
            .map(|x| {
                let m = x.rem_euclid(1i128 << w);
                if *signed && m >= 1i128 << (w - 1) { m - (1i128 << w) } else { m }
            })
            .collect(),
        AK::Ge0(p) => table(*p, root).iter().map(|x| (*x >= 0) as i128).collect(),
        AK::Eq0(p) => table(*p, root).iter().map(|x| (*x == 0) as i128).collect(),
        AK::Pow2 { e } => table(*e, root).iter().map(|x| 1i128 << (*x).clamp(0, 100)).collect(),
        AK::Op { op, args, .. } => {
            let x = tb_or_const(args[0], root, n);
            let y = tb_or_const(args[1], root, n);
            (0..n)
                .map(|i| match *op {
                    "shr" => x[i] >> y[i].clamp(0, 120),
                    "div" => if y[i] == 0 { 0 } else { x[i] / y[i] },
                    "rem" => if y[i] == 0 { 0 } else { x[i] % y[i] },
                    "and" => x[i] & y[i],
                    "or" => x[i] | y[i],
                    "clz" => y[i] - (128 - (x[i] as u128).leading_zeros() as i128),
                    _ => unreachable!(),
                })
                .collect()
        }
        _ => unreachable!(),
    }
}
fn tb_or_const(t: T, root: A, n: usize) -> Vec<i128> {
    match konst(t) {
        Some(c) => vec![c; n],
        None => table(t, root).to_vec(),
    }
}

/// Full expansion to single bits, for equality tests.
pub fn canon(t: T) -> T {
    let e = Env::new();
    let mut acc = int(0);
    let mut ch = false;
    let pt = poly(t);
    // x with low field or shr present gets split
    let mut shrs: Vec<(A, i128)> = vec![];
    for &(m, _) in pt {
        for &a in mono(m) {
            if let AK::Op { op: "shr", args, .. } = atom(a) {
                if let (Some(x), Some(k)) = (as_atom(args[0]), konst(args[1])) {
                    shrs.push((x, k));
                }
            }
        }
    }
    for &(m, c) in pt {
        let ms = mono(m);
        let mut r = int(c);
        let mut local = false;
        for &a in ms {
            let x = match atom(a) {
                AK::Byte { .. } | AK::Field { .. } => {
                    let (p, lo, len) = match atom(a) {
                        AK::Field { a, lo, len } => (*a, *lo, *len),
                        _ => (a, 0, 8),
                    };
                    bits_sum(p, lo, len)
                }
                AK::SRun { src, pos, n } if *n > 1 => {
                    let mut s = int(0);
                    for i in 0..*n {
                        let b = at(AK::SRun { src: *src, pos: addc(*pos, (n - 1 - i) as i128), n: 1 });
                        s = addm(s, b, 1i128 << i);
                    }
                    s
                }
                AK::Sym { lo, hi, .. } if *lo >= 0 && *hi <= 255 && *hi > 1 => bits_sum(a, 0, bitlen(*hi)),
                _ => {
                    if let Some(&(_, k)) = shrs.iter().find(|x| x.0 == a) {
                        let low = canon_low(&e, a, k as u8);
                        let (l, h) = arange(a);
                        let hi = at(AK::Op { op: "shr", args: vec![var(a), int(k)], lo: l >> k, hi: h >> k });
                        add(low, mulc(hi, 1i128 << k))
                    } else {
                        var(a)
                    }
                }
            };
            if x != var(a) {
                local = true;
            }
            r = mul(r, x);
        }
        if local {
            ch = true;
            acc = add(acc, r);
        } else {
            acc = add(acc, intern(vec![(m, c)]));
        }
    }
    if ch { acc } else { t }
}
fn canon_low(e: &Env, a: A, k: u8) -> T {
    let l = e.low(var(a), k);
    canon(l)
}
fn bits_sum(p: A, lo: u8, len: u8) -> T {
    let mut s = int(0);
    // a field of a stream run is the run's stream bits
    if let AK::SRun { src, pos, n } = atom(p) {
        for i in lo..lo + len {
            let b = at(AK::SRun { src: *src, pos: addc(*pos, *n as i128 - 1 - i as i128), n: 1 });
            s = addm(s, b, 1i128 << (i - lo));
        }
        return s;
    }
    for i in lo..lo + len {
        let b = if arange(p).1 == 1 { var(p) } else { at(AK::Field { a: p, lo: i, len: 1 }) };
        s = addm(s, b, 1i128 << (i - lo));
    }
    s
}

// -------------------------------------------------------------------- display

pub fn show(t: T) -> String {
    let p = poly(t);
    if p.is_empty() {
        return "0".into();
    }
    let mut s = String::new();
    for (i, &(m, c)) in p.iter().enumerate() {
        if i > 0 {
            s.push_str(if c < 0 { " - " } else { " + " });
        } else if c < 0 {
            s.push('-');
        }
        let ms = mono(m);
        if ms.is_empty() {
            s.push_str(&format!("{}", c.abs()));
        } else {
            if c.abs() != 1 {
                s.push_str(&format!("{}*", c.abs()));
            }
            s.push_str(&ms.iter().map(|&a| show_atom(a)).collect::<Vec<_>>().join("*"));
        }
        if s.len() > 3000 {
            s.push_str("...");
            break;
        }
    }
    s
}
thread_local! {
    static SHOWN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
pub fn show_atom(a: A) -> String {
    let d = SHOWN.with(|c| c.get());
    if d > 7 {
        return "..".into();
    }
    SHOWN.with(|c| c.set(d + 1));
    let s = show_atom1(a);
    SHOWN.with(|c| c.set(d));
    s
}
fn show_atom1(a: A) -> String {
    match atom(a) {
        AK::Sym { id, name, .. } => format!("{}#{}", name, id),
        AK::Byte { src, pos } => format!("byte{}[{}]", src, show(*pos)),
        AK::SRun { src, pos, n } => format!("bits{}[{};{}]", src, show(*pos), n),
        AK::SRunV { src, pos, n } => format!("bits{}[{};{}]", src, show(*pos), show(*n)),
        AK::Unary { src, pos } => format!("unary{}[{}]", src, show(*pos)),
        AK::Elem { arr, idx, .. } => format!("arr{}[{}]", arr, show(*idx)),
        AK::Field { a, lo, len } => format!("{}.{}..{}", show_atom(*a), lo, lo + len),
        AK::XBit(xs) => format!("xor({})", xs.iter().map(|(a, i)| format!("{}.{}", show_atom(*a), i)).collect::<Vec<_>>().join(",")),
        AK::Wrap { w, signed, p } => format!("wrap_{}{}({})", if *signed { "i" } else { "u" }, w, show(*p)),
        AK::Pow2 { e } => format!("2^({})", show(*e)),
        AK::Op { op, args, .. } => format!("{}({})", op, args.iter().map(|&x| show(x)).collect::<Vec<_>>().join(", ")),
        AK::Ge0(p) => format!("[{} >= 0]", show(*p)),
        AK::Eq0(p) => format!("[{} == 0]", show(*p)),
        AK::Tab { root, .. } => format!("tab({})", show_atom(*root)),
        AK::BoolSet { root, set } => {
            let v: Vec<String> = (0..256).filter(|&v| vs_has(set, v)).map(|v| v.to_string()).collect();
            let l = v.len();
            let mut s = v[..l.min(8)].join(",");
            if l > 8 {
                s.push_str(",..");
            }
            format!("[{} in {{{}}}]", show_atom(*root), s)
        }
        AK::Mu { init, body, k, .. } => format!("mu({}; {}; {})", show(*init), show(*body), show(*k)),
        AK::SelfV { d, .. } => format!("self{}", d),
        AK::Idx { d } => format!("idx{}", d),
    }
}

thread_local! {
    static CLOCK: std::cell::Cell<(u32, Option<std::time::Instant>, bool)> = const { std::cell::Cell::new((0, None, false)) };
}
pub fn set_deadline(t: std::time::Instant) {
    CLOCK.with(|c| c.set((0, Some(t), false)));
}
/// Is the time for the analysis over? Then terms are no longer simplified.
pub fn overtime() -> bool {
    CLOCK.with(|c| {
        let (n, d, over) = c.get();
        if over {
            return true;
        }
        let over = n % 64 == 63 && d.map(|d| std::time::Instant::now() > d).unwrap_or(false);
        c.set((n.wrapping_add(1), d, over));
        over
    })
}
