//! Concretisation of abstract counterexamples: is there an assignment of the inputs under
//! which all decisions of an abstract path hold?
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

/// The decisions a state stands for, exactly.
pub enum Hist {
    Dec(T, bool, Option<Rc<Hist>>),
    Or(Option<Rc<Hist>>, Option<Rc<Hist>>),
}
pub type H = Option<Rc<Hist>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Var {
    Sym(A),
    /// Byte of a stream.
    By(u32, i64),
    /// Element of an unknown array.
    El(u32, i64, i64, i64),
    /// Uninterpreted predicate.
    Pr(A, i64),
    /// Bits of a stream: start and count.
    Run(u32, i64, u32),
    /// Zero bits from here to the next one bit.
    Un(u32, i64),
}
pub struct Asg {
    pub v: HashMap<Var, i128>,
    pub mode: u32,
    pub seed: u64,
    memo: HashMap<T, Option<i128>>,
    tmemo: HashMap<T, Option<i128>>,
    /// Variables read, while tracing.
    trace: Option<Vec<Var>>,
    selfs: Vec<i128>,
    idxs: Vec<i128>,
    fuel: u64,
    /// Long runs of zero bits: start and length.
    zeros: Vec<(u32, i64, i128)>,
}
/// Longest run written bit by bit.
const SHORT: i128 = 200;
fn hash(mut x: u64) -> u64 {
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^ x >> 33
}
impl Asg {
    pub fn new(mode: u32, seed: u64) -> Asg {
        Asg { v: HashMap::new(), mode, seed, memo: HashMap::new(), tmemo: HashMap::new(), trace: None, selfs: vec![], idxs: vec![], fuel: 4_000_000, zeros: vec![] }
    }
    pub fn set(&mut self, x: Var, v: i128) {
        match x {
            Var::Run(s, p, n) => {
                for i in 0..n as i64 {
                    self.set_bit(s, p + i, v >> (n as i64 - 1 - i) & 1);
                }
            }
            Var::Un(s, p) => {
                self.zeros.retain(|z| (z.0, z.1) != (s, p));
                if v > SHORT {
                    self.zeros.push((s, p, v));
                } else {
                    for i in 0..v as i64 {
                        self.set_bit(s, p + i, 0);
                    }
                }
                self.set_bit(s, p + v as i64, 1);
            }
            _ => {
                self.v.insert(x, v);
            }
        }
        self.memo.clear();
    }
    fn set_bit(&mut self, s: u32, p: i64, b: i128) {
        let k = Var::By(s, p.div_euclid(8));
        let sh = 7 - p.rem_euclid(8);
        let t = self.trace.take();
        let y = self.get(k);
        self.trace = t;
        self.v.insert(k, y & !(1 << sh) | b << sh);
    }
    /// What setting the variable overwrites.
    fn saved(&self, x: Var) -> Vec<(Var, Option<i128>)> {
        let (s, p, n) = match x {
            Var::Run(s, p, n) => (s, p, n as i64),
            Var::Un(s, p) => (s, p, SHORT as i64),
            _ => return vec![(x, self.v.get(&x).cloned())],
        };
        let mut o: Vec<_> = (p.div_euclid(8)..=(p + n).div_euclid(8)).map(|i| (Var::By(s, i), self.v.get(&Var::By(s, i)).cloned())).collect();
        if let Var::Un(..) = x {
            o.push((x, self.zeros.iter().find(|z| (z.0, z.1) == (s, p)).map(|z| z.2)));
        }
        o
    }
    fn restore(&mut self, o: &[(Var, Option<i128>)]) {
        for (x, v) in o {
            if let Var::Un(s, p) = *x {
                self.zeros.retain(|z| (z.0, z.1) != (s, p));
                self.zeros.extend(v.map(|v| (s, p, v)));
                continue;
            }
            match v {
                Some(v) => {
                    self.v.insert(*x, *v);
                }
                None => {
                    self.v.remove(x);
                }
            }
        }
        self.memo.clear();
    }
    pub fn range(x: Var) -> (i128, i128) {
        match x {
            Var::Sym(a) => arange(a),
            Var::El(_, _, l, h) => (l as i128, h as i128),
            Var::By(..) => (0, 255),
            Var::Pr(..) => (0, 1),
            Var::Run(_, _, n) => (0, (1i128 << n) - 1),
            Var::Un(..) => (0, (1 << 32) - 1),
        }
    }
    pub fn get(&mut self, x: Var) -> i128 {
        if let Some(t) = self.trace.as_mut() {
            t.push(x);
        }
        if let Var::By(s, b) = x {
            if !self.zeros.is_empty() {
                let v = self.plain(x);
                return self.zeros.iter().fold(v, |v, z| {
                    let from = (z.1 as i128 - 8 * b as i128).max(0);
                    let to = (z.1 as i128 + z.2 - 8 * b as i128).min(8);
                    if z.0 == s && from < to { v & !((0xff >> from) & (0xff << (8 - to))) } else { v }
                });
            }
        }
        self.plain(x)
    }
    fn plain(&mut self, x: Var) -> i128 {
        if let Some(&v) = self.v.get(&x) {
            return v;
        }
        match x {
            Var::Run(s, p, n) => {
                let mut v = 0;
                for i in 0..n {
                    v = v << 1 | self.bit(s, p as i128 + i as i128);
                }
                return v;
            }
            Var::Un(s, p) => {
                let mut n = 0;
                let mut left = 5000;
                while left > 0 {
                    let at = p as i128 + n;
                    if let Some(z) = self.zeros.iter().find(|z| z.0 == s && z.1 as i128 <= at && at < z.1 as i128 + z.2) {
                        n = z.1 as i128 + z.2 - p as i128;
                    } else if self.bit(s, at) == 0 {
                        n += 1;
                    } else {
                        return n;
                    }
                    left -= 1;
                }
                return 1 << 40;
            }
            _ => {}
        }
        let (lo, hi) = Asg::range(x);
        let k = match x {
            Var::Sym(a) => a.0 as u64,
            Var::By(s, p) => 0x1000_0000_0000 + ((s as u64) << 32) + p as u64,
            Var::El(s, p, ..) => 0x2000_0000_0000 + ((s as u64) << 32) + p as u64,
            Var::Pr(s, p) => 0x3000_0000_0000 + ((s.0 as u64) << 32) + p as u64,
            Var::Run(..) | Var::Un(..) => unreachable!(),
        };
        let h = hash(self.seed ^ k) as i128;
        match self.mode {
            0 => lo.max(0).min(hi),
            1 => lo + (h.abs() % (hi - lo + 1).max(1)),
            2 => hi,
            3 => (lo + (h.abs() % 9)).min(hi),
            4 => lo,
            _ => {
                if h & 7 == 0 {
                    hi
                } else {
                    (lo.max(0) + (h.abs() >> 8) % 70).min(hi)
                }
            }
        }
    }
    fn byte(&mut self, src: u32, pos: i128) -> i128 {
        self.get(Var::By(src, pos as i64))
    }
    fn bit(&mut self, src: u32, pos: i128) -> i128 {
        self.byte(src, pos.div_euclid(8)) >> (7 - pos.rem_euclid(8)) & 1
    }
    fn run(&mut self, src: u32, p: i128, n: u32) -> i128 {
        let t = self.trace.take();
        let v = self.get(Var::Run(src, p as i64, n));
        self.trace = t;
        if let Some(t) = self.trace.as_mut() {
            t.push(Var::Run(src, p as i64, n));
        }
        v
    }
    pub fn t(&mut self, t: T) -> Option<i128> {
        let open = !self.selfs.is_empty() || !self.idxs.is_empty();
        if !open && self.trace.is_some() {
            // every variable is noted once
            if let Some(&r) = self.tmemo.get(&t) {
                return r;
            }
        } else if !open {
            if let Some(&r) = self.memo.get(&t) {
                return r;
            }
        }
        let mut acc = 0i128;
        for &(m, c) in poly(t) {
            let mut r = c;
            for &a in mono(m) {
                r = r.checked_mul(self.a(a)?)?;
            }
            acc = acc.checked_add(r)?;
        }
        if !open && self.trace.is_some() {
            self.tmemo.insert(t, Some(acc));
        } else if !open {
            self.memo.insert(t, Some(acc));
        }
        Some(acc)
    }
    fn a(&mut self, a: A) -> Option<i128> {
        if self.fuel == 0 {
            return None;
        }
        self.fuel -= 1;
        let wrap = |x: i128, w: u8, s: bool| -> i128 {
            let m = if w >= 127 { return x } else { (1i128 << w) - 1 };
            let y = x & m;
            if s && y >> (w - 1) & 1 != 0 { y - (1i128 << w) } else { y }
        };
        Some(match atom(a) {
            AK::Sym { .. } => self.get(Var::Sym(a)),
            AK::Byte { src, pos } => {
                let p = self.t(*pos)?;
                self.byte(*src, p)
            }
            AK::SRun { src, pos, n } => {
                let p = self.t(*pos)?;
                self.run(*src, p, *n as u32)
            }
            AK::SRunV { src, pos, n } => {
                let p = self.t(*pos)?;
                let n = self.t(*n)?;
                if !(0..=64).contains(&n) {
                    return None;
                }
                self.run(*src, p, n as u32)
            }
            AK::Unary { src, pos } => {
                let p = self.t(*pos)?;
                let t = self.trace.take();
                let n = self.get(Var::Un(*src, p as i64));
                self.trace = t;
                if let Some(t) = self.trace.as_mut() {
                    t.push(Var::Un(*src, p as i64));
                }
                if n >= 1 << 32 {
                    return None;
                }
                n
            }
            AK::Elem { arr, idx, lo, hi } => {
                let i = self.t(*idx)?;
                self.get(Var::El(*arr, i as i64, *lo as i64, *hi as i64))
            }
            AK::Field { a: p, lo, len } => (self.a(*p)? >> lo) & ((1i128 << len) - 1),
            AK::XBit(b) => {
                let mut x = 0;
                for (p, i) in b {
                    x ^= self.a(*p)? >> i & 1;
                }
                x
            }
            AK::Wrap { w, signed, p } => wrap(self.t(*p)?, *w, *signed),
            AK::Pow2 { e } => {
                let e = self.t(*e)?;
                if !(0..=100).contains(&e) {
                    return None;
                }
                1i128 << e
            }
            AK::Op { op, args, .. } => {
                if *op == "utf8" {
                    let l = crate::nat::arr_terms(konst(args[0])? as u32)?;
                    let mut v = vec![];
                    for t in l {
                        v.push(self.t(t)? as u8);
                    }
                    return Some(std::str::from_utf8(&v).is_ok() as i128);
                }
                if *op == "tab" {
                    let i = self.t(args[0])?;
                    return args.get(usize::try_from(i).ok()?.checked_add(1)?).and_then(|t| konst(*t));
                }
                let mut v = vec![];
                for &x in args {
                    v.push(self.t(x)?);
                }
                match *op {
                    "shr" => {
                        if !(0..=126).contains(&v[1]) {
                            return None;
                        }
                        v[0] >> v[1]
                    }
                    "div" => {
                        if v[1] == 0 {
                            return None;
                        }
                        v[0] / v[1]
                    }
                    "rem" => {
                        if v[1] == 0 {
                            return None;
                        }
                        v[0] % v[1]
                    }
                    "and" => v[0] & v[1],
                    "or" => v[0] | v[1],
                    "min" => v[0].min(v[1]),
                    "max" => v[0].max(v[1]),
                    "clz" => v[1] - (128 - (v[0] as u128).leading_zeros() as i128),
                    "sext" => {
                        if !(1..=64).contains(&v[1]) {
                            return None;
                        }
                        wrap(v[0], v[1] as u8, true)
                    }
                    "zext" => {
                        if v[1] == 0 {
                            return Some(0);
                        }
                        if !(1..=64).contains(&v[1]) {
                            return None;
                        }
                        wrap(v[0], v[1] as u8, false)
                    }
                    "member" => {
                        let x = v[0];
                        if !(0..256).contains(&x) {
                            return Some(0);
                        }
                        (v[1 + x as usize / 64] as u64 >> (x % 64) & 1) as i128
                    }
                    _ => return None,
                }
            }
            AK::Ge0(p) => (self.t(*p)? >= 0) as i128,
            AK::Eq0(p) => (self.t(*p)? == 0) as i128,
            AK::BoolSet { root, set } => {
                let x = self.a(*root)?;
                ((0..256).contains(&x) && set[x as usize / 64] >> (x % 64) & 1 != 0) as i128
            }
            AK::Tab { root, vals } => {
                let x = self.a(*root)?;
                *vals.get(usize::try_from(x).ok()?)?
            }
            AK::Mu { init, body, k, .. } => {
                let k = self.t(*k)?;
                if k > 3000 {
                    return None;
                }
                let mut x = self.t(*init)?;
                for i in 0..k {
                    self.selfs.push(x);
                    self.idxs.push(i);
                    let r = self.t(*body);
                    self.selfs.pop();
                    self.idxs.pop();
                    x = r?;
                }
                x
            }
            AK::SelfV { d, .. } => *self.selfs.iter().rev().nth(*d as usize)?,
            AK::Idx { d } => *self.idxs.iter().rev().nth(*d as usize)?,
        })
    }
    fn vars(&mut self, t: T) -> Vec<Var> {
        self.trace = Some(vec![]);
        self.tmemo.clear();
        let _ = self.t(t);
        let v = self.trace.take().unwrap();
        let mut seen = HashSet::new();
        v.into_iter().filter(|x| seen.insert(*x)).collect()
    }
}
fn rnd(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    hash(*s)
}
/// One way through the decisions.
fn linear(h: &H, s: &mut u64) -> Vec<(T, bool)> {
    let mut v = vec![];
    let mut p = h.clone();
    while let Some(n) = p {
        match &*n {
            Hist::Dec(c, w, q) => {
                v.push((*c, *w));
                p = q.clone();
            }
            Hist::Or(a, b) => p = if rnd(s) & 1 == 0 { a.clone() } else { b.clone() },
        }
    }
    v.reverse();
    v
}
/// The way through the decisions which the assignment contradicts least.
fn linear_best(h: &H, a: &mut Asg, s: &mut u64) -> Vec<(T, bool)> {
    let mut cost: HashMap<*const Hist, u32> = HashMap::new();
    let get = |cost: &HashMap<*const Hist, u32>, h: &H| match h {
        None => Some(0),
        Some(n) => cost.get(&Rc::as_ptr(n)).cloned(),
    };
    let mut stack: Vec<Rc<Hist>> = h.iter().cloned().collect();
    while let Some(n) = stack.last().cloned() {
        let k = Rc::as_ptr(&n);
        if cost.contains_key(&k) {
            stack.pop();
            continue;
        }
        match &*n {
            Hist::Dec(c, w, q) => match get(&cost, q) {
                None => stack.push(q.clone().unwrap()),
                Some(x) => {
                    let bad = !matches!(a.t(*c), Some(v) if (v != 0) == *w);
                    cost.insert(k, x + bad as u32);
                    stack.pop();
                }
            },
            Hist::Or(p, q) => match (get(&cost, p), get(&cost, q)) {
                (None, _) => stack.push(p.clone().unwrap()),
                (_, None) => stack.push(q.clone().unwrap()),
                (Some(x), Some(y)) => {
                    cost.insert(k, x.min(y));
                    stack.pop();
                }
            },
        }
    }
    let mut v = vec![];
    let mut p = h.clone();
    while let Some(n) = p {
        match &*n {
            Hist::Dec(c, w, q) => {
                v.push((*c, *w));
                p = q.clone();
            }
            Hist::Or(x, y) => {
                let (cx, cy) = (get(&cost, x).unwrap(), get(&cost, y).unwrap());
                let left = if cx == cy || rnd(s) % 16 == 0 { rnd(s) & 1 == 0 } else { cx < cy };
                p = if left { x.clone() } else { y.clone() };
            }
        }
    }
    v.reverse();
    v
}
/// Constants a comparison turns on.
fn breaks(c: T, out: &mut Vec<T>) {
    for &(m, _) in poly(c) {
        for &a in mono(m) {
            match atom(a) {
                AK::Ge0(p) | AK::Eq0(p) => out.push(*p),
                _ => {}
            }
        }
    }
}
/// Look for inputs on the path.
pub fn concretise(h: &H, extra: &[(T, bool)], budget_ms: u64) -> Option<Asg> {
    let start = std::time::Instant::now();
    let mut seed = 12345u64;
    let dbg = std::env::var("FLACAI_DBG").is_ok();
    for attempt in 0..400u32 {
        if start.elapsed().as_millis() as u64 > budget_ms {
            return None;
        }
        let mut a = Asg::new(attempt % 6, attempt as u64 * 7919);
        for round in 0..12 {
            a.fuel = 4_000_000;
            let mut cs = if round == 0 && attempt % 2 == 1 { linear(h, &mut seed) } else { linear_best(h, &mut a, &mut seed) };
            cs.extend_from_slice(extra);
            let mut seen = HashSet::new();
            cs.retain(|x| seen.insert(*x));
            if repair(&mut a, &cs, &mut seed, &start, budget_ms) {
                return Some(a);
            }
            if dbg {
                let b = first_bad(&mut a, &cs, 0);
                eprintln!("  attempt {} round {} at {:?}: {} of {}: {} = {} is {:?}", attempt, round, start.elapsed(), b, cs.len(), cs.get(b).map(|x| show(x.0)).unwrap_or_default(), cs.get(b).map(|x| x.1).unwrap_or_default(), cs.get(b).map(|x| a.t(x.0)));
            }
            if start.elapsed().as_millis() as u64 > budget_ms {
                return None;
            }
        }
    }
    None
}
fn first_bad(a: &mut Asg, cs: &[(T, bool)], from: usize) -> usize {
    for (i, (c, w)) in cs.iter().enumerate().skip(from) {
        match a.t(*c) {
            Some(v) if (v != 0) == *w => {}
            _ => return i,
        }
    }
    cs.len()
}
fn repair(a: &mut Asg, cs: &[(T, bool)], seed: &mut u64, start: &std::time::Instant, budget: u64) -> bool {
    let mut best = first_bad(a, cs, 0);
    let mut steps = 0;
    let mut stuck = 0;
    while best < cs.len() {
        steps += 1;
        if steps > 400 || stuck > 6 || start.elapsed().as_millis() as u64 > budget {
            return false;
        }
        a.fuel = 4_000_000;
        let (c, w) = cs[best];
        let mut vs = a.vars(c);
        // late variables first: they matter least to earlier decisions
        vs.reverse();
        if vs.len() > 48 {
            for i in (1..vs.len()).rev() {
                vs.swap(i, (rnd(seed) % (i as u64 + 1)) as usize);
            }
            vs.truncate(48);
        }
        let mut top: (usize, Vec<(Var, i128)>) = (best, vec![]);
        let mut ps = vec![];
        breaks(c, &mut ps);
        'v: for &x in &vs {
            let old = a.saved(x);
            let cur = a.get(x);
            let (lo, hi) = Asg::range(x);
            let mut cand: Vec<i128> = vec![];
            if let Var::Un(..) = x {
                cand.extend(0..=60);
            }
            if hi - lo <= 300 {
                cand.extend(lo..=hi);
            } else {
                cand.extend([lo, lo + 1, hi, hi - 1, 0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 34, 127, 128, 255, 256, 65535, 65536, 1 << 24, 1 << 31]);
                for k in 0..40u32 {
                    cand.push((1i128 << k) - 1);
                    cand.push(1i128 << k);
                    cand.push(-(1i128 << k));
                }
                // secant through the comparison
                for &p in &ps {
                    if let Some(p0) = a.t(p) {
                        let step = if cur < hi { 1 } else { -1 };
                        a.set(x, cur + step);
                        let p1 = a.t(p);
                        a.restore(&old);
                        if let Some(p1) = p1 {
                            let d = (p1 - p0) * step;
                            if d != 0 {
                                for e in -2..=2 {
                                    cand.push(cur - p0 / d + e);
                                }
                            }
                        }
                    }
                }
                for _ in 0..8 {
                    cand.push(lo + (rnd(seed) as i128) % (hi - lo + 1).max(1));
                }
                cand.retain(|v| lo <= *v && *v <= hi);
            }
            // start somewhere else each time
            let n = cand.len();
            let off = (rnd(seed) % n.max(1) as u64) as usize;
            for k in 0..n {
                let v = cand[(k + off) % n];
                if v == cur {
                    continue;
                }
                a.restore(&old);
                a.set(x, v);
                if !matches!(a.t(c), Some(r) if (r != 0) == w) {
                    continue;
                }
                let b = first_bad(a, cs, 0);
                if b > top.0 {
                    top = (b, vec![(x, v)]);
                    if b == cs.len() {
                        break 'v;
                    }
                }
            }
            a.restore(&old);
        }
        if top.1.is_empty() && vs.len() >= 2 && vs.len() <= 12 {
            // two digits of one number
            if let Some(&p) = ps.first() {
                'p: for &x in &vs {
                    for &y in &vs {
                        if x == y {
                            continue;
                        }
                        if matches!(x, Var::Un(..)) || matches!(y, Var::Un(..)) {
                            continue;
                        }
                        let (ox, oy) = (a.saved(x), a.saved(y));
                        let (cx, cy) = (a.get(x), a.get(y));
                        let p0 = a.t(p);
                        a.set(x, if cx < Asg::range(x).1 { cx + 1 } else { cx - 1 });
                        let dx = a.t(p).zip(p0).map(|(q, p)| if cx < Asg::range(x).1 { q - p } else { p - q });
                        a.restore(&ox);
                        a.set(y, if cy < Asg::range(y).1 { cy + 1 } else { cy - 1 });
                        let dy = a.t(p).zip(p0).map(|(q, p)| if cy < Asg::range(y).1 { q - p } else { p - q });
                        a.restore(&oy);
                        if let (Some(p0), Some(dx), Some(dy)) = (p0, dx, dy) {
                            if dx != 0 && dy != 0 && dx.abs() > dy.abs() {
                                for k in [-1i128, 0, 1] {
                                    let mx = -(p0 / dx) + k;
                                    let rest = p0 + mx * dx;
                                    let my = -(rest / dy);
                                    let (nx, ny) = (cx + mx, cy + my);
                                    let (rx, ry) = (Asg::range(x), Asg::range(y));
                                    if nx < rx.0 || nx > rx.1 || ny < ry.0 || ny > ry.1 {
                                        continue;
                                    }
                                    a.set(x, nx);
                                    a.set(y, ny);
                                    let b = first_bad(a, cs, 0);
                                    if b > top.0 {
                                        top = (b, vec![(x, nx), (y, ny)]);
                                    }
                                    a.restore(&oy);
                                    a.restore(&ox);
                                    if top.0 == cs.len() {
                                        break 'p;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        if top.1.is_empty() {
            // a random move
            stuck += 1;
            if vs.is_empty() {
                return false;
            }
            let x = vs[(rnd(seed) % vs.len() as u64) as usize];
            let (lo, mut hi) = Asg::range(x);
            if let Var::Un(..) = x {
                hi = 60;
            }
            let v = lo + (rnd(seed) as i128) % (hi - lo + 1).max(1);
            a.set(x, v);
            best = first_bad(a, cs, 0);
        } else {
            for (x, v) in &top.1 {
                a.set(*x, *v);
            }
            best = top.0;
        }
    }
    true
}
pub fn show_asg(a: &Asg) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut by: Vec<(u32, i64, i128)> = vec![];
    for (x, val) in &a.v {
        match x {
            Var::By(s, p) => by.push((*s, *p, *val)),
            Var::Sym(s) => {
                if let AK::Sym { name, .. } = atom(*s) {
                    v.push(format!("{} = {}", name, val));
                }
            }
            Var::El(s, p, ..) => v.push(format!("array{}[{}] = {}", s, p, val)),
            Var::Run(..) | Var::Un(..) => {}
            Var::Pr(..) => v.push(format!("valid UTF-8 = {}", val)),
        }
    }
    v.sort();
    by.sort();
    v.extend(a.zeros.iter().map(|z| format!("stream{}: {} zero bits from bit {}", z.0, z.2, z.1)));
    v.extend(by.iter().map(|(s, p, x)| format!("stream{}[{}] = {:#04x}", s, p, x)));
    v
}
