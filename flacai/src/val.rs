//! Abstract values and memory.
use crate::term::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub enum Stop {
    /// A condition has to be decided first.
    Split(T),
    /// The path is infeasible.
    Dead,
    /// Beyond what the analysis models.
    Fail(String),
    /// Execution panics here.
    Panic(String),
    /// Undefined behaviour here.
    Ub(String),
}
pub type R<X> = Result<X, Stop>;
pub fn fail<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Fail(s.into()))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Base {
    Local(u32, u32),
    Heap(u32),
    Static(u32),
    Dangling,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Pj {
    F(u32),
    /// Field of an enum variant.
    V(u32, u32),
    I(T),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Meta {
    Thin,
    Len(T),
    Dyn(u32),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub base: Base,
    pub proj: Vec<Pj>,
    pub meta: Meta,
}
pub type RV = Rc<Vec<V>>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    Uninit,
    Int(T),
    Ptr(Rc<Ptr>),
    Agg(RV),
    En(T, Rc<BTreeMap<u32, RV>>),
    Fn(u32),
    Arr(Rc<Arr>),
    /// io::Error with kind and tag.
    IoErr(T, T),
    Top,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Arr {
    pub len: T,
    pub segs: Vec<Seg>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Seg {
    pub start: T,
    pub end: T,
    pub k: SK,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SK {
    List(Rc<Vec<V>>),
    /// Template over Idx{0}, the absolute index in the array.
    Fam(V),
    Uninit,
    /// Unknown contents.
    Any,
}

thread_local!(static IDX0: T = at(AK::Idx { d: 0 }));
pub fn idx0() -> T {
    IDX0.with(|x| *x)
}
thread_local!(static IDXA: A = mk_atom(AK::Idx { d: 0 }));
pub fn idx_atom() -> A {
    IDXA.with(|x| *x)
}

pub fn unit() -> V {
    V::Agg(Rc::new(vec![]))
}
pub fn agg(v: Vec<V>) -> V {
    V::Agg(Rc::new(v))
}
pub fn en(var: u32, f: Vec<V>) -> V {
    let mut m = BTreeMap::new();
    m.insert(var, Rc::new(f));
    V::En(int(var as i128), Rc::new(m))
}
pub fn vint(t: T) -> V {
    V::Int(t)
}

/// Replace atoms in a term.
pub fn map_term(env: &Env, t: T, keep: u128, f: &mut dyn FnMut(A) -> Option<T>, memo: &mut std::collections::HashMap<T, T>) -> T {
    if mask(t) & keep == 0 {
        return t;
    }
    if let Some(&r) = memo.get(&t) {
        return r;
    }
    let mut acc = int(0);
    for &(m, c) in poly(t) {
        let mut r = int(c);
        for &a in mono(m) {
            let x = map_atom(env, a, keep, f, memo);
            r = mul(r, x);
        }
        acc = add(acc, r);
    }
    memo.insert(t, acc);
    acc
}
fn map_atom(env: &Env, a: A, keep: u128, f: &mut dyn FnMut(A) -> Option<T>, memo: &mut std::collections::HashMap<T, T>) -> T {
    if amask(a) & keep == 0 {
        return var(a);
    }
    if let Some(t) = f(a) {
        return t;
    }
    let kk = atom(a);
    let fp = std::cell::RefCell::new((f, memo));
    let _ = kk;
    env.rebuild(
        a,
        &mut |t| {
            let mut g = fp.borrow_mut();
            let g = &mut *g;
            map_term(env, t, keep, g.0, g.1)
        },
        &mut |x| {
            let mut g = fp.borrow_mut();
            let g = &mut *g;
            map_atom(env, x, keep, g.0, g.1)
        },
    )
}
pub fn subst1(env: &Env, t: T, a: A, by: T) -> T {
    let mut memo = std::collections::HashMap::new();
    map_term(env, t, 1u128 << (a.0 % 127), &mut |x| if x == a { Some(by) } else { None }, &mut memo)
}
/// Map all terms of a value.
pub fn map_v(v: &V, f: &mut dyn FnMut(T) -> T) -> V {
    match v {
        V::Int(t) => V::Int(f(*t)),
        V::Ptr(p) => {
            let mut p = (**p).clone();
            for j in p.proj.iter_mut() {
                if let Pj::I(t) = j {
                    *t = f(*t);
                }
            }
            if let Meta::Len(t) = &mut p.meta {
                *t = f(*t);
            }
            V::Ptr(Rc::new(p))
        }
        V::Agg(x) => V::Agg(Rc::new(x.iter().map(|y| map_v(y, f)).collect())),
        V::En(t, m) => V::En(f(*t), Rc::new(m.iter().map(|(k, x)| (*k, Rc::new(x.iter().map(|y| map_v(y, f)).collect()))).collect())),
        V::IoErr(a, b) => V::IoErr(f(*a), f(*b)),
        V::Arr(a) => V::Arr(Rc::new(Arr {
            len: f(a.len),
            segs: a
                .segs
                .iter()
                .map(|s| Seg {
                    start: f(s.start),
                    end: f(s.end),
                    k: match &s.k {
                        SK::List(l) => SK::List(Rc::new(l.iter().map(|y| map_v(y, f)).collect())),
                        SK::Fam(x) => SK::Fam(map_v(x, f)),
                        k => k.clone(),
                    },
                })
                .collect(),
        })),
        _ => v.clone(),
    }
}
pub fn visit_v(v: &V, f: &mut dyn FnMut(T)) {
    match v {
        V::Int(t) => f(*t),
        V::Ptr(p) => {
            for j in p.proj.iter() {
                if let Pj::I(t) = j {
                    f(*t);
                }
            }
            if let Meta::Len(t) = p.meta {
                f(t);
            }
        }
        V::Agg(x) => x.iter().for_each(|y| visit_v(y, f)),
        V::En(t, m) => {
            f(*t);
            m.values().for_each(|x| x.iter().for_each(|y| visit_v(y, f)))
        }
        V::IoErr(a, b) => {
            f(*a);
            f(*b)
        }
        V::Arr(a) => {
            f(a.len);
            for s in &a.segs {
                f(s.start);
                f(s.end);
                match &s.k {
                    SK::List(l) => l.iter().for_each(|y| visit_v(y, f)),
                    SK::Fam(x) => visit_v(x, f),
                    _ => {}
                }
            }
        }
        _ => {}
    }
}

/// Decide or ask for a split.
pub fn dec(env: &Env, c: T) -> R<bool> {
    if env.dead {
        return Err(Stop::Dead);
    }
    match env.decide(c) {
        Some(b) => Ok(b),
        None => Err(Stop::Split(c)),
    }
}

impl Arr {
    pub fn list(v: Vec<V>) -> Arr {
        let n = int(v.len() as i128);
        let segs = if v.is_empty() { vec![] } else { vec![Seg { start: int(0), end: n, k: SK::List(Rc::new(v)) }] };
        Arr { len: n, segs }
    }
    pub fn fam(len: T, v: V) -> Arr {
        Arr { len, segs: if len == int(0) { vec![] } else { vec![Seg { start: int(0), end: len, k: SK::Fam(v) }] } }
    }
    pub fn uninit(len: T) -> Arr {
        Arr { len, segs: if len == int(0) { vec![] } else { vec![Seg { start: int(0), end: len, k: SK::Uninit }] } }
    }
    /// The segment holding index i, which must be within bounds.
    fn find(&self, env: &Env, i: T) -> R<usize> {
        let n = self.segs.len();
        for (j, s) in self.segs.iter().enumerate() {
            if j + 1 == n {
                return Ok(j);
            }
            if s.start == s.end {
                continue;
            }
            if dec(env, env.lt(i, s.end))? {
                return Ok(j);
            }
        }
        fail("index into an empty array")
    }
    pub fn get(&self, env: &Env, i: T) -> R<V> {
        let i = env.norm(i);
        let j = self.find(env, i)?;
        self.seg_get(env, j, i)
    }
    fn seg_get(&self, env: &Env, j: usize, i: T) -> R<V> {
        let s = &self.segs[j];
        Ok(match &s.k {
            SK::List(l) => {
                let k = env.norm(sub(i, s.start));
                match konst(k) {
                    Some(c) => {
                        if c < 0 || c as usize >= l.len() {
                            return Err(Stop::Dead);
                        }
                        l[c as usize].clone()
                    }
                    None => return list_get(env, l, k),
                }
            }
            SK::Fam(v) => inst(env, v, i),
            SK::Uninit => V::Uninit,
            SK::Any => V::Top,
        })
    }
    /// Make a segment boundary at i (0 <= i <= len); index of the segment starting there.
    pub fn split_at(&mut self, env: &Env, i: T) -> R<usize> {
        let i = env.norm(i);
        let n = self.segs.len();
        for j in 0..n {
            if self.segs[j].start == i {
                return Ok(j);
            }
            if env.proves_eq0(sub(self.segs[j].start, i)) {
                return Ok(j);
            }
            let end = self.segs[j].end;
            if end == i || (j + 1 == n && env.proves_eq0(sub(self.len, i))) {
                return Ok(j + 1);
            }
            if !dec(env, env.lt(i, end))? {
                continue;
            }
            // start <= i < end; is it at the start?
            if !dec(env, env.lt(self.segs[j].start, i))? {
                return Ok(j);
            }
            let s = self.segs[j].clone();
            let (a, b) = match &s.k {
                SK::List(l) => {
                    let k = env.norm(sub(i, s.start));
                    match konst(k) {
                        Some(c) => (SK::List(Rc::new(l[..c as usize].to_vec())), SK::List(Rc::new(l[c as usize..].to_vec()))),
                        None => {
                            if l.iter().all(|x| *x == l[0]) && no_idx(&l[0]) {
                                (SK::Fam(l[0].clone()), SK::Fam(l[0].clone()))
                            } else {
                                let mid = l.len() / 2;
                                return Err(Stop::Split(env.lt(k, int(mid.max(1) as i128))));
                            }
                        }
                    }
                }
                k => (k.clone(), k.clone()),
            };
            self.segs[j].end = i;
            self.segs[j].k = a;
            self.segs.insert(j + 1, Seg { start: i, end: s.end, k: b });
            return Ok(j + 1);
        }
        Ok(n)
    }
    pub fn set(&mut self, env: &Env, i: T, v: V) -> R<()> {
        let i = env.norm(i);
        // fast path
        let j = self.find(env, i)?;
        let rel = env.norm(sub(i, self.segs[j].start));
        if let SK::List(l) = &mut self.segs[j].k {
            if let Some(c) = konst(rel) {
                if c < 0 || c as usize >= l.len() {
                    return Err(Stop::Dead);
                }
                Rc::make_mut(l)[c as usize] = v;
                return Ok(());
            }
        }
        let a = self.split_at(env, i)?;
        let b = self.split_at(env, addc(i, 1))?;
        self.segs.drain(a..b);
        self.segs.insert(a, Seg { start: i, end: env.norm(addc(i, 1)), k: SK::List(Rc::new(vec![v])) });
        self.coalesce(env);
        Ok(())
    }
    /// Elements [a, b) as segments relative to a.
    pub fn slice(&self, env: &Env, a: T, b: T) -> R<Vec<Seg>> {
        if a == b || env.proves_eq0(sub(a, b)) {
            return Ok(vec![]);
        }
        let mut c = self.clone();
        let x = c.split_at(env, a)?;
        let y = c.split_at(env, b)?;
        Ok(c.segs[x..y]
            .iter()
            .map(|s| Seg {
                start: env.norm(sub(s.start, a)),
                end: env.norm(sub(s.end, a)),
                k: match &s.k {
                    SK::Fam(v) => SK::Fam(shift(env, v, a)),
                    k => k.clone(),
                },
            })
            .collect())
    }
    /// Overwrite from index a with the given segments (relative), up to b.
    pub fn splice(&mut self, env: &Env, a: T, b: T, segs: Vec<Seg>) -> R<()> {
        if segs.is_empty() {
            return Ok(());
        }
        let x = self.split_at(env, a)?;
        let y = self.split_at(env, b)?;
        let v: Vec<Seg> = segs
            .into_iter()
            .map(|s| Seg {
                start: env.norm(add(s.start, a)),
                end: env.norm(add(s.end, a)),
                k: match s.k {
                    SK::Fam(v) => SK::Fam(shift(env, &v, mulc(a, -1))),
                    k => k,
                },
            })
            .collect();
        self.segs.splice(x..y, v);
        self.coalesce(env);
        Ok(())
    }
    pub fn coalesce(&mut self, _env: &Env) {
        let mut o: Vec<Seg> = vec![];
        for s in self.segs.drain(..) {
            if s.start == s.end {
                continue;
            }
            if let Some(l) = o.last_mut() {
                match (&mut l.k, &s.k) {
                    (SK::List(a), SK::List(b)) => {
                        Rc::make_mut(a).extend(b.iter().cloned());
                        l.end = s.end;
                        continue;
                    }
                    (SK::Fam(a), SK::Fam(b)) if a == b => {
                        l.end = s.end;
                        continue;
                    }
                    (SK::Uninit, SK::Uninit) => {
                        l.end = s.end;
                        continue;
                    }
                    (SK::Any, _) | (_, SK::Any) if false => {}
                    _ => {}
                }
            }
            o.push(s);
        }
        self.segs = o;
    }
}
fn list_get(env: &Env, l: &Rc<Vec<V>>, k: T) -> R<V> {
    if l.iter().all(|x| *x == l[0]) {
        return Ok(l[0].clone());
    }
    let ints: Option<Vec<T>> = l.iter().map(|v| if let V::Int(t) = v { Some(*t) } else { None }).collect();
    if let Some(ts) = ints {
        let cs: Option<Vec<i128>> = ts.iter().map(|t| konst(*t)).collect();
        if let Some(cs) = cs {
            let (lo, hi) = (*cs.iter().min().unwrap(), *cs.iter().max().unwrap());
            // a table which is linear over GF(2)
            if cs.len().is_power_of_two() && cs.len() >= 2 && lo >= 0 {
                let n = cs.len().trailing_zeros() as usize;
                let lin = cs[0] == 0
                    && (0..cs.len()).all(|i| {
                        let mut x = 0;
                        for b in 0..n {
                            if i >> b & 1 != 0 {
                                x ^= cs[1 << b];
                            }
                        }
                        x == cs[i]
                    });
                let kb = if !lin {
                    None
                } else if single_root(k).is_some() {
                    env.bits_strict(k, n as u8)
                } else {
                    Some(env.bits(k, n as u8))
                };
                if let Some(kb) = kb {
                    let mut w = 8;
                    while hi >= 1i128 << w {
                        w *= 2;
                    }
                    let mut out = vec![bf_const(false); w];
                    for b in 0..n {
                        for o in 0..w {
                            if cs[1 << b] >> o & 1 != 0 {
                                out[o] = bf_xor(&out[o], &kb[b]);
                            }
                        }
                    }
                    return Ok(V::Int(env.from_bits(&out, false)));
                }
            }
            if let Some(root) = single_root(k) {
                let tb = table(k, root);
                return Ok(V::Int(mk_tab(root, tb.iter().map(|&x| if x >= 0 && (x as usize) < cs.len() { cs[x as usize] } else { cs[0] }).collect())));
            }
            if l.len() > 16 {
                let mut args = vec![k];
                args.extend(cs.iter().map(|&x| int(x)));
                return Ok(V::Int(at(AK::Op { op: "tab", args, lo, hi })));
            }
        }
    }
    let (lo, hi) = env.ival(k);
    let (lo, hi) = (lo.max(0), hi.min(l.len() as i128 - 1));
    let (mut lo, mut hi) = (lo, hi);
    loop {
        if lo > hi {
            return Err(Stop::Dead);
        }
        if lo == hi {
            return Ok(l[lo as usize].clone());
        }
        let mid = (lo + hi) / 2 + 1;
        if dec(env, env.lt(k, int(mid)))? {
            hi = mid - 1;
        } else {
            lo = mid;
        }
    }
}
/// Template instantiated at index i.
pub fn inst(env: &Env, v: &V, i: T) -> V {
    let ia = idx_atom();
    map_v(v, &mut |t| {
        if tdepends(t, ia) { env.norm(subst1(env, t, ia, i)) } else { t }
    })
}
pub fn no_idx(v: &V) -> bool {
    let mut ok = true;
    let ia = idx_atom();
    visit_v(v, &mut |t| ok &= !tdepends(t, ia));
    ok
}
/// v as a function of j such that v'(j) = v(j + a).
pub fn shift(env: &Env, v: &V, a: T) -> V {
    if a == int(0) {
        return v.clone();
    }
    inst(env, v, add(idx0(), a))
}
