//! Machine states and memory access.
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

/// A decision taken on the way.
pub struct Node {
    pub parent: Option<Rc<Node>>,
    pub c: T,
    pub want: bool,
    pub before: Rc<Env>,
    pub depth: u32,
}
#[derive(Clone, PartialEq, Default)]
pub struct Gh {
    /// Active stub groups.
    pub cfg: Vec<String>,
    /// Trace partition: states of different partitions are not merged.
    pub part: Vec<u32>,
    /// Limit on the number of bytes a single allocation may have.
    pub alloc_limit: Option<T>,
    /// Number of allocations.
    pub allocs: u32,
    /// Panics are expected from here on.
    pub panic_ok: bool,
    pub mode: u32,
}
#[derive(Clone)]
pub struct St {
    pub fr: Vec<Rc<Vec<V>>>,
    pub heap: Rc<Vec<V>>,
    pub env: Rc<Env>,
    pub path: Option<Rc<Node>>,
    /// The decisions this state stands for, exactly.
    pub hist: crate::eval::H,
    /// Ghost registers.
    pub regs: Rc<Vec<V>>,
    pub g: Rc<Gh>,
}
impl St {
    pub fn new() -> St {
        St { fr: vec![], heap: Rc::new(vec![]), env: Rc::new(Env::new()), path: None, hist: None, regs: Rc::new(vec![]), g: Rc::new(Gh::default()) }
    }
    /// This state with the condition decided.
    pub fn with(&self, c: T, want: bool) -> Option<St> {
        let mut e = (*self.env).clone();
        if !e.assume(c, want) {
            return None;
        }
        let depth = self.path.as_ref().map(|p| p.depth + 1).unwrap_or(1);
        Some(St {
            env: Rc::new(e),
            path: Some(Rc::new(Node { parent: self.path.clone(), c, want, before: self.env.clone(), depth })),
            hist: Some(Rc::new(crate::eval::Hist::Dec(c, want, self.hist.clone()))),
            fr: self.fr.clone(),
            heap: self.heap.clone(),
            regs: self.regs.clone(),
            g: self.g.clone(),
        })
    }
    pub fn alloc(&mut self, v: V) -> Ptr {
        let h = Rc::make_mut(&mut self.heap);
        h.push(v);
        Ptr { base: Base::Heap(h.len() as u32 - 1), proj: vec![], meta: Meta::Thin }
    }
    fn root(&self, b: Base) -> R<V> {
        Ok(match b {
            Base::Local(f, l) => match self.fr.get(f as usize).and_then(|x| x.get(l as usize)) {
                Some(v) => v.clone(),
                None => return fail("dangling local"),
            },
            Base::Heap(i) => match self.heap.get(i as usize) {
                Some(v) => v.clone(),
                None => return fail("dangling heap"),
            },
            Base::Static(k) => crate::types::static_val(k),
            Base::Dangling => return Err(Stop::Ub("access through a dangling pointer".into())),
        })
    }
    pub fn read(&self, p: &Ptr) -> R<V> {
        // borrow rather than clone the root where possible
        match p.base {
            Base::Local(f, l) => {
                if let Some(v) = self.fr.get(f as usize).and_then(|x| x.get(l as usize)) {
                    return walk(&self.env, v, &p.proj);
                }
            }
            Base::Heap(i) => {
                if let Some(v) = self.heap.get(i as usize) {
                    return walk(&self.env, v, &p.proj);
                }
            }
            _ => {}
        }
        let r = self.root(p.base)?;
        walk(&self.env, &r, &p.proj)
    }
    pub fn write(&mut self, p: &Ptr, v: V) -> R<()> {
        let env = self.env.clone();
        match p.base {
            Base::Local(f, l) => {
                let fr = match self.fr.get_mut(f as usize) {
                    Some(x) => Rc::make_mut(x),
                    None => return fail("dangling local"),
                };
                put(&env, &mut fr[l as usize], &p.proj, v)
            }
            Base::Heap(i) => {
                let h = Rc::make_mut(&mut self.heap);
                put(&env, &mut h[i as usize], &p.proj, v)
            }
            Base::Static(_) => fail("write to a static"),
            Base::Dangling => Err(Stop::Ub("write through a dangling pointer".into())),
        }
    }
    /// The container a slice pointer points into, the start index, the length.
    pub fn slice_of(&self, p: &Ptr) -> R<(Ptr, T)> {
        match p.proj.last() {
            Some(Pj::I(t)) => {
                let mut q = p.clone();
                q.proj.pop();
                q.meta = Meta::Thin;
                // nested indices into one array
                if let Some(Pj::I(u)) = q.proj.last().cloned() {
                    if !self.is_arr_at(&q) {
                        q.proj.pop();
                        return Ok((q, add(t.clone(), u)));
                    }
                }
                Ok((q, *t))
            }
            _ => fail("slice pointer without index"),
        }
    }
    /// Does the pointer designate a place holding an array value?
    pub fn is_arr_at(&self, p: &Ptr) -> bool {
        let mut q = p.clone();
        if let Some(Pj::I(_)) = q.proj.last() {
            q.proj.pop();
            if let Ok(V::Arr(a)) = self.read(&q) {
                return elem_is_arr(&a);
            }
            return false;
        }
        matches!(self.read(p), Ok(V::Arr(_)))
    }
    /// Elements [a, a+n) behind a slice pointer as an array value.
    pub fn read_slice(&self, p: &Ptr, n: T) -> R<Arr> {
        let env = &self.env;
        if n == int(0) || env.proves_eq0(n) {
            return Ok(Arr { len: int(0), segs: vec![] });
        }
        let (q, off) = self.slice_of(p)?;
        match self.read(&q)? {
            V::Arr(a) => {
                range_ok(env, off, n, a.len)?;
                Ok(Arr { len: n, segs: a.slice(env, off, env.norm(add(off, n)))? })
            }
            v => {
                if n == int(1) && env.norm(off) == int(0) {
                    return Ok(Arr::list(vec![v]));
                }
                if let V::Uninit = v {
                    return Ok(Arr::uninit(n));
                }
                fail("slice of something which is not an array")
            }
        }
    }
    pub fn write_slice(&mut self, p: &Ptr, src: &Arr) -> R<()> {
        let env = self.env.clone();
        if src.len == int(0) || env.proves_eq0(src.len) {
            return Ok(());
        }
        let (q, off) = self.slice_of(p)?;
        match self.read(&q)? {
            V::Arr(a) => {
                range_ok(&env, off, src.len, a.len)?;
                let mut a = (*a).clone();
                a.splice(&env, off, env.norm(add(off, src.len)), src.segs.clone())?;
                self.write(&q, V::Arr(Rc::new(a)))
            }
            _ => {
                if src.len == int(1) && env.norm(off) == int(0) {
                    let v = src.get(&env, int(0))?;
                    return self.write(&q, v);
                }
                fail("slice of something which is not an array")
            }
        }
    }
}
pub fn range_ok(env: &Env, off: T, n: T, len: T) -> R<()> {
    if !dec(env, env.ge0(off))? {
        return Err(Stop::Ub("index before the start of an array".into()));
    }
    if !dec(env, env.le(add(off, n), len))? {
        return Err(Stop::Ub("index past the end of an array".into()));
    }
    Ok(())
}
pub fn elem_is_arr(a: &Arr) -> bool {
    match a.segs.first().map(|s| &s.k) {
        Some(SK::List(l)) => matches!(l.first(), Some(V::Arr(_))),
        Some(SK::Fam(v)) => matches!(v, V::Arr(_)),
        _ => false,
    }
}
fn walk(env: &Env, v: &V, proj: &[Pj]) -> R<V> {
    let Some((h, rest)) = proj.split_first() else {
        return Ok(v.clone());
    };
    match (h, v) {
        (_, V::Top) => Ok(V::Top),
        (Pj::F(i), V::Agg(x)) => match x.get(*i as usize) {
            Some(y) => walk(env, y, rest),
            None => Ok(V::Uninit),
        },
        (Pj::V(k, i), V::En(_, m)) => match m.get(k) {
            Some(x) => match x.get(*i as usize) {
                Some(y) => walk(env, y, rest),
                None => Ok(V::Uninit),
            },
            None => fail("field of another variant"),
        },
        (Pj::I(t), V::Arr(a)) => {
            if let Some(Pj::I(u)) = rest.first() {
                if !elem_is_arr(a) {
                    let mut r = rest.to_vec();
                    r[0] = Pj::I(add(*t, *u));
                    return walk(env, v, &r);
                }
            }
            let t = env.norm(*t);
            if !dec(env, env.ge0(t))? {
                return Err(Stop::Ub("index before the start of an array".into()));
            }
            if !dec(env, env.lt(t, a.len))? {
                return Err(Stop::Ub("index past the end of an array".into()));
            }
            let e = a.get(env, t)?;
            if rest.is_empty() { Ok(e) } else { walk(env, &e, rest) }
        }
        (Pj::I(t), _) => {
            if dec(env, env.eq0(*t))? {
                walk(env, v, rest)
            } else {
                Err(Stop::Ub("index past the end of an object".into()))
            }
        }
        (_, V::Uninit) => Ok(V::Uninit),
        _ => fail(format!("projection {:?} of {:?}", h, v)),
    }
}
pub fn put(env: &Env, v: &mut V, proj: &[Pj], n: V) -> R<()> {
    let Some((h, rest)) = proj.split_first() else {
        *v = n;
        return Ok(());
    };
    match h {
        Pj::F(i) => {
            if let V::Uninit = v {
                *v = agg(vec![]);
            }
            let V::Agg(x) = v else { return fail("field write to a non-aggregate") };
            let x = Rc::make_mut(x);
            while x.len() <= *i as usize {
                x.push(V::Uninit);
            }
            put(env, &mut x[*i as usize], rest, n)
        }
        Pj::V(k, i) => {
            if let V::Uninit = v {
                *v = en(*k, vec![]);
            }
            let V::En(_, m) = v else { return fail("variant write to a non-enum") };
            let m = Rc::make_mut(m);
            let Some(x) = m.get_mut(k) else { return fail("write to a field of another variant") };
            let x = Rc::make_mut(x);
            while x.len() <= *i as usize {
                x.push(V::Uninit);
            }
            put(env, &mut x[*i as usize], rest, n)
        }
        Pj::I(t) => {
            if let V::Arr(a) = v {
                if let Some(Pj::I(u)) = rest.first() {
                    if !elem_is_arr(a) {
                        let mut r = rest.to_vec();
                        r[0] = Pj::I(add(*t, *u));
                        return put(env, v, &r, n);
                    }
                }
                let t = env.norm(*t);
                if !dec(env, env.ge0(t))? {
                    return Err(Stop::Ub("write before the start of an array".into()));
                }
                if !dec(env, env.lt(t, a.len))? {
                    return Err(Stop::Ub("write past the end of an array".into()));
                }
                let nv = if rest.is_empty() {
                    if let (V::Arr(b), false) = (&n, elem_is_arr(a)) {
                        let known = a.segs.iter().any(|s| matches!(&s.k, SK::List(l) if matches!(l[0], V::Int(_))) || matches!(&s.k, SK::Fam(V::Int(_))));
                        if known {
                            let b = b.clone();
                            let e = env.norm(add(t, b.len));
                            return Rc::make_mut(a).splice(env, t, e, b.segs.clone());
                        }
                    }
                    n
                } else {
                    let mut e = a.get(env, t)?;
                    put(env, &mut e, rest, n)?;
                    e
                };
                return Rc::make_mut(a).set(env, t, nv);
            }
            if dec(env, env.eq0(*t))? {
                put(env, v, rest, n)
            } else {
                Err(Stop::Ub("write past the end of an object".into()))
            }
        }
    }
}

// ------------------------------------------------------------------ merging

fn ite(env: &Env, c: T, a: T, b: T) -> T {
    // c ? a : b
    let r = add(b, mul(c, sub(a, b)));
    if let Some(root) = single_root(r) {
        if konst(r).is_none() {
            return mk_tab(root, table(r, root).to_vec());
        }
    }
    env.norm(r)
}
/// How to combine two values.
pub enum Comb<'a> {
    Same,
    Ite(T),
    /// Values of the root for which the first one holds.
    Root(A, &'a dyn Fn(usize) -> Option<bool>),
}
fn comb_t(env: &Env, k: &Comb, a: T, b: T) -> Option<T> {
    if a == b {
        return Some(a);
    }
    match k {
        Comb::Same => None,
        Comb::Ite(c) => Some(ite(env, *c, a, b)),
        Comb::Root(root, f) => {
            let ok = |t: T| konst(t).is_some() || single_root(t) == Some(*root);
            if !ok(a) || !ok(b) {
                return None;
            }
            let n = arange(*root).1 as usize + 1;
            let val = |t: T, v: usize| match konst(t) {
                Some(c) => c,
                None => table(t, *root)[v],
            };
            let mut last = 0;
            let mut vals = Vec::with_capacity(n);
            for v in 0..n {
                let x = match f(v) {
                    Some(true) => val(a, v),
                    Some(false) => val(b, v),
                    None => last,
                };
                last = x;
                vals.push(x);
            }
            Some(mk_tab(*root, vals))
        }
    }
}
pub fn comb_v(env: &Env, k: &Comb, enums: bool, a: &V, b: &V) -> Option<V> {
    if a == b {
        return Some(a.clone());
    }
    match (a, b) {
        (V::Int(x), V::Int(y)) => Some(V::Int(comb_t(env, k, *x, *y)?)),
        (V::Agg(x), V::Agg(y)) if x.len() == y.len() => {
            let v: Option<Vec<V>> = x.iter().zip(y.iter()).map(|(p, q)| comb_v(env, k, enums, p, q)).collect();
            Some(agg(v?))
        }
        (V::En(t, m), V::En(u, n)) => {
            if t != u && !enums {
                return None;
            }
            let t = comb_t(env, k, *t, *u)?;
            let mut o = (**m).clone();
            for (var, y) in n.iter() {
                match o.get(var).cloned() {
                    None => {
                        o.insert(*var, y.clone());
                    }
                    Some(x) => {
                        if x.len() != y.len() {
                            return None;
                        }
                        let v: Option<Vec<V>> = x.iter().zip(y.iter()).map(|(p, q)| comb_v(env, k, enums, p, q)).collect();
                        o.insert(*var, Rc::new(v?));
                    }
                }
            }
            Some(V::En(t, Rc::new(o)))
        }
        (V::IoErr(a1, a2), V::IoErr(b1, b2)) => Some(V::IoErr(comb_t(env, k, *a1, *b1)?, comb_t(env, k, *a2, *b2)?)),
        (V::Ptr(p), V::Ptr(q)) => {
            if p.base != q.base || p.proj.len() != q.proj.len() {
                return None;
            }
            let mut r = (**p).clone();
            for (x, y) in r.proj.iter_mut().zip(q.proj.iter()) {
                match (&mut *x, y) {
                    (Pj::I(a), Pj::I(b)) => *a = comb_t(env, k, *a, *b)?,
                    (a, b) if *a == *b => {}
                    _ => return None,
                }
            }
            r.meta = match (p.meta, q.meta) {
                (Meta::Len(a), Meta::Len(b)) => Meta::Len(comb_t(env, k, a, b)?),
                (a, b) if a == b => a,
                _ => return None,
            };
            Some(V::Ptr(Rc::new(r)))
        }
        (V::Arr(x), V::Arr(y)) => {
            if x.len != y.len || x.segs.len() != y.segs.len() {
                return None;
            }
            let mut segs = vec![];
            for (s, r) in x.segs.iter().zip(y.segs.iter()) {
                if s.start != r.start || s.end != r.end {
                    return None;
                }
                let kk = match (&s.k, &r.k) {
                    (a, b) if a == b => a.clone(),
                    (SK::List(a), SK::List(b)) if a.len() == b.len() => {
                        let v: Option<Vec<V>> = a.iter().zip(b.iter()).map(|(p, q)| comb_v(env, k, enums, p, q)).collect();
                        SK::List(Rc::new(v?))
                    }
                    (SK::Fam(a), SK::Fam(b)) => SK::Fam(comb_v(env, k, enums, a, b)?),
                    _ => return None,
                };
                segs.push(Seg { start: s.start, end: s.end, k: kk });
            }
            Some(V::Arr(Rc::new(Arr { len: x.len, segs })))
        }
        _ => None,
    }
}
fn merge_hist(a: &crate::eval::H, b: &crate::eval::H) -> crate::eval::H {
    use crate::eval::Hist;
    match (a, b) {
        (None, None) => return None,
        (Some(x), Some(y)) => {
            if Rc::ptr_eq(x, y) {
                return a.clone();
            }
            if let (Hist::Dec(c, w, p), Hist::Dec(d, v, q)) = (&**x, &**y) {
                let same = match (p, q) {
                    (None, None) => true,
                    (Some(p), Some(q)) => Rc::ptr_eq(p, q),
                    _ => false,
                };
                if same && c == d && w != v {
                    return p.clone();
                }
            }
        }
        _ => {}
    }
    Some(Rc::new(Hist::Or(a.clone(), b.clone())))
}
fn comb_mem(k: &Comb, enums: bool, env: &Rc<Env>, path: &Option<Rc<Node>>, a: &St, b: &St) -> Option<St> {
    let mut fr = vec![];
    for (x, y) in a.fr.iter().zip(b.fr.iter()) {
        if Rc::ptr_eq(x, y) {
            fr.push(x.clone());
            continue;
        }
        let v: Option<Vec<V>> = x.iter().zip(y.iter()).map(|(p, q)| comb_v(env, k, enums, p, q)).collect();
        fr.push(Rc::new(v?));
    }
    let heap = if Rc::ptr_eq(&a.heap, &b.heap) {
        a.heap.clone()
    } else {
        if a.heap.len() != b.heap.len() {
            return None;
        }
        let v: Option<Vec<V>> = a.heap.iter().zip(b.heap.iter()).map(|(p, q)| comb_v(env, k, enums, p, q)).collect();
        Rc::new(v?)
    };
    let regs = if a.regs == b.regs {
        a.regs.clone()
    } else {
        if a.regs.len() != b.regs.len() {
            return None;
        }
        let v: Option<Vec<V>> = a.regs.iter().zip(b.regs.iter()).map(|(p, q)| comb_v(env, k, enums, p, q)).collect();
        Rc::new(v?)
    };
    Some(St { fr, heap, regs, env: env.clone(), path: path.clone(), hist: merge_hist(&a.hist, &b.hist), g: a.g.clone() })
}
fn suffixes(a: &St, b: &St) -> (Option<Rc<Node>>, Vec<Rc<Node>>, Vec<Rc<Node>>) {
    let (mut x, mut y) = (a.path.clone(), b.path.clone());
    let (mut xs, mut ys) = (vec![], vec![]);
    loop {
        match (&x, &y) {
            (None, None) => break,
            (Some(p), Some(q)) if Rc::ptr_eq(p, q) => break,
            _ => {}
        }
        let dx = x.as_ref().map(|n| n.depth).unwrap_or(0);
        let dy = y.as_ref().map(|n| n.depth).unwrap_or(0);
        if dx >= dy {
            let n = x.unwrap();
            x = n.parent.clone();
            xs.push(n.clone());
            if dx == dy {
                let n = y.unwrap();
                y = n.parent.clone();
                ys.push(n.clone());
            }
        } else {
            let n = y.unwrap();
            y = n.parent.clone();
            ys.push(n.clone());
        }
    }
    (x, xs, ys)
}
fn env_root_set(e: &Env, root: A) -> [u64; 4] {
    if let Some(s) = e.vs.get(&root) {
        return *s;
    }
    let (lo, hi) = e.arange(root);
    let mut s = [0u64; 4];
    for v in lo.max(0)..=hi.min(255) {
        vs_set(&mut s, v as usize);
    }
    s
}
pub fn join_env(e0: &Env, a: &Env, b: &Env) -> Env {
    let mut e = e0.clone();
    for (r, s) in &a.vs {
        if let Some(t) = b.vs.get(r) {
            let mut u = *s;
            for i in 0..4 {
                u[i] |= t[i];
            }
            let old = env_root_set(&e, *r);
            if old != u {
                let root = *r;
                e.filter_root(root, |v| vs_has(&u, v));
            }
        }
    }
    for g in &a.ges {
        if b.ges.contains(g) {
            e.add_ge(*g);
        }
    }
    for g in &a.nes {
        if b.nes.contains(g) {
            e.add_ne(*g);
        }
    }
    for (x, r) in &a.bounds {
        if let Some(q) = b.bounds.get(x) {
            let (l, h) = (r.0.min(q.0), r.1.max(q.1));
            let (ol, oh) = e.arange(*x);
            if l > ol {
                e.add_ge(addc(var(*x), -l));
            }
            if h < oh {
                e.add_ge(sub(int(h), var(*x)));
            }
        }
    }
    e
}
/// Merge two states at the same program point, without losing information if possible.
pub fn merge2(a: &St, b: &St, enums: bool, allow_join: bool) -> Option<St> {
    if a.fr.len() != b.fr.len() || a.g != b.g {
        return None;
    }
    let (common, xs, ys) = suffixes(a, b);
    let before = match (xs.last(), ys.last()) {
        (Some(n), _) | (None, Some(n)) => n.before.clone(),
        _ => a.env.clone(),
    };
    if xs.is_empty() && ys.is_empty() {
        // same decisions
        if Rc::ptr_eq(&a.env, &b.env) {
            return comb_mem(&Comb::Same, false, &a.env, &common, a, b);
        }
        let mut s = comb_mem(&Comb::Same, false, &a.env, &common, a, b)?;
        let e0 = match &common {
            None => Env::new(),
            Some(n) => {
                let mut e = (*n.before).clone();
                e.assume(n.c, n.want);
                e
            }
        };
        s.env = Rc::new(join_env(&e0, &a.env, &b.env));
        return Some(s);
    }
    // the same memory
    let same = comb_mem(&Comb::Same, false, &before, &common, a, b);
    if xs.len() == 1 && ys.len() == 1 && xs[0].c == ys[0].c && xs[0].want != ys[0].want {
        if same.is_some() {
            return same;
        }
        let (p, q) = if xs[0].want { (a, b) } else { (b, a) };
        if let Some(s) = comb_mem(&Comb::Ite(xs[0].c), enums, &before, &common, p, q) {
            return Some(s);
        }
        return None;
    }
    // decisions on a single root
    let mut root = None;
    let mut single = true;
    for n in xs.iter().chain(ys.iter()) {
        match single_root(before.norm(n.c)) {
            Some(r) if root.is_none() || root == Some(r) => root = Some(r),
            _ => single = false,
        }
    }
    if let (true, Some(root)) = (single, root) {
        let (sa, sb) = (env_root_set(&a.env, root), env_root_set(&b.env, root));
        if (0..4).any(|i| sa[i] & sb[i] != 0) {
            return if allow_join { joined(same, &before, a, b) } else { None };
        }
        let f = |v: usize| {
            if vs_has(&sa, v) {
                Some(true)
            } else if vs_has(&sb, v) {
                Some(false)
            } else {
                None
            }
        };
        let mut u = sa;
        for i in 0..4 {
            u[i] |= sb[i];
        }
        let mut e = (*before).clone();
        if !e.filter_root(root, |v| vs_has(&u, v)) {
            return None;
        }
        let vals: Vec<i128> = (0..arange(root).1 as usize + 1).map(|v| vs_has(&u, v) as i128).collect();
        let c = mk_tab(root, vals);
        let path = if konst(c).is_some() {
            common.clone()
        } else {
            Some(Rc::new(Node { parent: common.clone(), c, want: true, before: before.clone(), depth: common.as_ref().map(|p| p.depth + 1).unwrap_or(1) }))
        };
        return comb_mem(&Comb::Root(root, &f), enums, &Rc::new(e), &path, a, b);
    }
    if allow_join { joined(same, &before, a, b) } else { None }
}
fn joined(same: Option<St>, before: &Env, a: &St, b: &St) -> Option<St> {
    let mut s = same?;
    s.env = Rc::new(join_env(before, &a.env, &b.env));
    Some(s)
}
