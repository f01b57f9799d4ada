//! Functions the analysis models directly.
use crate::interp::*;
use crate::mem::*;
use crate::term::*;
use crate::types::*;
use crate::val::Base;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

thread_local!(static ARRS: RefCell<HashMap<V, u32>> = RefCell::new(HashMap::new()));
thread_local!(static NARR: RefCell<u32> = RefCell::new(1000));
pub fn new_arr_id() -> u32 {
    NARR.with(|x| {
        *x.borrow_mut() += 1;
        *x.borrow()
    })
}
/// A number identifying array contents.
pub fn arr_id(v: &V) -> u32 {
    ARRS.with(|x| {
        let mut x = x.borrow_mut();
        let n = x.len() as u32;
        *x.entry(v.clone()).or_insert(n)
    })
}
/// The elements of a list of integers that has been given this number.
pub fn arr_terms(id: u32) -> Option<Vec<T>> {
    let v = ARRS.with(|x| x.borrow().iter().find(|(_, i)| **i == id).map(|(v, _)| v.clone()))?;
    let V::Arr(a) = v else { return None };
    let mut r = vec![];
    for s in &a.segs {
        let SK::List(l) = &s.k else { return None };
        for v in l.iter() {
            let V::Int(t) = v else { return None };
            r.push(*t);
        }
    }
    Some(r)
}

const INTR: &[&str] = &[
    "transmute", "transmute_unchecked", "needs_drop", "saturating_add", "saturating_sub", "rotate_left", "rotate_right", "ctpop", "ctlz", "ctlz_nonzero", "cttz", "cttz_nonzero", "bswap", "bitreverse", "exact_div",
    "offset", "arith_offset", "ptr_offset_from", "ptr_offset_from_unsigned", "copy_nonoverlapping", "copy", "write_bytes", "read_via_copy", "write_via_move", "compare_bytes", "raw_eq", "assume", "likely", "unlikely",
    "cold_path", "black_box", "caller_location", "const_eval_select", "discriminant_value", "three_way_compare", "abort", "is_val_statically_known", "select_unpredictable", "size_of_val", "align_of_val", "unreachable",
    "add_with_overflow", "sub_with_overflow", "mul_with_overflow", "wrapping_add", "wrapping_sub", "wrapping_mul", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "ptr_guaranteed_cmp", "typed_swap_nonoverlapping", "min_align_of_val", "pref_align_of", "unchecked_shl", "unchecked_shr", "unchecked_div", "unchecked_rem", "disjoint_bitor", "volatile_load", "volatile_store", "ptr_mask", "type_id", "type_name", "size_of", "align_of", "min_align_of", "slice_get_unchecked", "ptr_metadata", "aggregate_raw_ptr",
];

pub fn is_native(def: &str, intr: Option<&str>) -> bool {
    if let Some(i) = intr {
        return INTR.contains(&i);
    }
    let last = def.rsplit("::").next().unwrap_or(def);
    if last.starts_with("vx_") || last == "precondition_check" {
        return true;
    }
    if def.contains("RawVecInner") && matches!(last, "try_allocate_in" | "grow_amortized" | "grow_exact" | "shrink_unchecked" | "shrink" | "deallocate" | "current_memory") {
        return true;
    }
    if last == "drop_in_place" || last == "drop_glue" || io_new(def) || def.ends_with("::extend_with") || def.ends_with("io::Error::kind") || last == "box_new_uninit" || def.ends_with("str::from_utf8") {
        return true;
    }
    if last.starts_with("panic") && def.contains("panicking") {
        return true;
    }
    false
}
/// Functions which make an I/O error of a kind, their first argument.
fn io_new(def: &str) -> bool {
    def.contains("Error>::new") && def.contains("io") || def.contains("io::") && (def.contains("Error::new") || def.contains("Error as ") && def.contains("From<") && def.contains("ErrorKind>"))
}
fn ok1(st: &St, v: V) -> R<Out> {
    Ok(vec![(st.clone(), v)])
}
fn some(v: V) -> V {
    en(1, vec![v])
}
fn ptr(v: &V) -> R<Rc<Ptr>> {
    match v {
        V::Ptr(p) => Ok(p.clone()),
        V::Uninit => Err(Stop::Ub("use of an uninitialised pointer".into())),
        v => fail(format!("expected a pointer, found {}", show_v(v))),
    }
}
fn targ(n: &Nat, i: usize) -> R<Ty> {
    let tys: Vec<Ty> = n.inst.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }).collect();
    match tys.get(i) {
        Some(t) => Ok(*t),
        None => fail("type argument"),
    }
}
fn dangling() -> V {
    V::Ptr(Rc::new(Ptr { base: Base::Dangling, proj: vec![Pj::I(int(0))], meta: Meta::Thin }))
}
pub fn str_of(st: &St, v: &V) -> R<String> {
    let p = ptr(v)?;
    let Meta::Len(n) = p.meta else { return fail("string") };
    let a = st.read_slice(&p, n)?;
    let Some(n) = konst(n) else { return fail("string") };
    let mut s = vec![];
    for i in 0..n {
        match a.get(&st.env, int(i))? {
            V::Int(t) => match konst(t) {
                Some(c) => s.push(c as u8),
                None => return fail("string is not constant"),
            },
            _ => return fail("string"),
        }
    }
    Ok(String::from_utf8_lossy(&s).to_string())
}
fn layout_size(st: &St, v: &V) -> R<T> {
    match v {
        V::Agg(x) => match &x[0] {
            V::Int(t) => Ok(st.env.norm(*t)),
            _ => fail("layout"),
        },
        V::Int(t) => Ok(*t),
        _ => fail("layout"),
    }
}
/// The result of allocating n elements of a size: whether it is allowed.
fn alloc_check(ip: &mut Interp, st: &mut St, n: T, size: T) -> R<bool> {
    let bytes = mul(n, size);
    let max = int(i64::MAX as i128);
    if !dec(&st.env, st.env.le(bytes, max))? {
        return Ok(false);
    }
    let g = Rc::make_mut(&mut st.g);
    g.allocs += 1;
    if let Some(l) = g.alloc_limit {
        // register 8: bytes allocated while there is a limit
        let r = Rc::make_mut(&mut st.regs);
        while r.len() <= 8 {
            r.push(V::Int(int(0)));
        }
        if let V::Int(t) = r[8] {
            r[8] = V::Int(add(t, bytes));
        }
        ip.stats.obligations += 1;
        if !dec(&st.env, st.env.le(bytes, l))? {
            ip.event(EvK::Alloc, "allocation exceeds the permitted size".into(), st.clone());
            return Err(Stop::Dead);
        }
    }
    Ok(true)
}

pub fn call(ip: &mut Interp, n: &Nat, a: Vec<V>, st: &mut St) -> R<Out> {
    if let Some(i) = &n.intr {
        return intrinsic(ip, n, i, a, st);
    }
    let def = n.def.as_str();
    let last = def.rsplit("::").next().unwrap_or(def);
    if last.starts_with("vx_") {
        return vx(ip, n, last, a, st);
    }
    if last == "precondition_check" || last == "drop_in_place" || last == "drop_glue" || last == "__rust_no_alloc_shim_is_unstable_v2" {
        return ok1(st, unit());
    }
    if n.never {
        let m = match last {
            "slice_error_fail" | "slice_index_fail" => "slice index out of range".to_string(),
            "unwrap_failed" | "unwrap_failed_inner" => "unwrap of a missing value".to_string(),
            "len_mismatch_fail" => "slices of different length".to_string(),
            "handle_error" => "capacity overflow".to_string(),
            "handle_alloc_error" => return Err(Stop::Dead),
            _ => "explicit panic".to_string(),
        };
        return Err(Stop::Panic(m));
    }
    if def.contains("RawVecInner") {
        match last {
            "try_allocate_in" => {
                let cap = ip.as_int(st, &a[0])?;
                let size = layout_size(st, &a[3])?;
                let zero = match &a[1] {
                    V::En(t, _) => konst(*t) == Some(1),
                    _ => false,
                };
                if cap == int(0) || size == int(0) || dec(&st.env, st.env.eq0(cap))? {
                    return ok1(st, en(0, vec![agg(vec![dangling(), V::Int(int(0)), unit()])]));
                }
                if !alloc_check(ip, st, cap, size)? {
                    return ok1(st, en(1, vec![V::Top]));
                }
                let arr = if zero { Arr::fam(cap, V::Int(int(0))) } else { Arr::uninit(cap) };
                let mut p = st.alloc(V::Arr(Rc::new(arr)));
                p.proj.push(Pj::I(int(0)));
                return ok1(st, en(0, vec![agg(vec![V::Ptr(Rc::new(p)), V::Int(cap), unit()])]));
            }
            "grow_amortized" | "grow_exact" => {
                let me = ptr(&a[0])?;
                let V::Agg(old) = st.read(&me)? else { return fail("vector") };
                let (len, add_) = (ip.as_int(st, &a[1])?, ip.as_int(st, &a[2])?);
                let size = layout_size(st, &a[3])?;
                let req = st.env.norm(add(len, add_));
                let cap0 = ip.as_int(st, &old[1])?;
                let cap = match (konst(req), konst(cap0)) {
                    (Some(r), Some(c)) if last == "grow_amortized" => int(r.max(2 * c).max(if konst(size) == Some(1) { 8 } else { 4 })),
                    _ if last == "grow_exact" => req,
                    _ => {
                        let c = fresh("capacity", 0, i64::MAX as i128);
                        let mut e = (*st.env).clone();
                        e.add_ge(sub(c, req));
                        st.env = Rc::new(e);
                        c
                    }
                };
                if !alloc_check(ip, st, req, size)? {
                    return ok1(st, en(1, vec![V::Top]));
                }
                let op = ptr(&old[0])?;
                let mut arr = if op.base == Base::Dangling {
                    Arr { len: int(0), segs: vec![] }
                } else {
                    st.read_slice(&op, cap0)?
                };
                let end = arr.len;
                arr.len = cap;
                arr.segs.push(Seg { start: end, end: cap, k: SK::Uninit });
                arr.coalesce(&st.env);
                let mut p = st.alloc(V::Arr(Rc::new(arr)));
                p.proj.push(Pj::I(int(0)));
                st.write(&me, agg(vec![V::Ptr(Rc::new(p)), V::Int(cap), unit()]))?;
                return ok1(st, en(0, vec![unit()]));
            }
            "shrink" | "shrink_unchecked" => {
                let me = ptr(&a[0])?;
                let V::Agg(old) = st.read(&me)? else { return fail("vector") };
                st.write(&me, agg(vec![old[0].clone(), a[1].clone(), unit()]))?;
                return ok1(st, en(0, vec![unit()]));
            }
            "deallocate" => return ok1(st, unit()),
            _ => {}
        }
    }
    if last == "box_new_uninit" {
        let g = Rc::make_mut(&mut st.g);
        g.allocs += 1;
        let p = st.alloc(V::Uninit);
        return ok1(st, V::Ptr(Rc::new(p)));
    }
    if io_new(def) {
        let V::En(t, _) = &a[0] else { return fail("error kind") };
        return ok1(st, V::IoErr(*t, int(-1)));
    }
    if def.ends_with("io::Error::kind") {
        let p = ptr(&a[0])?;
        let V::IoErr(k, _) = st.read(&p)? else { return fail("io error") };
        return ok1(st, V::En(k, Rc::new((0..64).map(|i| (i, Rc::new(vec![]))).collect())));
    }
    if def.ends_with("::extend_with") {
        // Vec::extend_with(&mut self, n, value)
        let me = ptr(&a[0])?;
        let t = targ(n, 0)?;
        let k = ip.as_int(st, &a[1])?;
        return extend_fam(ip, st, &me, t, k, a[2].clone());
    }
    if def.ends_with("str::from_utf8") {
        let p = ptr(&a[0])?;
        let Meta::Len(len) = p.meta else { return fail("slice") };
        let arr = st.read_slice(&p, len)?;
        let c = utf8(st, &arr);
        let mut m = BTreeMap::new();
        m.insert(0, Rc::new(vec![a[0].clone()]));
        m.insert(1, Rc::new(vec![agg(vec![V::Int(fresh("havoc_utf8", 0, i64::MAX as i128)), en(0, vec![])])]));
        return ok1(st, V::En(sub(int(1), c), Rc::new(m)));
    }
    fail(format!("no model of {}", n.name))
}
/// Validity of a byte sequence as UTF-8, as an uninterpreted predicate of its contents.
pub fn utf8(st: &St, a: &Arr) -> T {
    let a2 = map_v(&V::Arr(Rc::new(a.clone())), &mut |t| st.env.norm(t));
    let V::Arr(a2) = a2 else { unreachable!() };
    let mut all = vec![];
    for s in &a2.segs {
        if let SK::List(l) = &s.k {
            for v in l.iter() {
                if let V::Int(t) = v {
                    all.push(*t);
                }
            }
        } else {
            all.push(fresh("x", 0, 1));
        }
    }
    if all.iter().all(|t| st.env.ival(*t).1 < 128) {
        return int(1);
    }
    if let Some(v) = all.iter().map(|t| konst(*t).map(|x| x as u8)).collect::<Option<Vec<u8>>>() {
        return int(std::str::from_utf8(&v).is_ok() as i128);
    }
    at(AK::Op { op: "utf8", args: vec![int(arr_id(&V::Arr(a2)) as i128)], lo: 0, hi: 1 })
}
fn extend_fam(ip: &mut Interp, st: &mut St, me: &Ptr, t: Ty, k: T, v: V) -> R<Out> {
    if k == int(0) || dec(&st.env, st.env.eq0(k))? {
        return ok1(st, unit());
    }
    let V::Agg(x) = st.read(me)? else { return fail("vector") };
    let V::Agg(inner) = &x[0] else { return fail("vector") };
    let len = ip.as_int(st, &x[1])?;
    let cap0 = ip.as_int(st, &inner[1])?;
    let req = st.env.norm(add(len, k));
    let op = ptr(&inner[0])?;
    let (p, cap, arr) = if dec(&st.env, st.env.le(req, cap0))? {
        let q = op.clone();
        let arr = st.read_slice(&q, cap0)?;
        (Some(q), cap0, arr)
    } else {
        let size = int(size_of(t).unwrap_or(8) as i128);
        if !alloc_check(ip, st, req, size)? {
            return Err(Stop::Panic("capacity overflow".into()));
        }
        let mut arr = if op.base == Base::Dangling { Arr { len: int(0), segs: vec![] } } else { st.read_slice(&op, cap0)? };
        let end = arr.len;
        arr.len = req;
        arr.segs.push(Seg { start: end, end: req, k: SK::Uninit });
        arr.coalesce(&st.env);
        (None, req, arr)
    };
    let mut arr = arr;
    arr.splice(&st.env.clone(), len, req, vec![Seg { start: int(0), end: k, k: SK::Fam(v) }])?;
    let np = match p {
        Some(q) => {
            st.write_slice(&q, &arr)?;
            (*q).clone()
        }
        None => {
            let mut p = st.alloc(V::Arr(Rc::new(arr)));
            p.proj.push(Pj::I(int(0)));
            p
        }
    };
    st.write(me, agg(vec![agg(vec![V::Ptr(Rc::new(np)), V::Int(cap), unit()]), V::Int(req)]))?;
    ok1(st, unit())
}

fn intrinsic(ip: &mut Interp, n: &Nat, name: &str, a: Vec<V>, st: &mut St) -> R<Out> {
    let t0 = || targ(n, 0);
    match name {
        "transmute" | "transmute_unchecked" => {
            let v = ip.transmute(st, a[0].clone(), targ(n, 0)?, targ(n, 1)?)?;
            ok1(st, v)
        }
        "needs_drop" => ok1(st, V::Int(int(0))),
        "is_val_statically_known" => ok1(st, V::Int(int(0))),
        "likely" | "unlikely" | "black_box" => ok1(st, a[0].clone()),
        "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => ok1(st, unit()),
        "assume" => {
            let c = ip.as_int(st, &a[0])?;
            ip.stats.obligations += 1;
            if dec(&st.env, c)? { ok1(st, unit()) } else { Err(Stop::Ub("assumption violated".into())) }
        }
        "caller_location" => ok1(st, dangling()),
        "abort" => Err(Stop::Panic("abort".into())),
        "unreachable" => Err(Stop::Ub("unreachable code".into())),
        "saturating_add" | "saturating_sub" => {
            let (w, s) = int_ty(t0()?).unwrap();
            let (x, y) = (ip.as_int(st, &a[0])?, ip.as_int(st, &a[1])?);
            let p = if name == "saturating_add" { add(x, y) } else { sub(x, y) };
            let (lo, hi) = wrange(w, s);
            if !dec(&st.env, st.env.le(p, int(hi)))? {
                return ok1(st, V::Int(int(hi)));
            }
            if !dec(&st.env, st.env.le(int(lo), p))? {
                return ok1(st, V::Int(int(lo)));
            }
            ok1(st, V::Int(p))
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
            let (w, s) = int_ty(t0()?).unwrap();
            let (x, y) = (ip.as_int(st, &a[0])?, ip.as_int(st, &a[1])?);
            let p = match name {
                "wrapping_add" => add(x, y),
                "wrapping_sub" => sub(x, y),
                _ => mul(x, y),
            };
            let r = st.env.wrap(w, s, p);
            ok1(st, V::Int(r))
        }
        "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
            let (w, s) = int_ty(t0()?).unwrap();
            let (x, y) = (ip.as_int(st, &a[0])?, ip.as_int(st, &a[1])?);
            let p = match name {
                "add_with_overflow" => add(x, y),
                "sub_with_overflow" => sub(x, y),
                _ => mul(x, y),
            };
            let (lo, hi) = wrange(w, s);
            let o = sub(int(1), mul(st.env.ge0(addc(p, -lo)), st.env.ge0(sub(int(hi), p))));
            let r = st.env.wrap(w, s, p);
            ok1(st, agg(vec![V::Int(r), V::Int(o)]))
        }
        "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" | "exact_div" | "disjoint_bitor" | "three_way_compare" => {
            let op = match name {
                "unchecked_shl" => BinOp::ShlUnchecked,
                "unchecked_shr" => BinOp::ShrUnchecked,
                "unchecked_div" | "exact_div" => BinOp::Div,
                "unchecked_rem" => BinOp::Rem,
                "disjoint_bitor" => BinOp::BitOr,
                _ => BinOp::Cmp,
            };
            let t = t0()?;
            let tb = targ(n, 1).unwrap_or(t);
            let v = ip.binop(st, &op, &a[0], &a[1], t, tb)?;
            ok1(st, v)
        }
        "rotate_left" | "rotate_right" => {
            let (w, s) = int_ty(t0()?).unwrap();
            let (x, k) = (ip.as_int(st, &a[0])?, ip.as_int(st, &a[1])?);
            let Some(k) = konst(k) else { return fail("rotation by a variable") };
            let k = (k.rem_euclid(w as i128)) as i128;
            let k = if name == "rotate_left" { k } else { (w as i128 - k) % w as i128 };
            if k == 0 {
                return ok1(st, a[0].clone());
            }
            let e = &st.env;
            let u = e.wrap(w, false, x);
            let r = e.bitop('|', e.shl(u, int(k), w, false), e.shr(u, int(w as i128 - k), w, false), w, false);
            let r = e.wrap(w, s, r);
            ok1(st, V::Int(r))
        }
        "bswap" => {
            let (w, s) = int_ty(t0()?).unwrap();
            let x = ip.as_int(st, &a[0])?;
            let e = &st.env;
            let u = e.wrap(w, false, x);
            let nb = w / 8;
            let mut r = int(0);
            for i in 0..nb {
                let b = e.wrap(8, false, e.shr(u, int(i as i128 * 8), w, false));
                r = add(r, mulc(b, 1i128 << ((nb - 1 - i) * 8)));
            }
            let r = e.wrap(w, s, r);
            ok1(st, V::Int(r))
        }
        "bitreverse" => {
            let (w, s) = int_ty(t0()?).unwrap();
            let x = ip.as_int(st, &a[0])?;
            let e = &st.env;
            let mut b = e.bits(x, w);
            b.reverse();
            let r = e.from_bits(&b, s);
            ok1(st, V::Int(r))
        }
        "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" | "ctpop" => {
            let (w, _) = int_ty(t0()?).unwrap();
            let x = ip.as_int(st, &a[0])?;
            let e = &st.env;
            let x = e.norm(e.wrap(w, false, x));
            let f = |c: i128| -> i128 {
                let c = c as u128;
                match name {
                    "ctpop" => c.count_ones() as i128,
                    "ctlz" | "ctlz_nonzero" => (w as i128) - (128 - c.leading_zeros() as i128),
                    _ => (c.trailing_zeros() as i128).min(w as i128),
                }
            };
            if let Some(c) = konst(x) {
                return ok1(st, V::Int(int(f(c))));
            }
            if let Some(r) = single_root(x) {
                let tb = table(x, r);
                return ok1(st, V::Int(mk_tab(r, tb.iter().map(|&c| f(c)).collect())));
            }
            if name == "ctpop" {
                let b = e.bits(x, w);
                let mut t = int(0);
                for q in b {
                    t = add(t, e.from_bits(&[q], false));
                }
                return ok1(st, V::Int(t));
            }
            // bisect
            if name.starts_with("ctlz") {
                for i in 0..w {
                    let c = e.le(int(1i128 << (w - 1 - i)), x);
                    if dec(e, c)? {
                        return ok1(st, V::Int(int(i as i128)));
                    }
                }
            } else {
                for i in 0..w {
                    let c = e.from_bits(&[e.bits(x, w)[i as usize].clone()], false);
                    if dec(e, c)? {
                        return ok1(st, V::Int(int(i as i128)));
                    }
                }
            }
            ok1(st, V::Int(int(w as i128)))
        }
        "offset" | "arith_offset" => {
            let k = ip.as_int(st, &a[1])?;
            let p = ptr(&a[0])?;
            let pt = targ(n, 0)?;
            let pointee = match &*ti(peel(pt)) {
                TI::Ptr(t) => *t,
                _ => pt,
            };
            if is_zst(pointee) {
                return ok1(st, a[0].clone());
            }
            let k = if let TI::Array(_, Some(m)) = &*ti(peel(pointee)) { if !st.is_arr_at(&p) { mulc(k, *m as i128) } else { k } } else { k };
            let q = ptr_off(&st.env, &p, k)?;
            ok1(st, V::Ptr(Rc::new(q)))
        }
        "ptr_offset_from" | "ptr_offset_from_unsigned" => {
            let (p, q) = (ptr(&a[0])?, ptr(&a[1])?);
            match ptr_diff(&st.env, &p, &q) {
                Some(d) => {
                    let d = if let TI::Array(_, Some(m)) = &*ti(peel(t0()?)) { if !st.is_arr_at(&q) { st.env.div(d, int(*m as i128), 64, true) } else { d } } else { d };
                    ok1(st, V::Int(d))
                }
                None => fail("distance of unrelated pointers"),
            }
        }
        "ptr_guaranteed_cmp" => ok1(st, V::Int(int(2))),
        "copy_nonoverlapping" | "copy" => {
            let (s, d) = (ptr(&a[0])?, ptr(&a[1])?);
            let k = ip.as_int(st, &a[2])?;
            ip.stats.obligations += 1;
            if is_zst(t0()?) || k == int(0) || dec(&st.env, st.env.eq0(k))? {
                return ok1(st, unit());
            }
            let k = if let TI::Array(_, Some(m)) = &*ti(peel(t0()?)) { if !st.is_arr_at(&s) { mulc(k, *m as i128) } else { k } } else { k };
            let x = st.read_slice(&s, k)?;
            st.write_slice(&d, &x)?;
            ok1(st, unit())
        }
        "write_bytes" => {
            let d = ptr(&a[0])?;
            let (b, k) = (ip.as_int(st, &a[1])?, ip.as_int(st, &a[2])?);
            let (w, s) = match int_ty(t0()?) {
                Some(x) => x,
                None => return fail("write_bytes"),
            };
            if k == int(0) || dec(&st.env, st.env.eq0(k))? {
                return ok1(st, unit());
            }
            let v = if w == 8 {
                V::Int(st.env.wrap(8, s, b))
            } else if b == int(0) {
                V::Int(int(0))
            } else if let Some(c) = konst(b) {
                let mut x = 0u128;
                for i in 0..w / 8 {
                    x |= (c as u128 & 255) << (8 * i);
                }
                V::Int(int(to_signed(x, w, s)))
            } else {
                return fail("write_bytes");
            };
            st.write_slice(&d, &Arr::fam(k, v))?;
            ok1(st, unit())
        }
        "read_via_copy" | "volatile_load" => {
            let p = ptr(&a[0])?;
            let v = ip.read_ty(st, &p, t0()?)?;
            ok1(st, v)
        }
        "write_via_move" | "volatile_store" => {
            let p = ptr(&a[0])?;
            if !is_zst(t0()?) {
                st.write(&p, a[1].clone())?;
            }
            ok1(st, unit())
        }
        "typed_swap_nonoverlapping" => {
            let (p, q) = (ptr(&a[0])?, ptr(&a[1])?);
            if !is_zst(t0()?) {
                let x = st.read(&p)?;
                let y = st.read(&q)?;
                st.write(&p, y)?;
                st.write(&q, x)?;
            }
            ok1(st, unit())
        }
        "compare_bytes" | "raw_eq" => {
            let (p, q) = (ptr(&a[0])?, ptr(&a[1])?);
            let len = if name == "raw_eq" {
                match &*ti(peel(t0()?)) {
                    TI::Array(_, Some(n)) => int(*n as i128),
                    _ => return fail("raw_eq"),
                }
            } else {
                ip.as_int(st, &a[2])?
            };
            let Some(k) = konst(st.env.norm(len)) else { return fail("comparison of unknown length") };
            if k == 0 {
                return ok1(st, V::Int(int((name == "raw_eq") as i128)));
            }
            let rd = |p: &Ptr| -> R<Arr> {
                if name == "raw_eq" {
                    if let V::Arr(x) = ip.read_ty(st, p, targ(n, 0)?)? {
                        return Ok((*x).clone());
                    }
                }
                st.read_slice(p, len)
            };
            let (x, y) = (rd(&p)?, rd(&q)?);
            let mut all = int(1);
            for i in 0..k {
                let (u, v) = (x.get(&st.env, int(i))?, y.get(&st.env, int(i))?);
                let (u, v) = (ip.as_int(st, &u)?, ip.as_int(st, &v)?);
                if name == "raw_eq" {
                    all = mul(all, st.env.eq(u, v));
                } else {
                    if dec(&st.env, st.env.eq(u, v))? {
                        continue;
                    }
                    let lt = dec(&st.env, st.env.lt(u, v))?;
                    return ok1(st, V::Int(int(if lt { -1 } else { 1 })));
                }
            }
            ok1(st, V::Int(if name == "raw_eq" { all } else { int(0) }))
        }
        "const_eval_select" => {
            let g = targ(n, 2)?;
            let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = g.kind() else { return fail("const_eval_select") };
            let Ok(i) = Instance::resolve(d, &ga) else { return fail("const_eval_select") };
            let args = match &a[0] {
                V::Agg(x) => x.to_vec(),
                _ => return fail("const_eval_select"),
            };
            // a tuple of zero-sized values is not represented
            ip.call(&i, args, st)
        }
        "discriminant_value" => {
            let p = ptr(&a[0])?;
            let v = st.read(&p)?;
            let d = ip.discriminant(st, &v, t0()?)?;
            ok1(st, V::Int(d))
        }
        "select_unpredictable" => {
            let c = ip.as_int(st, &a[0])?;
            let v = if dec(&st.env, c)? { a[1].clone() } else { a[2].clone() };
            ok1(st, v)
        }
        "size_of_val" | "size_of" => match size_of(t0()?) {
            Some(s) if slice_elem(t0()?).is_none() => ok1(st, V::Int(int(s as i128))),
            _ => {
                let p = ptr(&a[0])?;
                let (Meta::Len(l), Some(e)) = (p.meta, slice_elem(t0()?)) else { return fail("size_of_val") };
                ok1(st, V::Int(mulc(l, size_of(e).unwrap_or(1) as i128)))
            }
        },
        "align_of_val" | "min_align_of_val" | "align_of" | "min_align_of" | "pref_align_of" => {
            let t = slice_elem(t0()?).unwrap_or(t0()?);
            let al = t.layout().map(|l| l.shape().abi_align).unwrap_or(1);
            ok1(st, V::Int(int(al as i128)))
        }
        _ => fail(format!("no model of intrinsic {}", name)),
    }
}
fn vx(ip: &mut Interp, n: &Nat, name: &str, a: Vec<V>, st: &mut St) -> R<Out> {
    match name {
        "vx_any_u64" | "vx_any_i64" => {
            let (lo, hi) = (ip.as_int(st, &a[1])?, ip.as_int(st, &a[2])?);
            let (Some(lo), Some(hi)) = (konst(lo), konst(hi)) else { return fail("range") };
            let nm = str_of(st, &a[0])?;
            ok1(st, V::Int(fresh(&nm, lo, hi)))
        }
        "vx_any" => {
            let nm = str_of(st, &a[0])?;
            match arbitrary(targ(n, 0)?, &nm) {
                Some(v) => ok1(st, v),
                None => fail("arbitrary value"),
            }
        }
        "vx_assume" => {
            let c = ip.as_int(st, &a[0])?;
            match st.env.decide(c) {
                Some(true) => ok1(st, unit()),
                Some(false) => Ok(vec![]),
                None => Ok(st.with(c, true).map(|s| (s, unit())).into_iter().collect()),
            }
        }
        "vx_check" => {
            let c = ip.as_int(st, &a[0])?;
            let m = str_of(st, &a[1])?;
            let ok = dec(&st.env, c)?;
            ip.stats.checks += 1;
            *ip.stats.checks_by.entry(m.clone()).or_insert(0) += 1;
            if !ok {
                ip.event(EvK::Check, m, st.clone());
                return Ok(vec![]);
            }
            ok1(st, unit())
        }
        "vx_fail" => {
            let m = str_of(st, &a[0])?;
            ip.stats.checks += 1;
            ip.event(EvK::Check, m, st.clone());
            Ok(vec![])
        }
        "vx_unknown" => {
            let m = str_of(st, &a[0])?;
            fail(m)
        }
        "vx_note" => {
            let m = str_of(st, &a[0])?;
            *ip.stats.checks_by.entry(m.clone()).or_insert(0) += 1;
            ok1(st, unit())
        }
        "vx_byte" => {
            let (s, p) = (ip.as_int(st, &a[0])?, ip.as_int(st, &a[1])?);
            let b = at(AK::Byte { src: konst(s).unwrap_or(0) as u32, pos: p });
            ok1(st, V::Int(st.env.norm(b)))
        }
        "vx_bits" => {
            let (s, p, k) = (ip.as_int(st, &a[0])?, ip.as_int(st, &a[1])?, ip.as_int(st, &a[2])?);
            let b = srun(konst(s).unwrap_or(0) as u32, p, k);
            ok1(st, V::Int(st.env.norm(b)))
        }
        "vx_unary" => {
            let (s, p) = (ip.as_int(st, &a[0])?, ip.as_int(st, &a[1])?);
            let b = at(AK::Unary { src: konst(s).unwrap_or(0) as u32, pos: p });
            ok1(st, V::Int(st.env.norm(b)))
        }
        "vx_get" => {
            let i = ip.as_int(st, &a[0])?;
            let i = konst(i).unwrap_or(0) as usize;
            let v = st.regs.get(i).cloned().unwrap_or(V::Int(int(0)));
            ok1(st, v)
        }
        "vx_set" => {
            let i = ip.as_int(st, &a[0])?;
            let i = konst(i).unwrap_or(0) as usize;
            let r = std::rc::Rc::make_mut(&mut st.regs);
            while r.len() <= i {
                r.push(V::Int(int(0)));
            }
            r[i] = a[1].clone();
            ok1(st, unit())
        }
        "vx_fill" => {
            let (s, p) = (ip.as_int(st, &a[0])?, ip.as_int(st, &a[1])?);
            let d = ptr(&a[2])?;
            let Meta::Len(len) = d.meta else { return fail("slice") };
            if len == int(0) || dec(&st.env, st.env.eq0(len))? {
                return ok1(st, unit());
            }
            let src = konst(s).unwrap_or(0) as u32;
            let arr = match konst(st.env.norm(len)) {
                Some(k) if k <= 64 => Arr::list((0..k).map(|i| V::Int(st.env.norm(at(AK::Byte { src, pos: addc(p, i) })))).collect()),
                _ => Arr::fam(len, V::Int(at(AK::Byte { src, pos: add(p, idx0()) }))),
            };
            st.write_slice(&d, &arr)?;
            ok1(st, unit())
        }
        "vx_havoc_i32" => {
            // unknown contents
            let d = ptr(&a[0])?;
            let Meta::Len(len) = d.meta else { return fail("slice") };
            if len == int(0) || dec(&st.env, st.env.eq0(len))? {
                return ok1(st, unit());
            }
            let (lo, hi) = (ip.as_int(st, &a[1])?, ip.as_int(st, &a[2])?);
            let (Some(lo), Some(hi)) = (konst(lo), konst(hi)) else { return fail("range") };
            let id = new_arr_id();
            let arr = match konst(st.env.norm(len)) {
                Some(k) if k <= 64 => Arr::list((0..k).map(|i| V::Int(fresh(&format!("x{}", i), lo, hi))).collect()),
                _ => Arr::fam(len, V::Int(at(AK::Elem { arr: id, idx: idx0(), lo, hi }))),
            };
            st.write_slice(&d, &arr)?;
            ok1(st, unit())
        }
        "vx_vec_i32" => {
            let (len, cap) = (ip.as_int(st, &a[0])?, ip.as_int(st, &a[1])?);
            if dec(&st.env, st.env.eq0(cap))? {
                return ok1(st, agg(vec![agg(vec![dangling(), V::Int(int(0)), unit()]), V::Int(int(0))]));
            }
            let id = new_arr_id();
            let (lo, hi) = wrange(32, true);
            let mut segs = vec![];
            if !dec(&st.env, st.env.eq0(len))? {
                segs.push(Seg { start: int(0), end: len, k: SK::Fam(V::Int(at(AK::Elem { arr: id, idx: idx0(), lo, hi }))) });
            }
            segs.push(Seg { start: len, end: cap, k: SK::Uninit });
            let mut p = st.alloc(V::Arr(Rc::new(Arr { len: cap, segs })));
            p.proj.push(Pj::I(int(0)));
            ok1(st, agg(vec![agg(vec![V::Ptr(Rc::new(p)), V::Int(cap), unit()]), V::Int(len)]))
        }
        "vx_io_err" => {
            let (k, t) = (ip.as_int(st, &a[0])?, ip.as_int(st, &a[1])?);
            ok1(st, V::IoErr(k, t))
        }
        "vx_err_tag" | "vx_err_kind" => {
            let p = ptr(&a[0])?;
            let V::IoErr(k, t) = st.read(&p)? else { return fail("io error") };
            ok1(st, V::Int(if name == "vx_err_tag" { t } else { k }))
        }
        "vx_config" => {
            let m = str_of(st, &a[0])?;
            if ip.nostub.contains(&m) {
                if m.starts_with("sub_") {
                    return fail(format!("the summaries {} do not fit the crate", m));
                }
                return ok1(st, unit());
            }
            let g = Rc::make_mut(&mut st.g);
            if konst(ip.as_int(&St::new(), &a[1])?) == Some(1) {
                g.cfg.push(m);
            } else {
                g.cfg.retain(|x| *x != m);
            }
            ok1(st, unit())
        }
        "vx_split" => {
            // partition on the value of x within lo..=hi
            let x = ip.as_int(st, &a[0])?;
            let (lo, hi) = (ip.as_int(st, &a[1])?, ip.as_int(st, &a[2])?);
            let (Some(lo), Some(hi)) = (konst(lo), konst(hi)) else { return fail("range") };
            let mut out = vec![];
            for v in lo..=hi {
                let c = st.env.eq(x, int(v));
                if let Some(false) = st.env.decide(c) {
                    continue;
                }
                if let Some(mut s) = st.with(c, true) {
                    Rc::make_mut(&mut s.g).part.push((v - lo) as u32);
                    out.push((s, V::Int(int(v))));
                }
            }
            Ok(out)
        }
        "vx_part" => {
            // partition on a condition
            let x = ip.as_int(st, &a[0])?;
            let mut out = vec![];
            for v in [true, false] {
                if st.env.decide(x) == Some(!v) {
                    continue;
                }
                if let Some(mut s) = st.with(x, v) {
                    Rc::make_mut(&mut s.g).part.push(v as u32);
                    out.push((s, V::Int(int(v as i128))));
                }
            }
            Ok(out)
        }
        "vx_alloc_limit" => {
            let x = ip.as_int(st, &a[0])?;
            Rc::make_mut(&mut st.g).alloc_limit = if konst(x) == Some(0) { None } else { Some(x) };
            ok1(st, unit())
        }
        "vx_allocs" => ok1(st, V::Int(int(st.g.allocs as i128))),
        "vx_panic_ok" => {
            let x = ip.as_int(st, &a[0])?;
            Rc::make_mut(&mut st.g).panic_ok = konst(x) == Some(1);
            ok1(st, unit())
        }
        "vx_show" => {
            eprintln!("SHOW {}", a.iter().map(|v| match v { V::Ptr(p) if matches!(p.meta, Meta::Thin) => st.read(p).map(|v| show_v(&v)).unwrap_or("?".into()), v => show_v(v) }).collect::<Vec<_>>().join(" "));
            ok1(st, unit())
        }
        "vx_field_mut" => {
            // vx_field_mut::<S, F>(&mut S, index) -> &mut F
            let p = ptr(&a[0])?;
            let k = konst(ip.as_int(st, &a[1])?).unwrap_or(0) as usize;
            let (s, f) = (targ(n, 0)?, targ(n, 1)?);
            let mut q = (*p).clone();
            match find_field(s, f, k) {
                Some(pr) => q.proj.extend(pr),
                None => return fail(format!("{} has no field of type {}", s, f)),
            }
            ok1(st, V::Ptr(Rc::new(q)))
        }
        "vx_same_int" => {
            let (x, y) = (ip.as_int(st, &a[0])?, ip.as_int(st, &a[1])?);
            ok1(st, V::Int(st.env.eq(x, y)))
        }
        _ => fail(format!("no model of {}", name)),
    }
}
/// Path to the k-th field of type f in struct s.
fn find_field(s: Ty, f: Ty, k: usize) -> Option<Vec<Pj>> {
    let mut all = vec![];
    fn rec(s: Ty, f: Ty, pre: Vec<Pj>, all: &mut Vec<Vec<Pj>>) {
        if s == f {
            all.push(pre);
            return;
        }
        match &*ti(s) {
            TI::Struct { fields, erased: Some(i) } => rec(fields[*i], f, pre, all),
            TI::Struct { fields, .. } | TI::Tuple(fields) => {
                for (i, t) in fields.iter().enumerate() {
                    let mut p = pre.clone();
                    p.push(Pj::F(i as u32));
                    rec(*t, f, p, all);
                }
            }
            _ => {}
        }
    }
    rec(s, f, vec![], &mut all);
    all.get(k).cloned()
}
pub fn def_name<D: CrateDef>(d: &D) -> String {
    d.name().to_string()
}
#[allow(dead_code)]
fn unused() -> V {
    some(unit())
}
