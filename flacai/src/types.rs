//! Type queries and constants.
use crate::term::*;
use crate::val::*;
use crate::val::Base;
use rustc_public_bridge::IndexedVal;
use rustc_public::abi::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum TI {
    Int(u8, bool),
    Bool,
    Char,
    Float,
    /// Pointer or reference.
    Ptr(Ty),
    /// Struct, with its fields; `erased` is the only field which is not zero-sized.
    Struct { fields: Vec<Ty>, erased: Option<usize> },
    Union { fields: Vec<Ty>, erased: Option<usize> },
    Enum { variants: Vec<Vec<Ty>> },
    Tuple(Vec<Ty>),
    Array(Ty, Option<u64>),
    Slice(Ty),
    Str,
    FnDef,
    FnPtr,
    Closure(Vec<Ty>),
    Dyn,
    Never,
    Other,
}

thread_local! {
    static TIC: RefCell<HashMap<Ty, Rc<TI>>> = RefCell::new(HashMap::new());
    static ZSTC: RefCell<HashMap<Ty, bool>> = RefCell::new(HashMap::new());
    static TYS: RefCell<(Vec<Ty>, HashMap<Ty, u32>)> = RefCell::new((vec![], HashMap::new()));
    static FNS: RefCell<(Vec<Instance>, HashMap<Instance, u32>)> = RefCell::new((vec![], HashMap::new()));
    static STATICS: RefCell<(Vec<V>, HashMap<(AllocId, Ty), u32>)> = RefCell::new((vec![], HashMap::new()));
}
pub fn ty_key(t: Ty) -> u32 {
    TYS.with(|x| {
        let mut x = x.borrow_mut();
        if let Some(&k) = x.1.get(&t) {
            return k;
        }
        let k = x.0.len() as u32;
        x.0.push(t);
        x.1.insert(t, k);
        k
    })
}
pub fn key_ty(k: u32) -> Ty {
    TYS.with(|x| x.borrow().0[k as usize])
}
pub fn fn_key(i: &Instance) -> u32 {
    FNS.with(|x| {
        let mut x = x.borrow_mut();
        if let Some(&k) = x.1.get(i) {
            return k;
        }
        let k = x.0.len() as u32;
        x.0.push(i.clone());
        x.1.insert(i.clone(), k);
        k
    })
}
pub fn key_fn(k: u32) -> Instance {
    FNS.with(|x| x.borrow().0[k as usize].clone())
}
pub fn static_val(k: u32) -> V {
    STATICS.with(|x| x.borrow().0[k as usize].clone())
}
pub fn add_static(v: V) -> u32 {
    STATICS.with(|x| {
        let mut x = x.borrow_mut();
        x.0.push(v);
        x.0.len() as u32 - 1
    })
}
pub fn is_zst(t: Ty) -> bool {
    if let Some(b) = ZSTC.with(|x| x.borrow().get(&t).cloned()) {
        return b;
    }
    let b = match t.layout() {
        Ok(l) => {
            let s = l.shape();
            s.is_sized() && s.size.bits() == 0
        }
        Err(_) => false,
    };
    ZSTC.with(|x| x.borrow_mut().insert(t, b));
    b
}
pub fn size_of(t: Ty) -> Option<u64> {
    t.layout().ok().map(|l| l.shape().size.bytes() as u64)
}
fn field_tys(d: &VariantDef, args: &GenericArgs) -> Vec<Ty> {
    d.fields().iter().map(|f| f.ty_with_args(args)).collect()
}
pub fn ti(t: Ty) -> Rc<TI> {
    if let Some(b) = TIC.with(|x| x.borrow().get(&t).cloned()) {
        return b;
    }
    let r = match t.kind() {
        TyKind::RigidTy(r) => match r {
            RigidTy::Bool => TI::Bool,
            RigidTy::Char => TI::Char,
            RigidTy::Int(i) => TI::Int(i.num_bytes() as u8 * 8, true),
            RigidTy::Uint(i) => TI::Int(i.num_bytes() as u8 * 8, false),
            RigidTy::Float(_) => TI::Float,
            RigidTy::Pat(b, _) => (*ti(b)).clone(),
            RigidTy::Adt(d, args) => {
                let vs = d.variants();
                match d.kind() {
                    AdtKind::Enum => TI::Enum { variants: vs.iter().map(|v| field_tys(v, &args)).collect() },
                    k => {
                        let fields = field_tys(&vs[0], &args);
                        let nz: Vec<usize> = (0..fields.len()).filter(|&i| !is_zst(fields[i])).collect();
                        let erased = if nz.len() == 1 { Some(nz[0]) } else { None };
                        if k == AdtKind::Union { TI::Union { fields, erased } } else { TI::Struct { fields, erased } }
                    }
                }
            }
            RigidTy::Str => TI::Str,
            RigidTy::Array(e, n) => TI::Array(e, n.eval_target_usize().ok()),
            RigidTy::Slice(e) => TI::Slice(e),
            RigidTy::RawPtr(p, _) | RigidTy::Ref(_, p, _) => TI::Ptr(p),
            RigidTy::FnDef(..) => TI::FnDef,
            RigidTy::FnPtr(_) => TI::FnPtr,
            RigidTy::Closure(_, args) => {
                // the last generic argument is the tuple of captures
                let mut up = vec![];
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(v)) = t.kind() {
                        up = v;
                    }
                }
                TI::Closure(up)
            }
            RigidTy::Dynamic(..) => TI::Dyn,
            RigidTy::Never => TI::Never,
            RigidTy::Tuple(v) => TI::Tuple(v),
            _ => TI::Other,
        },
        _ => TI::Other,
    };
    let r = Rc::new(r);
    TIC.with(|x| x.borrow_mut().insert(t, r.clone()));
    r
}
/// Width and signedness of a scalar.
pub fn int_ty(t: Ty) -> Option<(u8, bool)> {
    match &*ti(t) {
        TI::Int(w, s) => Some((*w, *s)),
        TI::Bool => Some((1, false)),
        TI::Char => Some((32, false)),
        TI::Struct { fields, erased: Some(i) } => int_ty(fields[*i]),
        _ => None,
    }
}
pub fn peel(t: Ty) -> Ty {
    match &*ti(t) {
        TI::Struct { fields, erased: Some(i) } | TI::Union { fields, erased: Some(i) } => peel(fields[*i]),
        _ => t,
    }
}
pub fn field_ty(t: Ty, var: Option<usize>, i: usize) -> Option<Ty> {
    match &*ti(t) {
        TI::Struct { fields, .. } | TI::Union { fields, .. } => fields.get(i).cloned(),
        TI::Enum { variants } => variants.get(var.unwrap_or(0)).and_then(|v| v.get(i)).cloned(),
        TI::Tuple(v) | TI::Closure(v) => v.get(i).cloned(),
        TI::Array(e, _) | TI::Slice(e) => Some(*e),
        _ => None,
    }
}
/// The tail element type if a pointer to this type carries a length.
pub fn slice_elem(t: Ty) -> Option<Ty> {
    match &*ti(t) {
        TI::Slice(e) => Some(*e),
        TI::Str => Some(Ty::unsigned_ty(UintTy::U8)),
        TI::Struct { fields, erased: Some(i) } => slice_elem(fields[*i]),
        _ => None,
    }
}

fn rd_int(a: &Allocation, off: usize, n: usize) -> Option<u128> {
    let mut x = 0u128;
    for i in 0..n {
        x |= (a.bytes.get(off + i).cloned()?? as u128) << (8 * i);
    }
    Some(x)
}
pub fn to_signed(x: u128, w: u8, s: bool) -> i128 {
    let x = if w >= 128 { x as i128 } else { (x & ((1u128 << w) - 1)) as i128 };
    if s && w < 128 && x >= 1i128 << (w - 1) { x - (1i128 << w) } else { x }
}
/// Decode a constant of type t at byte offset off.
pub fn read_const(a: &Allocation, off: usize, t: Ty) -> V {
    if is_zst(t) {
        return unit();
    }
    match &*ti(t) {
        TI::Bool => rd_int(a, off, 1).map(|x| V::Int(int(x as i128))).unwrap_or(V::Uninit),
        TI::Char => rd_int(a, off, 4).map(|x| V::Int(int(x as i128))).unwrap_or(V::Uninit),
        TI::Int(w, s) => {
            if a.provenance.ptrs.iter().any(|p| p.0 == off) {
                return V::Top;
            }
            rd_int(a, off, *w as usize / 8).map(|x| V::Int(int(to_signed(x, *w, *s)))).unwrap_or(V::Uninit)
        }
        TI::Ptr(p) => {
            let Some(&(_, prov)) = a.provenance.ptrs.iter().find(|x| x.0 == off) else {
                let meta = if slice_elem(*p).is_some() { Meta::Len(int(rd_int(a, off + 8, 8).unwrap_or(0) as i128)) } else { Meta::Thin };
                return V::Ptr(Rc::new(Ptr { base: Base::Dangling, proj: vec![Pj::I(int(0))], meta }));
            };
            let addend = rd_int(a, off, 8).unwrap_or(0) as usize;
            const_ptr(a, off, prov.0, addend, *p)
        }
        TI::FnPtr => {
            if let Some(&(_, prov)) = a.provenance.ptrs.iter().find(|x| x.0 == off) {
                if let GlobalAlloc::Function(i) = GlobalAlloc::from(prov.0) {
                    return V::Fn(fn_key(&i));
                }
            }
            V::Top
        }
        TI::Struct { fields, erased: Some(i) } | TI::Union { fields, erased: Some(i) } => {
            let sh = t.layout().unwrap().shape();
            let o = match &sh.fields {
                FieldsShape::Arbitrary { offsets } => offsets[*i].bytes(),
                _ => 0,
            };
            read_const(a, off + o, fields[*i])
        }
        TI::Struct { fields, .. } | TI::Tuple(fields) | TI::Closure(fields) => {
            let sh = t.layout().unwrap().shape();
            let FieldsShape::Arbitrary { offsets } = &sh.fields else { return V::Top };
            agg(fields.iter().enumerate().map(|(i, f)| read_const(a, off + offsets[i].bytes(), *f)).collect())
        }
        TI::Enum { variants } => {
            let sh = t.layout().unwrap().shape();
            match &sh.variants {
                VariantsShape::Single { index } => {
                    let i = index.to_index();
                    let f = &variants[i];
                    let offs: Vec<usize> = match &sh.fields {
                        FieldsShape::Arbitrary { offsets } => offsets.iter().map(|x| x.bytes()).collect(),
                        _ => vec![0; f.len()],
                    };
                    en(i as u32, f.iter().enumerate().map(|(j, t)| read_const(a, off + offs[j], *t)).collect())
                }
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: vf } => {
                    let FieldsShape::Arbitrary { offsets } = &sh.fields else { return V::Top };
                    let o = offsets[*tag_field].bytes();
                    let sz = match tag {
                        Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                            Primitive::Int { length, .. } => length.bits() / 8,
                            _ => 8,
                        },
                    };
                    let hasptr = a.provenance.ptrs.iter().any(|x| x.0 == off + o);
                    let Some(x) = rd_int(a, off + o, sz) else { return V::Uninit };
                    let idx = match tag_encoding {
                        TagEncoding::Direct => {
                            let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() else { return V::Top };
                            let m = if sz >= 16 { u128::MAX } else { (1u128 << (sz * 8)) - 1 };
                            match (0..variants.len()).find(|&i| d.discriminant_for_variant(rustc_public::ty::VariantIdx::to_val(i)).val & m == x & m) {
                                Some(i) => i,
                                None => return V::Top,
                            }
                        }
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            let m = if sz >= 16 { u128::MAX } else { (1u128 << (sz * 8)) - 1 };
                            let rel = x.wrapping_sub(*niche_start) & m;
                            let lo = niche_variants.start().to_index() as u128;
                            let n = niche_variants.end().to_index() as u128 - lo;
                            if !hasptr && rel <= n { (lo + rel) as usize } else { untagged_variant.to_index() }
                        }
                    };
                    let f = &variants[idx];
                    let offs = &vf[idx].offsets;
                    en(idx as u32, f.iter().enumerate().map(|(j, t)| read_const(a, off + offs[j].bytes(), *t)).collect())
                }
                _ => V::Top,
            }
        }
        TI::Array(e, Some(n)) => {
            let sz = size_of(*e).unwrap_or(0) as usize;
            V::Arr(Rc::new(Arr::list((0..*n as usize).map(|i| read_const(a, off + i * sz, *e)).collect())))
        }
        _ => V::Top,
    }
}
fn const_ptr(a: &Allocation, off: usize, id: AllocId, addend: usize, p: Ty) -> V {
    match GlobalAlloc::from(id) {
        GlobalAlloc::Memory(m) => {
            let (ty, meta, elem) = match slice_elem(p) {
                Some(e) => {
                    let n = rd_int(a, off + 8, 8).unwrap_or(0);
                    (p, Meta::Len(int(n as i128)), Some((e, n as usize)))
                }
                None => (p, Meta::Thin, None),
            };
            if let TI::Dyn = &*ti(p) {
                // the type is behind the vtable pointer
                return V::Top;
            }
            let key = (id, ty);
            let have = STATICS.with(|x| x.borrow().1.get(&key).cloned());
            let mut proj = vec![];
            let k = match have {
                Some(k) => k,
                None => {
                    let v = match elem {
                        Some((e, n)) => {
                            let sz = size_of(e).unwrap_or(1).max(1) as usize;
                            let total = if is_zst(e) { n } else { m.bytes.len() / sz };
                            V::Arr(Rc::new(Arr::list((0..total).map(|i| read_const(&m, i * sz, e)).collect())))
                        }
                        None => read_const(&m, addend, p),
                    };
                    let k = add_static(v);
                    STATICS.with(|x| x.borrow_mut().1.insert(key, k));
                    k
                }
            };
            if let Some((e, _)) = elem {
                let sz = size_of(e).unwrap_or(1).max(1) as usize;
                proj.push(Pj::I(int((addend / sz) as i128)));
            }
            V::Ptr(Rc::new(Ptr { base: Base::Static(k), proj, meta }))
        }
        GlobalAlloc::Static(s) => {
            let key = (id, p);
            let have = STATICS.with(|x| x.borrow().1.get(&key).cloned());
            let k = match have {
                Some(k) => k,
                None => {
                    let v = match s.eval_initializer() {
                        Ok(al) => read_const(&al, 0, p),
                        Err(_) => V::Top,
                    };
                    let k = add_static(v);
                    STATICS.with(|x| x.borrow_mut().1.insert(key, k));
                    k
                }
            };
            V::Ptr(Rc::new(Ptr { base: Base::Static(k), proj: vec![], meta: Meta::Thin }))
        }
        _ => V::Top,
    }
}

/// An uninitialised value of the right shape.
pub fn blank(t: Ty) -> V {
    if is_zst(t) {
        return unit();
    }
    match &*ti(t) {
        TI::Struct { fields, erased: Some(i) } | TI::Union { fields, erased: Some(i) } => blank(fields[*i]),
        TI::Struct { fields, .. } | TI::Tuple(fields) | TI::Closure(fields) => agg(fields.iter().map(|f| blank(*f)).collect()),
        TI::Array(_, Some(n)) => V::Arr(Rc::new(Arr::uninit(int(*n as i128)))),
        _ => V::Uninit,
    }
}
/// An arbitrary value of a type.
pub fn arbitrary(t: Ty, name: &str) -> Option<V> {
    if is_zst(t) {
        return Some(unit());
    }
    Some(match &*ti(t) {
        TI::Bool => V::Int(fresh(name, 0, 1)),
        TI::Char => V::Int(fresh(name, 0, 0x10ffff)),
        TI::Int(w, s) => {
            let (l, h) = wrange(*w, *s);
            V::Int(fresh(name, l, h))
        }
        TI::Struct { fields, erased: Some(i) } => return arbitrary(fields[*i], name),
        TI::Struct { fields, .. } | TI::Tuple(fields) => agg(fields.iter().map(|f| arbitrary(*f, name)).collect::<Option<Vec<_>>>()?),
        TI::Enum { variants } => {
            if variants.is_empty() {
                return None;
            }
            let mut m = BTreeMap::new();
            for (i, v) in variants.iter().enumerate() {
                m.insert(i as u32, Rc::new(v.iter().map(|f| arbitrary(*f, name)).collect::<Option<Vec<_>>>()?));
            }
            V::En(fresh(name, 0, variants.len() as i128 - 1), Rc::new(m))
        }
        TI::Array(e, Some(n)) if *n <= 64 => V::Arr(Rc::new(Arr::list((0..*n).map(|_| arbitrary(*e, name)).collect::<Option<Vec<_>>>()?))),
        _ => return None,
    })
}
/// The discriminant values of an enum, by variant index.
/// The discriminant of a zero-sized enumeration.
pub fn only_variant(t: Ty) -> i128 {
    match t.layout().map(|l| l.shape().variants) {
        Ok(VariantsShape::Single { index }) => discrs(t).get(index.to_index()).copied().unwrap_or(0),
        _ => 0,
    }
}
pub fn discrs(t: Ty) -> Vec<i128> {
    let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() else { return vec![] };
    (0..d.num_variants())
        .map(|i| {
            let x = d.discriminant_for_variant(VariantIdx::to_val(i));
            let (w, s) = int_ty(x.ty).unwrap_or((64, false));
            to_signed(x.val, w, s)
        })
        .collect()
}
pub fn path_of(i: &Instance) -> String {
    i.def.name().to_string()
}
