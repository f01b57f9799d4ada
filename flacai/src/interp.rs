//! Abstract execution of MIR.
use crate::mem::*;
use crate::term::*;
use crate::types::*;
use crate::val::Base;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub struct FnInfo {
    pub inst: Instance,
    pub name: String,
    /// Path of the definition, without type arguments.
    pub def: String,
    pub krate: String,
    pub body: Body,
    pub ltys: Vec<Ty>,
    pub rpo: Vec<usize>,
    pub rpoi: Vec<usize>,
    pub loops: HashMap<usize, Rc<HashSet<usize>>>,
    pub live: Vec<HashSet<usize>>,
    pub untuple: bool,
    pub blanks: Vec<V>,
}
#[derive(Clone)]
pub enum Callee {
    Native(Rc<Nat>),
    Body(Rc<FnInfo>),
}
pub struct Nat {
    pub inst: Instance,
    pub name: String,
    pub def: String,
    pub intr: Option<String>,
    pub never: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum EvK {
    Panic,
    Ub,
    Check,
    Fail,
    Alloc,
    /// No progress.
    Loop,
}
pub struct Ev {
    pub kind: EvK,
    /// Where: the innermost function of the crate under analysis.
    pub func: String,
    pub site: String,
    pub msg: String,
    pub root: String,
    pub st: St,
    /// Inputs for which it happens.
    pub asg: Option<crate::eval::Asg>,
}
#[derive(Default)]
pub struct Stats {
    pub funcs: BTreeMap<String, u64>,
    pub calls: u64,
    pub stmts: u64,
    pub obligations: u64,
    pub checks: u64,
    pub checks_by: BTreeMap<String, u64>,
    pub panics_proved: BTreeSet<String>,
    pub loops: BTreeSet<String>,
    pub splits: u64,
    pub summarised: BTreeMap<String, u64>,
}
pub struct Interp {
    pub callees: HashMap<Instance, Callee>,
    pub events: Vec<Ev>,
    pub evseen: HashSet<(EvK, String, String)>,
    pub stats: Stats,
    pub stack: Vec<(Rc<FnInfo>, String)>,
    /// (group, name of the replaced function, replacement)
    pub stubs: Vec<(String, String, FnDef)>,
    /// Groups of summaries which do not fit the crate.
    pub nostub: Vec<String>,
    pub shims: HashMap<Instance, Rc<FnInfo>>,
    pub unroll: usize,
    /// Is termination in question?
    pub loops: bool,
    pub undecided: usize,
    pub deadline: std::time::Instant,
    /// A failure has been confirmed.
    pub found: bool,
    /// Time left for confirming failures as they are found, in ms.
    pub early: u64,
    pub trace: bool,
    pub statics: HashMap<String, V>,
    pub fail_notes: BTreeMap<String, u64>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tgt {
    Bb(usize),
    Ret,
}
pub struct Place2 {
    pub ptr: Ptr,
    pub ty: Ty,
    pub zst: bool,
    pub var: Option<u32>,
}
pub type Out = Vec<(St, V)>;

fn place_uses(p: &Place, f: &mut dyn FnMut(usize)) {
    f(p.local);
    for e in &p.projection {
        if let ProjectionElem::Index(l) = e {
            f(*l);
        }
    }
}
fn op_uses(o: &Operand, f: &mut dyn FnMut(usize)) {
    match o {
        Operand::Copy(p) | Operand::Move(p) => place_uses(p, f),
        _ => {}
    }
}
fn rv_uses(r: &Rvalue, f: &mut dyn FnMut(usize)) {
    match r {
        Rvalue::AddressOf(_, p) | Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) | Rvalue::Ref(_, _, p) => place_uses(p, f),
        Rvalue::Aggregate(_, v) => v.iter().for_each(|o| op_uses(o, f)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            op_uses(a, f);
            op_uses(b, f)
        }
        Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Use(o, _) => op_uses(o, f),
        _ => {}
    }
}
fn succs(t: &TerminatorKind) -> Vec<usize> {
    match t {
        TerminatorKind::Goto { target } | TerminatorKind::Drop { target, .. } | TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Call { target, .. } => target.iter().cloned().collect(),
        _ => vec![],
    }
}
thread_local!(static DROPS: std::cell::RefCell<HashMap<Ty, Option<Instance>>> = Default::default());
/// Types whose drop does nothing but free memory or a descriptor.
const FREES: &[&str] = &["std::vec::Vec", "alloc::raw_vec::RawVec", "alloc::raw_vec::RawVecInner", "std::boxed::Box", "std::rc::Rc", "std::sync::Arc", "std::rc::Weak", "std::sync::Weak", "std::vec::IntoIter", "std::os::fd::OwnedFd"];
/// The drop glue of a type, if dropping it has an effect.
fn drop_of(t: Ty) -> Option<Instance> {
    if let Some(x) = DROPS.with(|d| d.borrow().get(&t).cloned()) {
        return x;
    }
    // recursive types
    DROPS.with(|d| d.borrow_mut().insert(t, None));
    let r = match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(..) | RigidTy::Closure(..) | RigidTy::Tuple(..) | RigidTy::Array(..)) => {
            let name = match t.kind() {
                TyKind::RigidTy(RigidTy::Adt(d, _)) => d.name().to_string(),
                _ => String::new(),
            };
            if FREES.contains(&name.as_str()) || name.contains("io::error::") {
                None
            } else {
                let i = Instance::resolve_drop_in_place(t);
                let hit = !i.is_empty_shim() && i.has_body() && {
                    let b = i.body().unwrap();
                    b.blocks.iter().any(|bl| match &bl.terminator.kind {
                        TerminatorKind::Call { .. } => true,
                        TerminatorKind::Drop { place, .. } => drop_of(place.ty(b.locals()).unwrap()).is_some(),
                        _ => false,
                    })
                };
                if hit { Some(i) } else { None }
            }
        }
        _ => None,
    };
    DROPS.with(|d| d.borrow_mut().insert(t, r.clone()));
    r
}
fn local_name(i: &Instance) -> String {
    i.name().to_string().replace("h::claxon::", "claxon::")
}

impl FnInfo {
    pub fn new(inst: &Instance, body: Body) -> FnInfo {
        let n = body.blocks.len();
        let su: Vec<Vec<usize>> = body.blocks.iter().map(|b| succs(&b.terminator.kind)).collect();
        // reverse postorder
        let mut seen = vec![false; n];
        let mut post = vec![];
        let mut stack = vec![(0usize, 0usize)];
        seen[0] = true;
        while let Some((b, i)) = stack.pop() {
            if i < su[b].len() {
                stack.push((b, i + 1));
                let s = su[b][i];
                if !seen[s] {
                    seen[s] = true;
                    stack.push((s, 0));
                }
            } else {
                post.push(b);
            }
        }
        post.reverse();
        let rpo = post;
        let mut rpoi = vec![usize::MAX; n];
        for (i, &b) in rpo.iter().enumerate() {
            rpoi[b] = i;
        }
        let mut preds = vec![vec![]; n];
        for &b in &rpo {
            for &s in &su[b] {
                preds[s].push(b);
            }
        }
        // dominators
        let mut idom = vec![usize::MAX; n];
        idom[0] = 0;
        let mut ch = true;
        while ch {
            ch = false;
            for &b in &rpo[1..] {
                let mut x = usize::MAX;
                for &p in &preds[b] {
                    if idom[p] == usize::MAX {
                        continue;
                    }
                    if x == usize::MAX {
                        x = p;
                        continue;
                    }
                    let (mut i, mut j) = (x, p);
                    while i != j {
                        while rpoi[i] > rpoi[j] {
                            i = idom[i];
                        }
                        while rpoi[j] > rpoi[i] {
                            j = idom[j];
                        }
                    }
                    x = i;
                }
                if idom[b] != x {
                    idom[b] = x;
                    ch = true;
                }
            }
        }
        let dominates = |a: usize, mut b: usize| {
            loop {
                if a == b {
                    return true;
                }
                if b == 0 {
                    return false;
                }
                b = idom[b];
            }
        };
        let mut loops: HashMap<usize, HashSet<usize>> = HashMap::new();
        for &b in &rpo {
            for &h in &su[b] {
                if dominates(h, b) {
                    let l = loops.entry(h).or_default();
                    l.insert(h);
                    let mut st = vec![b];
                    while let Some(x) = st.pop() {
                        if l.insert(x) {
                            st.extend(preds[x].iter().cloned());
                        }
                    }
                }
            }
        }
        // liveness; locals whose address is taken stay live
        let mut addr = HashSet::new();
        for b in &body.blocks {
            for s in &b.statements {
                if let StatementKind::Assign(_, Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p)) = &s.kind {
                    if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                        addr.insert(p.local);
                    }
                }
            }
        }
        let mut live: Vec<HashSet<usize>> = vec![HashSet::new(); n];
        let mut ch = true;
        while ch {
            ch = false;
            for &b in rpo.iter().rev() {
                let mut l: HashSet<usize> = HashSet::new();
                for &s in &su[b] {
                    l.extend(live[s].iter().cloned());
                }
                let bl = &body.blocks[b];
                match &bl.terminator.kind {
                    TerminatorKind::Return => {
                        l.insert(0);
                    }
                    TerminatorKind::SwitchInt { discr, .. } => op_uses(discr, &mut |x| {
                        l.insert(x);
                    }),
                    TerminatorKind::Assert { cond, msg, .. } => {
                        op_uses(cond, &mut |x| {
                            l.insert(x);
                        });
                        let _ = msg;
                    }
                    TerminatorKind::Drop { place, .. } => {
                        if drop_of(place.ty(body.locals()).unwrap()).is_some() {
                            place_uses(place, &mut |x| {
                                l.insert(x);
                            });
                            l.insert(place.local);
                        }
                    }
                    TerminatorKind::Call { func, args, destination, .. } => {
                        if destination.projection.is_empty() {
                            l.remove(&destination.local);
                        } else {
                            place_uses(destination, &mut |x| {
                                l.insert(x);
                            });
                        }
                        op_uses(func, &mut |x| {
                            l.insert(x);
                        });
                        for a in args {
                            op_uses(a, &mut |x| {
                                l.insert(x);
                            });
                        }
                    }
                    _ => {}
                }
                for s in bl.statements.iter().rev() {
                    match &s.kind {
                        StatementKind::Assign(p, r) => {
                            if p.projection.is_empty() {
                                l.remove(&p.local);
                            } else {
                                place_uses(p, &mut |x| {
                                    l.insert(x);
                                });
                            }
                            rv_uses(r, &mut |x| {
                                l.insert(x);
                            });
                        }
                        StatementKind::SetDiscriminant { place, .. } => place_uses(place, &mut |x| {
                            l.insert(x);
                        }),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => op_uses(o, &mut |x| {
                            l.insert(x);
                        }),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                            for o in [&c.src, &c.dst, &c.count] {
                                op_uses(o, &mut |x| {
                                    l.insert(x);
                                })
                            }
                        }
                        _ => {}
                    }
                }
                if l.len() != live[b].len() {
                    ch = true;
                    live[b] = l;
                }
            }
        }
        for l in live.iter_mut() {
            l.extend(addr.iter().cloned());
        }
        let ltys: Vec<Ty> = body.locals().iter().map(|l| l.ty).collect();
        let blanks = ltys.iter().map(|t| blank(*t)).collect();
        let untuple = matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        FnInfo {
            name: local_name(inst),
            def: inst.def.name().to_string(),
            krate: inst.def.krate().name.to_string(),
            inst: inst.clone(),
            body,
            ltys,
            rpo,
            rpoi,
            loops: loops.into_iter().map(|(k, v)| (k, Rc::new(v))).collect(),
            live,
            untuple,
            blanks,
        }
    }
    pub fn nargs(&self) -> usize {
        self.body.arg_locals().len()
    }
}

impl Interp {
    pub fn new() -> Interp {
        Interp {
            callees: HashMap::new(),
            events: vec![],
            evseen: HashSet::new(),
            stats: Stats::default(),
            stack: vec![],
            stubs: vec![],
            nostub: vec![],
            shims: HashMap::new(),
            unroll: 300,
            loops: std::env::var("FLACAI_KINDS").map(|k| k.contains("Loop")).unwrap_or(false),
            undecided: 14,
            found: false,
            early: 15000,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(600),
            trace: std::env::var("FLACAI_TRACE").is_ok(),
            statics: HashMap::new(),
            fail_notes: BTreeMap::new(),
        }
    }
    pub fn callee(&mut self, i: &Instance) -> Callee {
        if let Some(c) = self.callees.get(i) {
            return c.clone();
        }
        let def = i.def.name().to_string().replace("h::claxon::", "claxon::");
        let intr = i.intrinsic_name().map(|s| s.to_string());
        let nat = crate::nat::is_native(&def, intr.as_deref());
        let c = if !nat && i.has_body() && !matches!(i.kind, InstanceKind::Virtual { .. }) {
            Callee::Body(Rc::new(FnInfo::new(i, i.body().unwrap())))
        } else {
            let never = match i.ty().kind().fn_sig() {
                Some(s) => matches!(s.skip_binder().output().kind(), TyKind::RigidTy(RigidTy::Never)),
                None => false,
            };
            Callee::Native(Rc::new(Nat { inst: i.clone(), name: local_name(i), def, intr, never }))
        };
        self.callees.insert(i.clone(), c.clone());
        c
    }
    /// The innermost function of the crate under analysis on the stack, or the innermost one.
    pub fn here(&self) -> (String, String) {
        for (f, s) in self.stack.iter().rev() {
            if f.krate == "claxon" {
                return (f.name.clone(), s.clone());
            }
        }
        match self.stack.last() {
            Some((f, s)) => (f.name.clone(), s.clone()),
            None => ("?".into(), "?".into()),
        }
    }
    pub fn event(&mut self, kind: EvK, msg: String, st: St) {
        let (func, site) = self.here();
        if kind == EvK::Ub && std::env::var("FLACAI_STACK").is_ok() {
            let st: Vec<String> = self.stack.iter().map(|(f, s)| format!("{}@{}", f.name, s)).collect();
            eprintln!("STACK {} {}", msg, st.join("\n   > "));
        }
        if kind == EvK::Fail {
            let st: Vec<String> = self.stack.iter().map(|(f, s)| format!("{}@{}", f.name, s)).collect();
            *self.fail_notes.entry(format!("{} [{}]", msg, st.join(" > "))).or_insert(0) += 1;
            return;
        }
        // only some kinds of failure may be asked for
        if let Ok(k) = std::env::var("FLACAI_KINDS") {
            let k: Vec<&str> = k.split(',').collect();
            let asked = msg.contains("is asked for") && k.contains(&"Panic") || msg.starts_with("it ends") && k.contains(&"Loop");
            if !asked && !k.contains(&format!("{:?}", kind).as_str()) {
                return;
            }
        }
        let n = self.events.iter().filter(|e| e.kind == kind && e.func == func && e.msg == msg).count();
        if n >= 12 {
            return;
        }
        let root = self.stack.first().map(|x| x.0.name.rsplit("::").next().unwrap_or("").to_string()).unwrap_or_default();
        let mut e = Ev { kind, func, site, msg, root, st, asg: None };
        // a confirmed failure ends the analysis
        if self.early > 0 && !self.found {
            let t = std::time::Instant::now();
            if let Some(a) = crate::eval::concretise(&e.st.hist, &[], self.early.min(1500)) {
                self.found = true;
                self.deadline = self.deadline.min(std::time::Instant::now() + std::time::Duration::from_secs(3));
                crate::term::set_deadline(self.deadline);
                e.asg = Some(a);
                if let Ok(p) = std::env::var("FLACAI_OUT") {
                    let _ = std::fs::write(p + ".event", crate::ev_json(&e, &e.asg));
                }
            }
            self.early = self.early.saturating_sub(t.elapsed().as_millis() as u64);
        }
        self.events.push(e);
    }
    fn endless(&mut self, m: String, st: St) {
        if self.loops { self.event(EvK::Loop, m, st) } else { self.stop(Stop::Fail(m), st) }
    }
    /// Stop a path.
    fn stop(&mut self, s: Stop, st: St) {
        match s {
            Stop::Dead => {}
            Stop::Split(_) => unreachable!(),
            Stop::Fail(m) => self.event(EvK::Fail, m, st),
            Stop::Panic(m) => {
                if !st.g.panic_ok {
                    self.event(EvK::Panic, m, st)
                }
            }
            Stop::Ub(m) => self.event(EvK::Ub, m, st),
        }
    }
    pub fn fork(&mut self, st: &St, c: T) -> (Option<St>, Option<St>) {
        if self.trace {
            eprintln!("SPLIT {}", show(c));
        }
        self.stats.splits += 1;
        (st.with(c, true), st.with(c, false))
    }

    // -------------------------------------------------------------- operands

    fn fix(&self) -> u32 {
        self.stack.len() as u32 - 1
    }
    pub fn place(&self, f: &FnInfo, st: &St, p: &Place) -> R<Place2> {
        let fr = st.fr.len() as u32 - 1;
        let mut r = Place2 { ptr: Ptr { base: Base::Local(fr, p.local as u32), proj: vec![], meta: Meta::Thin }, ty: f.ltys[p.local], zst: false, var: None };
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let inner = match &*ti(peel(r.ty)) {
                        TI::Ptr(t) => *t,
                        _ => return fail("deref of a non-pointer"),
                    };
                    let v = if r.zst { V::Uninit } else { st.read(&r.ptr)? };
                    match v {
                        V::Ptr(q) => r.ptr = (*q).clone(),
                        V::Top => return fail("deref of an unknown pointer"),
                        V::Uninit => return Err(Stop::Ub("deref of an uninitialised pointer".into())),
                        o => return fail(&format!("deref of a non-pointer value {}", format!("{:?}", o).chars().take(200).collect::<String>())),
                    }
                    r.ty = inner;
                    r.zst = is_zst(inner);
                }
                ProjectionElem::Field(i, t) => {
                    if !r.zst {
                        match &*ti(r.ty) {
                            TI::Struct { erased: Some(k), .. } | TI::Union { erased: Some(k), .. } => {
                                if k != i {
                                    r.zst = true;
                                }
                            }
                            TI::Union { .. } => return fail("union field"),
                            TI::Enum { .. } => {
                                let v = match r.var {
                                    Some(v) => v,
                                    None => 0,
                                };
                                r.ptr.proj.push(Pj::V(v, *i as u32));
                            }
                            _ => r.ptr.proj.push(Pj::F(*i as u32)),
                        }
                        if !is_slice_ty(*t) {
                            r.ptr.meta = Meta::Thin;
                        }
                    }
                    r.var = None;
                    r.ty = *t;
                    r.zst = r.zst || is_zst(*t);
                }
                ProjectionElem::Downcast(v) => r.var = Some(v.to_index() as u32),
                ProjectionElem::Index(l) => {
                    let V::Int(i) = st.fr[fr as usize][*l].clone() else { return fail("index is not an integer") };
                    self.index(st, &mut r, i)?;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if *from_end {
                        let n = self.len(st, &r)?;
                        addc(n, -(*offset as i128))
                    } else {
                        int(*offset as i128)
                    };
                    self.index(st, &mut r, i)?;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = self.len(st, &r)?;
                    let end = if *from_end { addc(n, -(*to as i128)) } else { int(*to as i128) };
                    let e = slice_elem(r.ty).or_else(|| if let TI::Array(e, _) = &*ti(r.ty) { Some(*e) } else { None });
                    let Some(e) = e else { return fail("subslice") };
                    let was = slice_elem(r.ty).is_some();
                    let mut q = Place2 { ptr: r.ptr.clone(), ty: r.ty, zst: r.zst, var: None };
                    self.index(st, &mut q, int(*from as i128))?;
                    q.ptr.meta = Meta::Len(st.env.norm(addc(end, -(*from as i128))));
                    q.ty = if was { r.ty } else { Ty::try_new_array(e, konst(st.env.norm(addc(end, -(*from as i128)))).unwrap_or(0) as u64).unwrap_or(r.ty) };
                    if !was {
                        q.ptr.meta = Meta::Thin;
                    }
                    r = q;
                }
                ProjectionElem::OpaqueCast(t) => r.ty = *t,
            }
        }
        Ok(r)
    }
    fn index(&self, st: &St, r: &mut Place2, i: T) -> R<()> {
        match &*ti(peel(r.ty)) {
            TI::Slice(e) => {
                match r.ptr.proj.last_mut() {
                    Some(Pj::I(t)) => *t = st.env.norm(add(*t, i)),
                    _ => return fail("slice place without offset"),
                }
                r.ty = *e;
            }
            TI::Array(e, _) => {
                r.ptr.proj.push(Pj::I(i));
                r.ty = *e;
            }
            _ => return fail("index into a non-array"),
        }
        r.ptr.meta = Meta::Thin;
        r.zst = is_zst(r.ty);
        Ok(())
    }
    fn len(&self, _st: &St, r: &Place2) -> R<T> {
        match &*ti(peel(r.ty)) {
            TI::Array(_, Some(n)) => Ok(int(*n as i128)),
            TI::Slice(_) | TI::Str => match r.ptr.meta {
                Meta::Len(t) => Ok(t),
                _ => fail("slice without length"),
            },
            _ => fail("length of a non-array"),
        }
    }
    pub fn read_place(&self, st: &St, p: &Place2) -> R<V> {
        if p.zst {
            return Ok(unit());
        }
        self.read_ty(st, &p.ptr, p.ty)
    }
    pub fn read_ty(&self, st: &St, p: &Ptr, t: Ty) -> R<V> {
        if is_zst(t) {
            return Ok(unit());
        }
        if let TI::Array(_, Some(n)) = &*ti(peel(t)) {
            if let Some(Pj::I(_)) = p.proj.last() {
                if !st.is_arr_at(p) {
                    return Ok(V::Arr(Rc::new(st.read_slice(p, int(*n as i128))?)));
                }
            }
        }
        st.read(p)
    }
    pub fn write_place(&self, st: &mut St, p: &Place2, v: V) -> R<()> {
        if p.zst {
            return Ok(());
        }
        st.write(&p.ptr, v)
    }
    pub fn operand(&mut self, f: &FnInfo, st: &St, o: &Operand) -> R<V> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                if p.projection.is_empty() {
                    return Ok(st.fr[st.fr.len() - 1][p.local].clone());
                }
                let q = self.place(f, st, p)?;
                self.read_place(st, &q)
            }
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(k) => Ok(V::Int(int(matches!(k, RuntimeChecks::OverflowChecks) as i128))),
        }
    }
    fn constant(&mut self, c: &MirConst) -> R<V> {
        match c.kind() {
            ConstantKind::Allocated(a) => Ok(read_const(a, 0, c.ty())),
            ConstantKind::ZeroSized => Ok(unit()),
            ConstantKind::Ty(_) => match c.eval_target_usize() {
                Ok(n) => Ok(V::Int(int(n as i128))),
                Err(_) => fail("constant"),
            },
            k => fail(format!("constant {:?}", k)),
        }
    }
    pub fn as_int(&self, st: &St, v: &V) -> R<T> {
        match v {
            V::Int(t) => Ok(st.env.norm(*t)),
            V::Uninit => Err(Stop::Ub("use of an uninitialised value".into())),
            V::Top => Ok(fresh("havoc", i64::MIN as i128, u64::MAX as i128)),
            v => fail(format!("expected an integer, found {}", show_v(v))),
        }
    }

    // -------------------------------------------------------------- rvalues

    pub fn binop(&self, st: &St, op: &BinOp, a: &V, b: &V, ta: Ty, tb: Ty) -> R<V> {
        let env = &*st.env;
        use BinOp::*;
        if let (V::Ptr(p), _) = (a, b) {
            if let Offset = op {
                let k = self.as_int(st, b)?;
                return Ok(V::Ptr(Rc::new(ptr_off(env, p, k)?)));
            }
            if let V::Ptr(q) = b {
                let d = ptr_diff(env, p, q);
                let r = match (op, d) {
                    (Eq, Some(d)) => env.eq0(d),
                    (Ne, Some(d)) => sub(int(1), env.eq0(d)),
                    (Lt, Some(d)) => env.ge0(addc(mulc(d, -1), -1)),
                    (Le, Some(d)) => env.ge0(mulc(d, -1)),
                    (Gt, Some(d)) => env.ge0(addc(d, -1)),
                    (Ge, Some(d)) => env.ge0(d),
                    (Eq, None) => int(0),
                    (Ne, None) => int(1),
                    _ => return fail("pointer comparison"),
                };
                let r = match (p.meta, q.meta) {
                    (Meta::Len(x), Meta::Len(y)) if x != y => mul(r, env.eq(x, y)),
                    _ => r,
                };
                return Ok(V::Int(r));
            }
            if let V::Int(_) = b {
                // comparison with a null-like address
                return match op {
                    Eq => Ok(V::Int(int(0))),
                    Ne => Ok(V::Int(int(1))),
                    _ => fail("pointer arithmetic"),
                };
            }
        }
        if let (V::Fn(x), V::Fn(y)) = (a, b) {
            return Ok(V::Int(int(((x == y) == matches!(op, Eq)) as i128)));
        }
        let x = self.as_int(st, a)?;
        let y = self.as_int(st, b)?;
        let Some((w, s)) = int_ty(ta) else { return fail("binary operation on a non-integer") };
        let wr = |t: T| env.wrap(w, s, t);
        let ub = |c: T, m: &str| -> R<()> { if dec(env, c)? { Ok(()) } else { Err(Stop::Ub(m.into())) } };
        let inr = |t: T| {
            let (lo, hi) = wrange(w, s);
            mul(env.ge0(addc(t, -lo)), env.ge0(sub(int(hi), t)))
        };
        Ok(V::Int(match op {
            Add => wr(add(x, y)),
            Sub => wr(sub(x, y)),
            Mul => wr(mul(x, y)),
            AddUnchecked => {
                ub(inr(add(x, y)), "overflow in unchecked addition")?;
                add(x, y)
            }
            SubUnchecked => {
                ub(inr(sub(x, y)), "overflow in unchecked subtraction")?;
                sub(x, y)
            }
            MulUnchecked => {
                ub(inr(mul(x, y)), "overflow in unchecked multiplication")?;
                mul(x, y)
            }
            Div => env.div(x, y, w, s),
            Rem => env.rem(x, y, w, s),
            BitXor => env.bitop('^', x, y, w, s),
            BitAnd => env.bitop('&', x, y, w, s),
            BitOr => env.bitop('|', x, y, w, s),
            Shl | Shr | ShlUnchecked | ShrUnchecked => {
                let (lo, hi) = env.ival(y);
                let k = if lo >= 0 && hi < w as i128 {
                    y
                } else {
                    let (wb, sb) = int_ty(tb).unwrap_or((32, false));
                    if matches!(op, ShlUnchecked | ShrUnchecked) {
                        ub(mul(env.ge0(y), env.lt(y, int(w as i128))), "shift amount out of range")?;
                        y
                    } else {
                        env.bitop('&', y, int(w as i128 - 1), wb, sb)
                    }
                };
                if matches!(op, Shl | ShlUnchecked) { env.shl(x, k, w, s) } else { env.shr(x, k, w, s) }
            }
            Eq => env.eq(x, y),
            Ne => sub(int(1), env.eq(x, y)),
            Lt => env.lt(x, y),
            Le => env.le(x, y),
            Gt => env.lt(y, x),
            Ge => env.le(y, x),
            Cmp => {
                let tag = add(sub(int(1), env.lt(x, y)), env.lt(y, x));
                let mut m = BTreeMap::new();
                for i in 0..3 {
                    m.insert(i, Rc::new(vec![]));
                }
                return Ok(V::En(tag, Rc::new(m)));
            }
            Offset => return fail("offset of a non-pointer"),
        }))
    }
    fn checked(&self, st: &St, op: &BinOp, a: &V, b: &V, ta: Ty, tb: Ty) -> R<V> {
        let env = &*st.env;
        let x = self.as_int(st, a)?;
        let y = self.as_int(st, b)?;
        let Some((w, s)) = int_ty(ta) else { return fail("checked operation on a non-integer") };
        let p = match op {
            BinOp::Add => add(x, y),
            BinOp::Sub => sub(x, y),
            BinOp::Mul => mul(x, y),
            BinOp::Shl | BinOp::Shr => {
                let _ = tb;
                let o = sub(int(1), mul(env.ge0(y), env.lt(y, int(w as i128))));
                let V::Int(v) = self.binop(st, op, a, b, ta, tb)? else { return fail("shift") };
                return Ok(agg(vec![V::Int(v), V::Int(o)]));
            }
            _ => return fail("checked operation"),
        };
        let (lo, hi) = wrange(w, s);
        let o = sub(int(1), mul(env.ge0(addc(p, -lo)), env.ge0(sub(int(hi), p))));
        Ok(agg(vec![V::Int(env.wrap(w, s, p)), V::Int(o)]))
    }
    pub fn discriminant(&self, st: &St, v: &V, t: Ty) -> R<T> {
        match v {
            V::En(tag, _) => {
                let tag = st.env.norm(*tag);
                let ds = discrs(peel(t));
                if ds.is_empty() || ds.iter().enumerate().all(|(i, d)| *d == i as i128) {
                    return Ok(tag);
                }
                if let Some(k) = konst(tag) {
                    return Ok(int(ds[k as usize]));
                }
                // affine
                if ds.len() >= 2 && ds.windows(2).all(|w| w[1] - w[0] == ds[1] - ds[0]) {
                    return Ok(addc(mulc(tag, ds[1] - ds[0]), ds[0]));
                }
                if let Some(r) = single_root(tag) {
                    let tb = table(tag, r);
                    return Ok(mk_tab(r, tb.iter().map(|&x| if x >= 0 && (x as usize) < ds.len() { ds[x as usize] } else { ds[0] }).collect()));
                }
                fail("discriminant")
            }
            V::Uninit => Err(Stop::Ub("discriminant of an uninitialised value".into())),
            // a type without a representation has one variant
            V::Agg(x) if x.is_empty() => Ok(int(only_variant(peel(t)))),
            v => fail(format!("discriminant of {}", show_v(v))),
        }
    }
    pub fn cast(&mut self, st: &St, k: &CastKind, v: V, from: Ty, to: Ty) -> R<V> {
        let env = &*st.env;
        match k {
            CastKind::IntToInt => {
                if let V::En(..) = &v {
                    let d = self.discriminant(st, &v, from)?;
                    let (w, s) = int_ty(to).unwrap();
                    return Ok(V::Int(env.wrap(w, s, d)));
                }
                let x = self.as_int(st, &v)?;
                match int_ty(to) {
                    Some((w, s)) => Ok(V::Int(env.wrap(w, s, x))),
                    None => fail("integer cast"),
                }
            }
            CastKind::PointerCoercion(c) => match c {
                PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve_for_fn_ptr(d, &a) {
                        Ok(i) => Ok(V::Fn(fn_key(&i))),
                        Err(_) => fail("function pointer"),
                    },
                    _ => fail("function pointer"),
                },
                PointerCoercion::ClosureFnPointer(_) => fail("closure pointer"),
                PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer => Ok(v),
                PointerCoercion::ArrayToPointer => match v {
                    V::Ptr(p) => {
                        if is_sub(st, &p) {
                            return Ok(V::Ptr(p));
                        }
                        let mut p = (*p).clone();
                        p.proj.push(Pj::I(int(0)));
                        Ok(V::Ptr(Rc::new(p)))
                    }
                    v => Ok(v),
                },
                PointerCoercion::Unsize => self.unsize(st, v, from, to),
            },
            CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::Subtype | CastKind::BoxDerefTransmute => self.ptr_cast(st, v, from, to),
            CastKind::Transmute => self.transmute(st, v, from, to),
            CastKind::PointerExposeAddress => match v {
                V::Ptr(_) => Ok(V::Int(fresh("address", 1, u64::MAX as i128))),
                _ => fail("pointer to integer"),
            },
            k => fail(format!("cast {:?}", k)),
        }
    }
    fn unsize(&mut self, st: &St, v: V, from: Ty, to: Ty) -> R<V> {
        let (TI::Ptr(a), TI::Ptr(b)) = (&*ti(peel(from)), &*ti(peel(to))) else { return fail("unsizing") };
        let V::Ptr(p) = v else { return Ok(v) };
        if let (TI::Array(_, Some(n)), Some(_)) = (&*ti(peel(*a)), slice_elem(*b)) {
            let mut q = (*p).clone();
            if !is_sub(st, &p) && q.base != Base::Dangling {
                q.proj.push(Pj::I(int(0)));
            }
            q.meta = Meta::Len(int(*n as i128));
            return Ok(V::Ptr(Rc::new(q)));
        }
        if let TI::Dyn = &*ti(*b) {
            let mut q = (*p).clone();
            if let Meta::Dyn(_) = q.meta {
            } else {
                q.meta = Meta::Dyn(ty_key(*a));
            }
            return Ok(V::Ptr(Rc::new(q)));
        }
        fail("unsizing")
    }
    fn ptr_cast(&mut self, st: &St, v: V, from: Ty, to: Ty) -> R<V> {
        let (TI::Ptr(a), TI::Ptr(b)) = (&*ti(peel(from)), &*ti(peel(to))) else { return Ok(v) };
        let V::Ptr(p) = &v else { return Ok(v) };
        let (a, b) = (*a, *b);
        if a == b {
            return Ok(v);
        }
        let mut q = (**p).clone();
        let (sa, sb) = (slice_elem(a), slice_elem(b));
        if sa.is_some() && sb.is_some() {
            return Ok(v);
        }
        if sa.is_some() {
            q.meta = Meta::Thin;
        }
        if let Meta::Dyn(_) = q.meta {
            if !matches!(&*ti(b), TI::Dyn) {
                q.meta = Meta::Thin;
            }
        }
        if q.base == Base::Dangling {
            return Ok(V::Ptr(Rc::new(q)));
        }
        let arr_of = |t: Ty| if let TI::Array(e, _) = &*ti(peel(t)) { Some(*e) } else { None };
        if let (Some(e), None) = (arr_of(a), arr_of(b)) {
            if peel(e) == peel(b) && !is_sub(st, p) {
                q.proj.push(Pj::I(int(0)));
                return Ok(V::Ptr(Rc::new(q)));
            }
        }
        if let (None, Some(e)) = (arr_of(a), arr_of(b)) {
            if peel(e) == peel(a) || sa.map(|x| peel(x) == peel(e)).unwrap_or(false) {
                return Ok(V::Ptr(Rc::new(q)));
            }
        }
        if peel(a) == peel(b) || is_zst(b) || sa.map(|x| peel(x) == peel(b)).unwrap_or(false) {
            return Ok(V::Ptr(Rc::new(q)));
        }
        // an opaque cast: remember the pointer, reads will be checked by shape
        if let (Some((w1, _)), Some((w2, _))) = (int_ty(a).or_else(|| sa.and_then(int_ty)), int_ty(b)) {
            if w1 == w2 || matches!(q.base, Base::Heap(_)) {
                // (allocations of the vector implementation are passed around as bytes)
                return Ok(V::Ptr(Rc::new(q)));
            }
            return fail(format!("pointer cast from {} to {}", a, b));
        }
        Ok(V::Ptr(Rc::new(q)))
    }
    pub fn transmute(&mut self, st: &St, v: V, from: Ty, to: Ty) -> R<V> {
        let (f, t) = (peel(from), peel(to));
        if f == t {
            return Ok(v);
        }
        if is_zst(t) {
            return Ok(unit());
        }
        let env = &*st.env;
        match (&*ti(f), &*ti(t)) {
            (TI::Ptr(_), TI::Ptr(_)) => self.ptr_cast(st, v, from, to),
            (TI::Int(..) | TI::Bool | TI::Char, TI::Int(w, s)) => {
                if let V::Uninit = v {
                    return Ok(v);
                }
                let x = self.as_int(st, &v)?;
                Ok(V::Int(env.wrap(*w, *s, x)))
            }
            (TI::Int(..), TI::Bool | TI::Char) => Ok(v),
            (TI::Array(e, Some(n)), TI::Int(w, s)) if int_ty(*e).map(|x| x.0 as u64 * n == *w as u64).unwrap_or(false) => {
                let ew = int_ty(*e).unwrap().0;
                let V::Arr(a) = &v else { return fail("transmute of a non-array") };
                let mut x = int(0);
                for i in 0..*n {
                    let b = a.get(env, int(i as i128))?;
                    let b = self.as_int(st, &b)?;
                    let b = env.wrap(ew, false, b);
                    x = add(x, mulc(b, 1i128 << (i * ew as u64)));
                }
                Ok(V::Int(env.wrap(*w, *s, x)))
            }
            (TI::Int(w, _), TI::Array(e, Some(n))) if int_ty(*e).map(|x| x.0 as u64 * n == *w as u64).unwrap_or(false) => {
                let (ew, es) = int_ty(*e).unwrap();
                let x = self.as_int(st, &v)?;
                let x = env.wrap(*w, false, x);
                let mut o = vec![];
                for i in 0..*n {
                    let b = env.shr(x, int((i * ew as u64) as i128), *w, false);
                    o.push(V::Int(env.wrap(ew, es, b)));
                }
                Ok(V::Arr(Rc::new(Arr::list(o))))
            }
            (TI::Array(_, Some(n)), TI::Array(_, Some(m))) if n == m => Ok(v),
            (TI::Enum { .. }, TI::Int(w, s)) => {
                let d = self.discriminant(st, &v, f)?;
                Ok(V::Int(env.wrap(*w, *s, d)))
            }
            (TI::Struct { .. }, TI::Struct { .. }) | (TI::Tuple(_), TI::Tuple(_)) | (TI::Slice(_), TI::Slice(_)) => Ok(v),
            (TI::Enum { .. }, TI::Ptr(_)) => Ok(V::Ptr(Rc::new(Ptr { base: Base::Dangling, proj: vec![Pj::I(int(0))], meta: Meta::Thin }))),
            (TI::Int(w, _), TI::Ptr(_)) if *w == 64 => Ok(V::Ptr(Rc::new(Ptr { base: Base::Dangling, proj: vec![Pj::I(int(0))], meta: Meta::Thin }))),
            (TI::Enum { variants: a }, TI::Enum { variants: b }) if a.len() == b.len() => Ok(v),
            _ => fail(format!("transmute from {} to {}", from, to)),
        }
    }
    fn rvalue(&mut self, f: &FnInfo, st: &St, r: &Rvalue, dty: Ty) -> R<V> {
        match r {
            Rvalue::Use(o, _) => self.operand(f, st, o),
            Rvalue::CopyForDeref(p) => {
                let q = self.place(f, st, p)?;
                self.read_place(st, &q)
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => {
                let q = self.place(f, st, p)?;
                if q.zst {
                    return Ok(V::Ptr(Rc::new(Ptr { base: Base::Dangling, proj: vec![Pj::I(int(0))], meta: q.ptr.meta })));
                }
                Ok(V::Ptr(Rc::new(q.ptr)))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let x = self.operand(f, st, a)?;
                let y = self.operand(f, st, b)?;
                let (ta, tb) = (a.ty(f.body.locals()).unwrap(), b.ty(f.body.locals()).unwrap());
                self.binop(st, op, &x, &y, ta, tb)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let x = self.operand(f, st, a)?;
                let y = self.operand(f, st, b)?;
                let (ta, tb) = (a.ty(f.body.locals()).unwrap(), b.ty(f.body.locals()).unwrap());
                self.checked(st, op, &x, &y, ta, tb)
            }
            Rvalue::UnaryOp(op, a) => {
                let x = self.operand(f, st, a)?;
                let ta = a.ty(f.body.locals()).unwrap();
                match op {
                    UnOp::PtrMetadata => match x {
                        V::Ptr(p) => match p.meta {
                            Meta::Len(t) => Ok(V::Int(t)),
                            _ => Ok(unit()),
                        },
                        _ => fail("metadata of a non-pointer"),
                    },
                    UnOp::Not => {
                        let t = self.as_int(st, &x)?;
                        let (w, s) = int_ty(ta).unwrap_or((32, false));
                        Ok(V::Int(if w == 1 { sub(int(1), t) } else { st.env.not(t, w, s) }))
                    }
                    UnOp::Neg => {
                        let t = self.as_int(st, &x)?;
                        let (w, s) = int_ty(ta).unwrap_or((32, true));
                        Ok(V::Int(st.env.wrap(w, s, mulc(t, -1))))
                    }
                }
            }
            Rvalue::Discriminant(p) => {
                let q = self.place(f, st, p)?;
                let v = self.read_place(st, &q)?;
                Ok(V::Int(self.discriminant(st, &v, q.ty)?))
            }
            Rvalue::Len(p) => {
                let q = self.place(f, st, p)?;
                Ok(V::Int(self.len(st, &q)?))
            }
            Rvalue::Cast(k, o, t) => {
                let v = self.operand(f, st, o)?;
                let from = o.ty(f.body.locals()).unwrap();
                self.cast(st, k, v, from, *t)
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(f, st, o)?;
                let n = match n.eval_target_usize() {
                    Ok(n) => n,
                    Err(_) => return fail("array length"),
                };
                if n <= 512 {
                    return Ok(V::Arr(Rc::new(Arr::list(vec![v; n as usize]))));
                }
                Ok(V::Arr(Rc::new(Arr::fam(int(n as i128), v))))
            }
            Rvalue::Aggregate(k, ops) => {
                let mut v = vec![];
                for o in ops {
                    v.push(self.operand(f, st, o)?);
                }
                match k {
                    AggregateKind::Array(_) => Ok(V::Arr(Rc::new(Arr::list(v)))),
                    AggregateKind::Tuple | AggregateKind::Closure(..) => {
                        if is_zst(dty) {
                            return Ok(unit());
                        }
                        Ok(agg(v))
                    }
                    AggregateKind::Adt(_, var, _, _, active) => {
                        if is_zst(dty) && !matches!(&*ti(dty), TI::Enum { .. }) {
                            return Ok(unit());
                        }
                        match &*ti(dty) {
                            TI::Struct { erased: Some(k), .. } => Ok(v[*k].clone()),
                            TI::Union { erased: Some(k), fields } => {
                                if *active == Some(*k) {
                                    Ok(v[0].clone())
                                } else {
                                    Ok(blank(fields[*k]))
                                }
                            }
                            TI::Struct { .. } => Ok(agg(v)),
                            TI::Enum { .. } => Ok(en(var.to_index() as u32, v)),
                            _ => fail("aggregate"),
                        }
                    }
                    AggregateKind::RawPtr(..) => {
                        let V::Ptr(p) = &v[0] else { return fail("raw pointer") };
                        let mut p = (**p).clone();
                        if let V::Int(n) = &v[1] {
                            p.meta = Meta::Len(st.env.norm(*n));
                            if !matches!(p.proj.last(), Some(Pj::I(_))) {
                                p.proj.push(Pj::I(int(0)));
                            }
                        }
                        Ok(V::Ptr(Rc::new(p)))
                    }
                    _ => fail("aggregate"),
                }
            }
            r => fail(format!("rvalue {:?}", r)),
        }
    }

    // -------------------------------------------------------------- blocks

    fn stmt(&mut self, f: &FnInfo, st: &mut St, s: &Statement) -> R<()> {
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let dty = if p.projection.is_empty() { f.ltys[p.local] } else { p.ty(f.body.locals()).unwrap() };
                let v = self.rvalue(f, st, r, dty)?;
                if p.projection.is_empty() {
                    let n = st.fr.len() - 1;
                    Rc::make_mut(&mut st.fr[n])[p.local] = v;
                    return Ok(());
                }
                let q = self.place(f, st, p)?;
                self.write_place(st, &q, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let q = self.place(f, st, place)?;
                let v = self.read_place(st, &q)?;
                let i = variant_index.to_index() as u32;
                let n = match v {
                    V::En(_, m) => {
                        let x = m.get(&i).cloned().unwrap_or_default();
                        let mut o = BTreeMap::new();
                        o.insert(i, x);
                        V::En(int(i as i128), Rc::new(o))
                    }
                    _ => en(i, vec![]),
                };
                self.write_place(st, &q, n)
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                let n = st.fr.len() - 1;
                if st.fr[n][*l] != f.blanks[*l] {
                    Rc::make_mut(&mut st.fr[n])[*l] = f.blanks[*l].clone();
                }
                Ok(())
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let v = self.operand(f, st, o)?;
                let c = self.as_int(st, &v)?;
                self.stats.obligations += 1;
                if dec(&st.env, c)? { Ok(()) } else { Err(Stop::Ub("assumption violated".into())) }
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let a = self.operand(f, st, &c.src)?;
                let b = self.operand(f, st, &c.dst)?;
                let n = self.operand(f, st, &c.count)?;
                let n = self.as_int(st, &n)?;
                let (V::Ptr(a), V::Ptr(b)) = (a, b) else { return fail("copy") };
                let x = st.read_slice(&a, n)?;
                st.write_slice(&b, &x)
            }
            _ => Ok(()),
        }
    }
    pub fn exec_block(&mut self, f: &Rc<FnInfo>, bb: usize, st: St) -> Vec<(Tgt, St)> {
        let mut out = vec![];
        let mut work = vec![(0usize, st)];
        let body: &Body = &f.body;
        let block = &body.blocks[bb];
        'w: while let Some((mut i, mut st)) = work.pop() {
            if std::time::Instant::now() > self.deadline {
                self.stop(Stop::Fail("out of time".into()), st);
                continue;
            }
            while i < block.statements.len() {
                self.stats.stmts += 1;
                match self.stmt(f, &mut st, &block.statements[i]) {
                    Ok(()) => i += 1,
                    Err(Stop::Split(c)) => {
                        let (a, b) = self.fork(&st, c);
                        work.extend(b.map(|s| (i, s)));
                        work.extend(a.map(|s| (i, s)));
                        continue 'w;
                    }
                    Err(e) => {
                        self.stop(e, st);
                        continue 'w;
                    }
                }
            }
            match self.term(f, bb, &block.terminator, &mut st, &mut out) {
                Ok(()) => {}
                Err(Stop::Split(c)) => {
                    let (a, b) = self.fork(&st, c);
                    work.extend(b.map(|s| (i, s)));
                    work.extend(a.map(|s| (i, s)));
                }
                Err(e) => self.stop(e, st),
            }
        }
        out
    }
    fn term(&mut self, f: &Rc<FnInfo>, bb: usize, t: &Terminator, st: &mut St, out: &mut Vec<(Tgt, St)>) -> R<()> {
        match &t.kind {
            TerminatorKind::Goto { target } => {
                out.push((Tgt::Bb(*target), st.clone()));
                Ok(())
            }
            TerminatorKind::Drop { target, place, .. } => {
                let Some(inst) = drop_of(place.ty(f.body.locals()).unwrap()) else {
                    out.push((Tgt::Bb(*target), st.clone()));
                    return Ok(());
                };
                let l = self.stack.len() - 1;
                self.stack[l].1 = format!("{}", t.source_info.span.get_lines().start_line);
                let q = self.place(f, st, place)?;
                let p = if q.zst { Ptr { base: Base::Dangling, proj: vec![Pj::I(int(0))], meta: q.ptr.meta } } else { q.ptr };
                let shim = match self.shims.get(&inst) {
                    Some(x) => x.clone(),
                    None => {
                        let x = Rc::new(FnInfo::new(&inst, inst.body().unwrap()));
                        self.shims.insert(inst.clone(), x.clone());
                        x
                    }
                };
                for (s, _) in self.exec_fn(&shim, st.clone(), vec![V::Ptr(Rc::new(p))]) {
                    out.push((Tgt::Bb(*target), s));
                }
                Ok(())
            }
            TerminatorKind::Return => {
                out.push((Tgt::Ret, st.clone()));
                Ok(())
            }
            TerminatorKind::Unreachable => Err(Stop::Ub("unreachable code".into())),
            TerminatorKind::Resume | TerminatorKind::Abort => Err(Stop::Panic("abort".into())),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(f, st, discr)?;
                let x = self.as_int(st, &v)?;
                let ty = discr.ty(f.body.locals()).unwrap();
                let (w, s) = int_ty(ty).unwrap_or((64, false));
                let mut cur = st.clone();
                for (val, tgt) in targets.branches() {
                    let k = to_signed(val, w, s);
                    let c = cur.env.eq(cur.env.norm(x), int(k));
                    match cur.env.decide(c) {
                        Some(true) => {
                            out.push((Tgt::Bb(tgt), cur));
                            return Ok(());
                        }
                        Some(false) => {}
                        None => {
                            let (a, b) = self.fork(&cur, c);
                            if let Some(a) = a {
                                out.push((Tgt::Bb(tgt), a));
                            }
                            match b {
                                Some(b) => cur = b,
                                None => return Ok(()),
                            }
                        }
                    }
                }
                let o = targets.otherwise();
                // an unreachable default of an exhaustive match
                if matches!(f.body.blocks[o].terminator.kind, TerminatorKind::Unreachable) && f.body.blocks[o].statements.is_empty() {
                    let e = &cur.env;
                    let (l, h) = e.ival(e.norm(x));
                    let all: Vec<i128> = targets.branches().map(|b| to_signed(b.0, w, s)).collect();
                    if h - l < 4096 && (l..=h).all(|v| all.contains(&v)) {
                        return Ok(());
                    }
                    let n = all.len() as i128;
                    if all.iter().all(|v| *v >= 0 && *v < n) && l >= 0 {
                        // enum tags
                        return Ok(());
                    }
                }
                out.push((Tgt::Bb(o), cur));
                Ok(())
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let v = self.operand(f, st, cond)?;
                let c = self.as_int(st, &v)?;
                self.stats.obligations += 1;
                let ok = dec(&st.env, c)? == *expected;
                if ok {
                    out.push((Tgt::Bb(*target), st.clone()));
                    return Ok(());
                }
                let d = match msg {
                    AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                    AssertMessage::Overflow(op, ..) => format!("arithmetic overflow ({:?})", op),
                    AssertMessage::OverflowNeg(_) => "arithmetic overflow (Neg)".to_string(),
                    AssertMessage::DivisionByZero(_) => "division by zero".to_string(),
                    AssertMessage::RemainderByZero(_) => "remainder by zero".to_string(),
                    m => format!("{:?}", m),
                };
                let l = self.stack.len() - 1;
                self.stack[l].1 = format!("{}", t.source_info.span.get_lines().start_line);
                Err(Stop::Panic(d))
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let l = self.stack.len() - 1;
                self.stack[l].1 = format!("{}", t.source_info.span.get_lines().start_line);
                let _ = bb;
                let mut a = vec![];
                for o in args {
                    a.push(self.operand(f, st, o)?);
                }
                let fty = func.ty(f.body.locals()).unwrap();
                let inst = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, ga)) => match Instance::resolve(d, &ga) {
                        Ok(i) => i,
                        Err(_) => return fail("unresolved call"),
                    },
                    _ => match self.operand(f, st, func)? {
                        V::Fn(k) => key_fn(k),
                        _ => return fail("call through an unknown pointer"),
                    },
                };
                let outs = self.call(&inst, a, st)?;
                let Some(tg) = target else { return Ok(()) };
                let mut work: Vec<(St, V)> = outs;
                while let Some((mut s, v)) = work.pop() {
                    let r = (|| -> R<()> {
                        if destination.projection.is_empty() {
                            let n = s.fr.len() - 1;
                            Rc::make_mut(&mut s.fr[n])[destination.local] = v.clone();
                            return Ok(());
                        }
                        let q = self.place(f, &s, destination)?;
                        self.write_place(&mut s, &q, v.clone())
                    })();
                    match r {
                        Ok(()) => out.push((Tgt::Bb(*tg), s)),
                        Err(Stop::Split(c)) => {
                            let (a, b) = self.fork(&s, c);
                            work.extend(b.map(|s| (s, v.clone())));
                            work.extend(a.map(|s| (s, v.clone())));
                        }
                        Err(e) => self.stop(e, s),
                    }
                }
                Ok(())
            }
            k => fail(format!("terminator {:?}", k)),
        }
    }
    /// Call a function; may ask for a split only before anything has happened.
    pub fn call(&mut self, inst: &Instance, args: Vec<V>, st: &St) -> R<Out> {
        self.stats.calls += 1;
        if !st.g.cfg.is_empty() {
            let c = self.callee(inst);
            let def = match &c {
                Callee::Body(f) => f.def.clone(),
                Callee::Native(n) => n.def.clone(),
            };
            let hit = self.stubs.iter().find(|(g, d, _)| (*d == def || def.strip_suffix(d.as_str()).map(|p| p.ends_with("::")).unwrap_or(false)) && st.g.cfg.contains(g)).map(|x| x.2.clone());
            if hit.is_none() && def.starts_with("claxon::subframe::") && st.g.cfg.iter().any(|g| g.starts_with("sub_")) {
                return fail(format!("{} is called where a summary of subframe::decode is used", def));
            }
            if let Some(sd) = hit {
                let i = match Instance::resolve(sd, &inst.args()) {
                    Ok(i) => i,
                    Err(e) => return fail(format!("stub for {}: {:?}", def, e)),
                };
                if let Callee::Body(f) = self.callee(&i) {
                    return Ok(self.exec_fn(&f, st.clone(), args));
                }
                return fail("stub without body");
            }
        }
        match self.callee(inst) {
            Callee::Native(n) => {
                if let Some(o) = self.call_item(&n, &args, st)? {
                    return Ok(o);
                }
                let mut s = st.clone();
                crate::nat::call(self, &n, args, &mut s)
            }
            Callee::Body(f) => Ok(self.exec_fn(&f, st.clone(), args)),
        }
    }
    /// A function item or function pointer called through one of the function traits, or a constructor called as a function.
    fn call_item(&mut self, n: &Nat, args: &[V], st: &St) -> R<Option<Out>> {
        let last = n.def.rsplit("::").next().unwrap_or("");
        if !matches!(last, "call_once" | "call_mut" | "call") || !n.def.contains("ops::") || args.len() < 1 {
            return match (n.inst.ty().kind(), args.is_empty()) {
                (TyKind::RigidTy(RigidTy::FnDef(d, ga)), false) => Ok(self.constructor(&d, &ga, args)?.map(|v| vec![(st.clone(), v)])),
                _ => Ok(None),
            };
        }
        let Some(GenericArgKind::Type(t)) = n.inst.args().0.first().cloned() else { return Ok(None) };
        let a: Vec<V> = match args.last() {
            Some(V::Agg(t)) if args.len() > 1 || !matches!(args[0], V::Fn(_)) => t.iter().cloned().collect(),
            _ => vec![],
        };
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, ga)) => {
                if let Some(v) = self.constructor(&d, &ga, &a)? {
                    return Ok(Some(vec![(st.clone(), v)]));
                }
                match Instance::resolve(d, &ga) {
                    Ok(i) => Ok(Some(self.call(&i, a, st)?)),
                    Err(_) => Ok(None),
                }
            }
            TyKind::RigidTy(RigidTy::FnPtr(_)) => {
                let v = match &args[0] {
                    V::Ptr(p) => st.read(p)?,
                    v => v.clone(),
                };
                match v {
                    V::Fn(k) => {
                        let i = key_fn(k);
                        Ok(Some(self.call(&i, a, st)?))
                    }
                    _ => Ok(None),
                }
            }
            _ => Ok(None),
        }
    }
    fn constructor(&mut self, d: &FnDef, ga: &GenericArgs, a: &[V]) -> R<Option<V>> {
        let n = d.name();
        let i = match Instance::resolve(*d, ga) {
            Ok(i) => i,
            Err(_) => return Ok(None),
        };
        let Some(s) = i.ty().kind().fn_sig() else { return Ok(None) };
        let TyKind::RigidTy(RigidTy::Adt(ad, _)) = s.skip_binder().output().kind() else { return Ok(None) };
        let last = n.rsplit("::").next().unwrap_or("");
        let owner = ad.name();
        let base = owner.rsplit("::").next().unwrap_or("");
        if ad.kind() == AdtKind::Enum && n.contains(&format!("{}::", base)) {
            for (k, v) in ad.variants_iter().enumerate() {
                if v.name() == last && v.fields().len() == a.len() {
                    return Ok(Some(en(k as u32, a.to_vec())));
                }
            }
        }
        if ad.kind() == AdtKind::Struct && last == base && ad.variants_iter().next().map_or(false, |v| v.fields().len() == a.len()) {
            return Ok(Some(agg(a.to_vec())));
        }
        Ok(None)
    }
    pub fn exec_fn(&mut self, f: &Rc<FnInfo>, mut st: St, mut args: Vec<V>) -> Out {
        let tup1 = f.nargs() == 2 && match f.body.arg_locals()[1].ty.kind() {
            TyKind::RigidTy(RigidTy::Tuple(v)) => v.len() <= 1,
            _ => false,
        };
        if f.untuple && args.len() == 2 && (f.nargs() != 2 || !tup1 && matches!(&args[1], V::Agg(t) if t.len() == 1)) {
            if let Some(V::Agg(t)) = args.pop() {
                args.extend(t.iter().cloned());
            }
        }
        if args.len() != f.nargs() {
            // a shim taking its arguments as a tuple
            if let Some(V::Agg(t)) = args.last().cloned() {
                if args.len() - 1 + t.len() == f.nargs() {
                    args.pop();
                    args.extend(t.iter().cloned());
                }
            }
        }
        if args.len() != f.nargs() {
            // zero-sized captures are not represented
            self.stop(Stop::Fail(format!("{} arguments for {}, which takes {}", args.len(), f.name, f.nargs())), st);
            return vec![];
        }
        if self.stack.len() > 60 {
            if self.stack.iter().filter(|x| x.0.name == f.name).count() > 20 {
                self.endless(format!("{} calls itself without end", f.name), st);
            } else {
                self.stop(Stop::Fail("call depth".into()), st);
            }
            return vec![];
        }
        if self.trace {
            eprintln!("{}> {} {}", "  ".repeat(self.stack.len()), f.name, args.iter().map(show_v).collect::<Vec<_>>().join(", "));
        }
        *self.stats.funcs.entry(f.name.clone()).or_insert(0) += 1;
        let mut fr = f.blanks.clone();
        for (i, a) in args.into_iter().enumerate() {
            fr[i + 1] = a;
        }
        st.fr.push(Rc::new(fr));
        self.stack.push((f.clone(), String::new()));
        let (_, _, rets) = self.region(f, None, 0, vec![st]);
        self.stack.pop();
        let mut out = vec![];
        let mut rs = vec![];
        for mut r in rets {
            // keep only the result for merging
            let n = r.fr.len() - 1;
            let v = r.fr[n][0].clone();
            let mut fr = vec![V::Uninit; 1];
            fr[0] = v;
            r.fr[n] = Rc::new(fr);
            rs.push(r);
        }
        let rs = self.merge(rs, false);
        for mut r in rs {
            let fr = r.fr.pop().unwrap();
            let v = fr[0].clone();
            if self.trace {
                eprintln!("{}< {} = {}", "  ".repeat(self.stack.len()), f.name, show_v(&v));
            }
            out.push((r, v));
        }
        out
    }
    pub fn merge(&mut self, mut v: Vec<St>, enums: bool) -> Vec<St> {
        if v.len() < 2 {
            return v;
        }
        for s in v.iter_mut() {
            gc(s);
        }
        loop {
            let mut done = true;
            let mut i = 0;
            while i < v.len() {
                let mut j = i + 1;
                while j < v.len() {
                    if let Some(m) = merge2(&v[i], &v[j], enums, true) {
                        v[i] = m;
                        v.swap_remove(j);
                        done = false;
                    } else {
                        j += 1;
                    }
                }
                i += 1;
            }
            if done {
                return v;
            }
        }
    }
    pub fn kill(&self, f: &FnInfo, bb: usize, st: &mut St) {
        let n = st.fr.len() - 1;
        let live = &f.live[bb];
        let fr = &st.fr[n];
        let dead: Vec<usize> = (1..fr.len()).filter(|i| !live.contains(i) && fr[*i] != f.blanks[*i]).collect();
        if dead.is_empty() {
            return;
        }
        let fr = Rc::make_mut(&mut st.fr[n]);
        for i in dead {
            fr[i] = f.blanks[i].clone();
        }
    }
    /// Run a region (a loop body or a whole function).
    pub fn region(&mut self, f: &Rc<FnInfo>, lp: Option<&Rc<HashSet<usize>>>, entry: usize, sts: Vec<St>) -> (Vec<(usize, St)>, Vec<St>, Vec<St>) {
        let mut pend: BTreeMap<usize, Vec<St>> = BTreeMap::new();
        pend.insert(f.rpoi[entry], sts);
        let mut exits = vec![];
        let mut back = vec![];
        let mut rets = vec![];
        let mut first = true;
        // partitions which the specification distinguishes are followed one after the other
        let mut later: Vec<BTreeMap<usize, Vec<St>>> = vec![];
        let split = f.krate != "claxon" && lp.is_none();
        loop {
            let Some((r, v)) = pend.pop_first() else {
                match later.pop() {
                    Some(p) => {
                        pend = p;
                        continue;
                    }
                    None => break,
                }
            };
            let bb = f.rpo[r];
            let mut v = v;
            if v.len() > 1 {
                for s in v.iter_mut() {
                    self.kill(f, bb, s);
                }
                v = self.merge(v, false);
            }
            let own = first && lp.is_some();
            first = false;
            let mut outs: Vec<(Tgt, St)> = vec![];
            if f.loops.contains_key(&bb) && !own {
                let (ex, rt) = self.run_loop(f, bb, v);
                outs.extend(ex.into_iter().map(|(b, s)| (Tgt::Bb(b), s)));
                rets.extend(rt);
            } else {
                for s in v {
                    outs.extend(self.exec_block(f, bb, s));
                }
            }
            if split && pend.is_empty() && outs.len() > 1 {
                let mut groups: BTreeMap<Vec<u32>, BTreeMap<usize, Vec<St>>> = BTreeMap::new();
                for (t, s) in outs {
                    match t {
                        Tgt::Ret => rets.push(s),
                        Tgt::Bb(b) => groups.entry(s.g.part.clone()).or_default().entry(f.rpoi[b]).or_default().push(s),
                    }
                }
                later.extend(groups.into_values().rev());
                continue;
            }
            for (t, s) in outs {
                match t {
                    Tgt::Ret => rets.push(s),
                    Tgt::Bb(b) => {
                        if let Some(l) = lp {
                            if b == entry {
                                back.push(s);
                                continue;
                            }
                            if !l.contains(&b) {
                                exits.push((b, s));
                                continue;
                            }
                        }
                        pend.entry(f.rpoi[b]).or_default().push(s);
                    }
                }
            }
        }
        (exits, back, rets)
    }
    pub fn run_loop(&mut self, f: &Rc<FnInfo>, h: usize, sts: Vec<St>) -> (Vec<(usize, St)>, Vec<St>) {
        let lp = f.loops[&h].clone();
        self.stats.loops.insert(format!("{}#{}", f.name, h));
        let mut exits = vec![];
        let mut rets = vec![];
        let mut cur = sts;
        let mut und = 0;
        let mut seen: Vec<St> = vec![];
        for it in 0.. {
            if cur.is_empty() {
                break;
            }
            for s in cur.iter_mut() {
                self.kill(f, h, s);
            }
            cur = self.merge(cur, false);
            // the stream is short when its end is given
            let short = self.loops && cur.iter().all(|s| matches!(s.regs.get(1), Some(V::Int(t)) if konst(*t).map_or(false, |x| x != 0)));
            if it > self.unroll * if short { 8 } else if cur[0].g.cfg.iter().any(|c| c == "long") { 20 } else { 1 } || und > self.undecided {
                for s in cur {
                    let m = format!("loop in {} does not end within {} iterations", f.name, it);
                    if short && it > self.unroll && f.krate != "h" { self.endless(m, s) } else { self.stop(Stop::Fail(m), s) }
                }
                break;
            }
            // the same state again, and again
            if self.loops && f.krate != "h" {
                let mut i = 0;
                while i < cur.len() {
                    let mut s = cur[i].clone();
                    gc(&mut s);
                    if seen.iter().any(|p: &St| p.fr == s.fr && p.heap == s.heap && p.regs == s.regs && p.g == s.g) {
                        self.event(EvK::Loop, format!("a loop in {} makes no progress", f.name), s);
                        cur.swap_remove(i);
                        continue;
                    }
                    seen.push(s);
                    if seen.len() > 24 {
                        seen.remove(0);
                    }
                    i += 1;
                }
                if cur.is_empty() {
                    break;
                }
            }
            let splits = self.stats.splits;
            let (e, b, r) = self.region(f, Some(&lp), h, cur);
            if self.stats.splits != splits && !b.is_empty() && (!e.is_empty() || !r.is_empty()) {
                und += 1;
            }
            exits.extend(e);
            rets.extend(r);
            cur = b;
        }
        (exits, rets)
    }
}
/// Does the pointer designate a sub-array within an array of its elements?
fn is_sub(st: &St, p: &Ptr) -> bool {
    matches!(p.proj.last(), Some(Pj::I(_))) && !st.is_arr_at(p)
}
fn is_slice_ty(t: Ty) -> bool {
    slice_elem(t).is_some()
}
pub fn ptr_off(env: &Env, p: &Ptr, k: T) -> R<Ptr> {
    let mut q = p.clone();
    match q.proj.last_mut() {
        Some(Pj::I(t)) => *t = env.norm(add(*t, k)),
        _ => {
            if k != int(0) {
                q.proj.push(Pj::I(k));
            }
        }
    }
    Ok(q)
}
/// The distance of two pointers into the same array, in elements.
pub fn ptr_diff(env: &Env, p: &Ptr, q: &Ptr) -> Option<T> {
    if p.base != q.base {
        return None;
    }
    let flat = |p: &Ptr| -> (Vec<Pj>, T) {
        let mut v = p.proj.clone();
        let mut t = int(0);
        if let Some(Pj::I(x)) = v.last().cloned() {
            t = x;
            v.pop();
        }
        (v, t)
    };
    let (a, x) = flat(p);
    let (b, y) = flat(q);
    if a != b {
        return None;
    }
    Some(env.norm(sub(x, y)))
}
/// Forget unreachable heap objects.
pub fn gc(st: &mut St) {
    let n = st.heap.len();
    if n == 0 {
        return;
    }
    let mut seen = vec![false; n];
    let mut work: Vec<u32> = vec![];
    fn scan(v: &V, work: &mut Vec<u32>) {
        match v {
            V::Ptr(p) => {
                if let Base::Heap(i) = p.base {
                    work.push(i);
                }
            }
            V::Agg(x) => x.iter().for_each(|y| scan(y, work)),
            V::En(_, m) => m.values().for_each(|x| x.iter().for_each(|y| scan(y, work))),
            V::Arr(a) => {
                for s in &a.segs {
                    match &s.k {
                        SK::List(l) => l.iter().for_each(|y| scan(y, work)),
                        SK::Fam(x) => scan(x, work),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    for f in &st.fr {
        for v in f.iter() {
            scan(v, &mut work);
        }
    }
    for v in st.regs.iter() {
        scan(v, &mut work);
    }
    while let Some(i) = work.pop() {
        if !seen[i as usize] {
            seen[i as usize] = true;
            scan(&st.heap[i as usize], &mut work);
        }
    }
    let last = seen.iter().rposition(|x| *x).map(|x| x + 1).unwrap_or(0);
    if last == n && (0..n).all(|i| seen[i] || st.heap[i] == V::Uninit) {
        return;
    }
    let h = Rc::make_mut(&mut st.heap);
    h.truncate(last);
    for i in 0..last {
        if !seen[i] {
            h[i] = V::Uninit;
        }
    }
}
pub fn show_v(v: &V) -> String {
    let cut = |s: String| if s.len() > 160 { format!("{}...", s.chars().take(160).collect::<String>()) } else { s };
    match v {
        V::Uninit => "?".into(),
        V::Int(t) => cut(show(*t)),
        V::Ptr(p) => {
            let pj: Vec<String> = p
                .proj
                .iter()
                .map(|j| match j {
                    Pj::F(i) => format!(".{}", i),
                    Pj::V(k, i) => format!("@{}.{}", k, i),
                    Pj::I(t) => format!("[{}]", show(*t)),
                })
                .collect();
            let m = match p.meta {
                Meta::Len(t) => format!("#{}", show(t)),
                Meta::Dyn(_) => "#dyn".into(),
                _ => String::new(),
            };
            cut(format!("&{:?}{}{}", p.base, pj.concat(), m))
        }
        V::Agg(x) => format!("({})", x.iter().map(show_v).collect::<Vec<_>>().join(", ")),
        V::En(t, m) => format!("<{}: {}>", show(*t), m.iter().map(|(k, x)| format!("{}({})", k, x.iter().map(show_v).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join("|")),
        V::Fn(k) => format!("fn{}", k),
        V::Arr(a) => format!("[len {}; {} segs]", show(a.len), a.segs.len()),
        V::IoErr(k, t) => format!("ioerr({}, {})", show(*k), show(*t)),
        V::Top => "T".into(),
    }
}
