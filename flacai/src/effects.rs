//! Effects: what the functions of a crate may touch besides their arguments.
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::{BTreeMap, BTreeSet};

/// Functions of the standard library outside core and alloc which touch the world, by prefix of their path.
const WORLD: &[(&str, &str)] = &[
    ("std::net::", "the network"),
    ("std::env::", "the environment"),
    ("std::time::Instant", "the clock"),
    ("std::time::SystemTime", "the clock"),
    ("std::thread::", "threads"),
    ("std::process::", "processes"),
    ("std::os::", "the operating system"),
    ("std::sys::", "the operating system"),
    ("std::backtrace::", "the environment"),
    ("std::panic::set_hook", "mutable global state"),
    ("std::panic::take_hook", "mutable global state"),
    ("std::alloc::set_alloc_error_hook", "mutable global state"),
    ("std::io::_print", "the standard output"),
    ("std::io::_eprint", "the standard error"),
    ("std::io::stdout", "the standard output"),
    ("std::io::stderr", "the standard error"),
    ("std::io::stdin", "the standard input"),
    ("std::io::stdio::", "the standard streams"),
    ("std::io::Stdin", "the standard input"),
    ("std::io::Stdout", "the standard output"),
    ("std::io::Stderr", "the standard error"),
    ("std::sync::mpsc::", "threads"),
    ("std::path::absolute", "the environment"),
    ("std::io::Error::last_os_error", "the operating system"),
    ("std::io::copy::sendfile", "the operating system"),
    ("std::hash::RandomState", "random numbers"),
    ("std::hash::random::RandomState", "random numbers"),
    ("std::collections::hash_map::RandomState", "random numbers"),
    ("core::arch::", "the processor's state"),
    ("std::arch::", "the processor's state"),
    ("core::fmt::Pointer", "addresses"),
    ("std::fmt::Pointer", "addresses"),
    ("core::fmt::rt::Argument::<'_>::new_pointer", "addresses"),
];
/// What opening a file for reading needs nothing of.
const WRITES: &[&str] = &["create", "create_new", "write", "append", "truncate", "remove_file", "remove_dir", "remove_dir_all", "rename", "copy", "hard_link", "soft_link", "set_permissions", "set_len", "set_times", "set_modified", "create_dir", "create_dir_all", "sync_all", "sync_data", "lock", "try_lock"];

pub struct Site {
    pub func: String,
    pub line: usize,
    pub what: String,
}
struct V<'a> {
    func: String,
    body: &'a Body,
    calls: BTreeMap<String, usize>,
    sites: Vec<(usize, String, bool)>,
    n: usize,
    once: Vec<(usize, String)>,
}
fn line(s: &rustc_public::ty::Span) -> usize {
    s.get_lines().start_line
}
fn cells(t: Ty, depth: u32, seen: &mut Vec<Ty>) -> bool {
    if depth > 12 || seen.contains(&t) {
        return false;
    }
    seen.push(t);
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            if d.name().ends_with("UnsafeCell") {
                return true;
            }
            d.variants_iter().any(|v| v.fields().iter().any(|f| cells(f.ty_with_args(&a), depth + 1, seen)))
        }
        TyKind::RigidTy(RigidTy::Tuple(v)) => v.iter().any(|x| cells(*x, depth + 1, seen)),
        TyKind::RigidTy(RigidTy::Array(x, _)) | TyKind::RigidTy(RigidTy::Slice(x)) => cells(x, depth + 1, seen),
        TyKind::RigidTy(RigidTy::Ref(_, x, _)) => cells(x, depth + 1, seen),
        TyKind::RigidTy(RigidTy::Dynamic(..)) | TyKind::RigidTy(RigidTy::RawPtr(..)) => false,
        _ => false,
    }
}
fn adt(t: Ty) -> Option<String> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => Some(d.name()),
        TyKind::RigidTy(RigidTy::Ref(_, x, _)) => adt(x),
        _ => None,
    }
}
fn mentions(t: Ty, f: &dyn Fn(&str) -> bool) -> bool {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => f(&d.name()) || a.0.iter().any(|x| matches!(x, GenericArgKind::Type(t) if mentions(*t, f))),
        TyKind::RigidTy(RigidTy::Ref(_, x, _)) | TyKind::RigidTy(RigidTy::RawPtr(x, _)) | TyKind::RigidTy(RigidTy::Slice(x)) | TyKind::RigidTy(RigidTy::Array(x, _)) => mentions(x, f),
        TyKind::RigidTy(RigidTy::Tuple(v)) => v.iter().any(|x| mentions(*x, f)),
        _ => false,
    }
}
impl<'a> V<'a> {
    fn def(&mut self, d: FnDef, a: &GenericArgs, ln: usize) {
        let name = d.name();
        let krate = d.krate().name;
        self.n += 1;
        if krate == "claxon" {
            self.calls.entry(name).or_insert(ln);
            return;
        }
        let plain = name.trim_start_matches(|c| c == '<' || c == '&');
        for (p, w) in WORLD {
            if !w.is_empty() && (name.starts_with(p) || plain.starts_with(p)) {
                self.sites.push((ln, format!("{} is accessed through {}", w, name), false));
                return;
            }
        }
        if name.starts_with("std::fs::") || plain.starts_with("std::fs::") {
            let last = name.rsplit("::").next().unwrap();
            let w = WRITES.contains(&last);
            self.sites.push((ln, format!("{} through {}", if w { "files are changed" } else { "files are accessed" }, name), !w));
            return;
        }
        if name.starts_with("std::io::Write::") {
            let world = |t: &str| t.starts_with("std::fs::") || t.starts_with("std::net::") || t.starts_with("std::io::Std") || t.starts_with("std::io::stdio");
            if a.0.iter().any(|x| matches!(x, GenericArgKind::Type(t) if mentions(*t, &world))) {
                self.sites.push((ln, format!("files are changed through {}", name), false));
            }
        }
        // path methods which look at the file system
        if name.starts_with("std::path::") {
            let last = name.rsplit("::").next().unwrap();
            if ["exists", "is_file", "is_dir", "metadata", "canonicalize", "read_dir", "read_link", "symlink_metadata", "try_exists", "is_symlink"].contains(&last) {
                self.sites.push((ln, format!("files are accessed through {}", name), true));
            }
        }
        if name.starts_with("core::ptr::") && ["addr", "expose_provenance", "bare_addr"].contains(&name.rsplit("::").next().unwrap()) {
            self.sites.push((ln, format!("an address is turned into a number through {}", name), false));
        }
        if name.ends_with("Error::last_os_error") {
            self.sites.push((ln, format!("the operating system is accessed through {}", name), false));
        }
        // the order of a hash table's entries is not determined
        let hash = |t: &str| t.ends_with("RandomState");
        let last = name.rsplit("::").next().unwrap();
        let over = a.0.iter().any(|x| matches!(x, GenericArgKind::Type(t) if mentions(*t, &hash)));
        if over && ["iter", "iter_mut", "keys", "values", "values_mut", "drain", "retain", "into_iter", "into_keys", "into_values"].contains(&last) {
            self.sites.push((ln, format!("the result depends on the random order of a hash table: {}", name), false));
        }
        if name.contains("OnceLock") || name.contains("OnceCell") {
            let stateless = last == "get" || last == "new" || last == "get_or_init" && a.0.iter().all(|x| match x {
                GenericArgKind::Type(t) => match t.kind() {
                    TyKind::RigidTy(RigidTy::Closure(_, c)) => match c.0.last() {
                        Some(GenericArgKind::Type(u)) => matches!(u.kind(), TyKind::RigidTy(RigidTy::Tuple(v)) if v.is_empty()),
                        _ => true,
                    },
                    _ => true,
                },
                _ => true,
            });
            if !stateless {
                self.once.push((ln, name));
            }
        }
    }
    fn ty(&mut self, t: Ty, ln: usize) {
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            self.def(d, &a, ln);
        }
    }
}
impl<'a> MirVisitor for V<'a> {
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        let ln = line(&c.span);
        self.ty(c.const_.ty(), ln);
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            for (_, p) in &a.provenance.ptrs {
                if let GlobalAlloc::Static(s) = GlobalAlloc::from(p.0) {
                    let t = s.ty();
                    let raw = matches!(c.const_.ty().kind(), TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)));
                    if raw {
                        self.sites.push((ln, format!("mutable global state: static mut {}", s.name()), false));
                    } else if cells(t, 0, &mut vec![]) {
                        let n = adt(t).unwrap_or_default();
                        if n.ends_with("LazyLock") {
                        } else if n.ends_with("OnceLock") {
                            self.once.push((0, s.name()));
                        } else {
                            self.sites.push((ln, format!("mutable global state: static {} of type {}", s.name(), n), false));
                        }
                    }
                }
            }
        }
        self.super_const_operand(c, l)
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        let ln = line(&l.span());
        match r {
            Rvalue::ThreadLocalRef(_) => self.sites.push((ln, "mutable global state: a thread-local variable".into(), false)),
            Rvalue::Cast(CastKind::PointerExposeAddress, ..) => self.sites.push((ln, "an address is turned into a number".into(), false)),
            Rvalue::Cast(CastKind::Transmute, o, t) => {
                let from = o.ty(self.body.locals());
                let ptr = |t: Ty| matches!(t.kind(), TyKind::RigidTy(RigidTy::RawPtr(..)) | TyKind::RigidTy(RigidTy::Ref(..)));
                let num = |t: Ty| matches!(t.kind(), TyKind::RigidTy(RigidTy::Uint(_)) | TyKind::RigidTy(RigidTy::Int(_)));
                if from.map_or(false, ptr) && num(*t) {
                    self.sites.push((ln, "an address is turned into a number".into(), false));
                }
            }
            _ => {}
        }
        self.super_rvalue(r, l)
    }
    fn visit_terminator(&mut self, t: &Terminator, l: Location) {
        if let TerminatorKind::InlineAsm { .. } = &t.kind {
            self.sites.push((line(&l.span()), "assembly code".into(), false));
        }
        self.super_terminator(t, l)
    }
}
pub struct Report {
    pub sites: Vec<(Site, Vec<String>)>,
    pub funcs: Vec<String>,
    pub calls: usize,
    pub openers: Vec<String>,
}
pub fn run() -> Report {
    let items = all_local_items();
    let mut calls: BTreeMap<String, BTreeMap<String, usize>> = BTreeMap::new();
    let mut callers: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut found: Vec<(Site, bool)> = vec![];
    let mut openers = BTreeSet::new();
    let mut n = 0;
    let mut once: Vec<(String, usize, String)> = vec![];
    let mut foreign = BTreeSet::new();
    for m in local_crate().foreign_modules() {
        for it in m.module().items() {
            foreign.insert(it.name());
        }
    }
    for it in &items {
        let Some(body) = it.body() else { continue };
        let name = it.name();
        let mut v = V { func: name.clone(), body: &body, calls: BTreeMap::new(), sites: vec![], n: 0, once: vec![] };
        v.visit_body(&body);
        n += v.n;
        let file = |s: &str| s.ends_with("fs::File") || s.ends_with("path::Path") || s.ends_with("path::PathBuf");
        if mentions(body.ret_local().ty, &file) || body.arg_locals().iter().any(|l| mentions(l.ty, &file)) {
            openers.insert(name.clone());
        }
        for (ln, what, reads) in v.sites {
            found.push((Site { func: name.clone(), line: ln, what }, reads));
        }
        for (ln, what) in v.once {
            once.push((name.clone(), ln, what));
        }
        for (c, ln) in &v.calls {
            if foreign.contains(c) {
                found.push((Site { func: name.clone(), line: *ln, what: format!("the foreign function {} is called", c) }, false));
            }
            callers.entry(c.clone()).or_default().insert(name.clone());
        }
        // closures are created where they stand
        if let Some(i) = name.find("::{closure") {
            callers.entry(name.clone()).or_default().insert(name[..i].to_string());
        }
        calls.insert(name, v.calls);
    }
    // a cell which is written once matters if what is written may differ
    if once.iter().any(|x| x.1 == 0) {
        for (func, ln, what) in once.iter().filter(|x| x.1 != 0) {
            found.push((Site { func: func.clone(), line: *ln, what: format!("mutable global state: {}", what) }, false));
        }
    }
    let ok = |f: &str| -> Option<Vec<String>> {
        // a chain of callers which does not pass through a function which opens a file, if there is one
        let mut work = vec![vec![f.to_string()]];
        let mut seen = BTreeSet::new();
        while let Some(p) = work.pop() {
            let l = p.last().unwrap().clone();
            if openers.contains(&l) || !seen.insert(l.clone()) {
                continue;
            }
            match callers.get(&l) {
                Some(c) if !c.is_empty() => {
                    for x in c {
                        let mut q = p.clone();
                        q.push(x.clone());
                        work.push(q);
                    }
                }
                _ => return Some(p),
            }
        }
        None
    };
    let chain = |f: &str| -> Vec<String> {
        let mut p = vec![f.to_string()];
        while let Some(c) = callers.get(p.last().unwrap()).and_then(|c| c.iter().find(|x| !p.contains(x))) {
            p.push(c.clone());
            if p.len() > 12 {
                break;
            }
        }
        p
    };
    let mut sites = vec![];
    for (s, reads) in found {
        if reads {
            if let Some(p) = ok(&s.func) {
                sites.push((s, p));
            }
        } else {
            let p = chain(&s.func);
            sites.push((s, p));
        }
    }
    Report { sites, funcs: calls.keys().cloned().collect(), calls: n, openers: openers.into_iter().collect() }
}
struct Fields<'a> {
    locals: &'a [LocalDecl],
    ty: &'a str,
    hit: bool,
}
impl<'a> MirVisitor for Fields<'a> {
    fn visit_place(&mut self, p: &Place, c: visit::PlaceContext, l: Location) {
        for (i, e) in p.projection.iter().enumerate() {
            if let ProjectionElem::Field(..) = e {
                let q = Place { local: p.local, projection: p.projection[..i].to_vec() };
                if let Ok(t) = q.ty(self.locals) {
                    if adt(t).map_or(false, |n| n.ends_with(self.ty)) {
                        self.hit = true;
                    }
                }
            }
        }
        self.super_place(p, c, l)
    }
}
struct Names {
    seen: Vec<FnDef>,
}
impl MirVisitor for Names {
    fn visit_ty(&mut self, t: &Ty, l: Location) {
        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = t.kind() {
            self.seen.push(d);
        }
        self.super_ty(t)
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = c.const_.ty().kind() {
            self.seen.push(d);
        }
        self.super_const_operand(c, l)
    }
}
/// For every function of a crate, the functions whose bodies name it.
pub fn callers(krate: &Crate) -> std::collections::BTreeMap<String, Vec<String>> {
    let mut m = std::collections::BTreeMap::<String, Vec<String>>::new();
    for d in krate.fn_defs() {
        if let Some(b) = d.body() {
            let mut f = Names { seen: vec![] };
            f.visit_body(&b);
            for x in f.seen {
                m.entry(x.name()).or_default().push(d.name());
            }
        }
    }
    m
}
/// Functions of a crate whose bodies use fields of a type.
pub fn users(krate: &Crate, ty: &str) -> Vec<String> {
    let mut v = vec![];
    for d in krate.fn_defs() {
        if let Some(b) = d.body() {
            let mut f = Fields { locals: b.locals(), ty, hit: false };
            f.visit_body(&b);
            if f.hit {
                v.push(d.name());
            }
        }
    }
    v
}
fn plain(t: Ty) -> String {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, x, m)) => format!("&{:?} {}", m, plain(x)),
        TyKind::RigidTy(RigidTy::Slice(x)) => format!("[{}]", plain(x)),
        TyKind::RigidTy(RigidTy::Tuple(v)) => format!("({})", v.iter().map(|x| plain(*x)).collect::<Vec<_>>().join(",")),
        TyKind::RigidTy(RigidTy::Adt(d, a)) => format!("{}<{}>", d.name(), a.0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(plain(*t)) } else { None }).collect::<Vec<_>>().join(",")),
        TyKind::Param(p) => format!("#{}", p.index),
        k => format!("{:?}", k),
    }
}
/// The types of a function's parameters and of its result.
pub fn signature(d: &FnDef) -> Vec<String> {
    d.fn_sig().value.inputs_and_output.iter().map(|t| plain(*t)).collect()
}
