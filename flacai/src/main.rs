#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
mod effects;
mod eval;
mod interp;
mod mem;
mod nat;
mod term;
mod types;
mod val;
use interp::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::*;
use std::fmt::Write;
use std::ops::ControlFlow;

/// flacai <roots,comma separated> -- rustc args
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let roots: Vec<String> = args[1].split(',').map(|s| s.to_string()).collect();
    let mut rargs = vec!["flacai".to_string()];
    rargs.extend(args[2..].iter().cloned());
    let h = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(move || {
            let r = rustc_public::run!(&rargs, || -> ControlFlow<(), ()> {
                if roots[0] == "@effects" { effects_report() } else { analyse(&roots) }
                ControlFlow::Break(())
            });
            if matches!(r, Err(CompilerError::Failed | CompilerError::Skipped)) {
                eprintln!("the harness does not compile against this tree");
                std::process::exit(3);
            }
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(4);
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}
fn effects_report() {
    let r = effects::run();
    let evs: Vec<String> = r
        .sites
        .iter()
        .map(|(s, p)| {
            eprintln!("EVENT Effect in {} line {}: {}", s.func, s.line, s.what);
            format!(
                "{{\"kind\": \"Effect\", \"func\": {}, \"line\": {}, \"msg\": {}, \"root\": \"@effects\", \"confirmed\": true, \"witness\": [], \"path\": {}}}",
                js(&s.func),
                s.line,
                js(&s.what),
                jl(&p.iter().map(|x| format!("called from {}", x)).collect::<Vec<_>>())
            )
        })
        .collect();
    eprintln!("{} functions, {} call sites, openers {:?}", r.funcs.len(), r.calls, r.openers);
    if let Ok(p) = std::env::var("FLACAI_OUT") {
        let j = format!(
            "{{\"roots\": [{{\"root\": \"@effects\", \"functions\": {}, \"functions_which_open_files\": {}}}], \"events\": [{}], \"inconclusive\": [], \"functions\": {}, \"function_count\": {}, \"calls\": {}, \"statements\": 0, \"obligations\": {}, \"checks\": {}, \"splits\": 0, \"loops\": [], \"summarised\": [], \"checks_by\": {{}}}}",
            r.funcs.len(),
            jl(&r.openers),
            evs.join(", "),
            jl(&r.funcs),
            r.funcs.len(),
            r.calls,
            r.calls,
            r.calls
        );
        std::fs::write(p, j).unwrap();
    }
}
/// Functions of the crate under analysis which a stub may stand for.
const STUBS: &[(&str, &str, &str)] = &[
    ("bits", "Bitstream::<R>::read_bit", "stub_read_bit"),
    ("bits", "Bitstream::<R>::read_unary", "stub_read_unary"),
    ("bits", "Bitstream::<R>::read_leq_u8", "stub_read_leq_u8"),
    ("bits", "Bitstream::<R>::read_gt_u8_leq_u16", "stub_read_gt_u8_leq_u16"),
    ("bits", "Bitstream::<R>::read_leq_u16", "stub_read_leq_u16"),
    ("bits", "Bitstream::<R>::read_leq_u32", "stub_read_leq_u32"),
    ("utf8", "str::from_utf8", "stub_from_utf8"),
    ("utf8", "String::from_utf8_lossy", "stub_from_utf8_lossy"),
    ("utf8u", "str::from_utf8_unchecked", "stub_from_utf8_unchecked"),
    ("utf8u", "String::from_utf8_unchecked", "stub_string_unchecked"),
    ("case", "<impl str>::to_lowercase", "stub_to_lowercase"),
    ("case", "<impl str>::to_uppercase", "stub_to_uppercase"),
    ("sub_fill", "claxon::subframe::decode", "stub_subframe_fill"),
    ("sub_record", "claxon::subframe::decode", "stub_subframe_record"),
    ("sub_any", "claxon::subframe::decode", "stub_subframe_any"),
    ("fmt", "std::fmt::Formatter::<'a>::write_str", "stub_write_str"),
    ("file", "std::fs::File::open", "stub_file_open"),
    ("file", "std::fs::OpenOptions::open", "stub_options_open"),
    ("file", "<std::fs::File as std::io::Read>::read", "stub_file_read"),
];

fn analyse(roots: &[String]) {
    let mut ip = Interp::new();
    if let Ok(s) = std::env::var("FLACAI_SECS") {
        ip.deadline = std::time::Instant::now() + std::time::Duration::from_secs(s.parse().unwrap());
    }
    term::set_deadline(ip.deadline);
    let items: Vec<(String, CrateItem)> = all_local_items().into_iter().map(|i| (i.name().to_string(), i)).collect();
    for (group, def, name) in STUBS {
        for (n, it) in &items {
            if n.rsplit("::").next() == Some(*name) {
                if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = it.ty().kind() {
                    ip.stubs.push((group.to_string(), def.to_string(), d));
                }
            }
        }
    }
    if let Some(c) = find_crates("claxon").first() {
        // a summary stands for a function only if there is such a function, of the same type
        let defs: Vec<_> = c.fn_defs();
        for (group, def, d) in &ip.stubs {
            if matches!(group.as_str(), "utf8" | "utf8u" | "case" | "file" | "fmt") {
                continue;
            }
            let real = defs.iter().find(|x| { let n = x.name(); n == *def || n.strip_suffix(def.as_str()).map_or(false, |p| p.ends_with("::")) });
            if real.map_or(true, |r| effects::signature(r) != effects::signature(d)) {
                eprintln!("no summary of {}: {:?} {:?}", def, real.map(effects::signature), effects::signature(d));
                ip.nostub.push(group.clone());
            }
        }
        // and only if nothing else looks at what it would have changed
        // (a helper of theirs may)
        let callers = effects::callers(c);
        let stood = |u: &str| ip.stubs.iter().any(|(g, d, _)| g == "bits" && u.ends_with(d.as_str()));
        let users = effects::users(c, "input::Bitstream");
        let mut helpers: Vec<&String> = users.iter().filter(|u| !stood(u)).collect();
        loop {
            let n = helpers.len();
            let bad: Vec<&String> = helpers.iter().filter(|h| callers.get(**h).map_or(true, |v| !v.iter().all(|x| stood(x) || helpers.contains(&x)))).cloned().collect();
            helpers.retain(|h| !bad.contains(h));
            if helpers.len() == n { break; }
        }
        for u in &users {
            if !stood(u) && !helpers.contains(&u) {
                eprintln!("no summaries of the bit reader: {} uses its fields", u);
                ip.nostub.push("bits".into());
            }
        }
    }
    let mut per_root = vec![];
    for (n, it) in &items {
        let last = n.rsplit("::").next().unwrap();
        if let Some(r) = last.strip_prefix("root_") {
            if !roots.iter().any(|x| x == r || (x.ends_with('*') && r.starts_with(&x[..x.len() - 1]))) {
                continue;
            }
            if roots[0] == "*" && roots.len() == 2 {
                println!("{}", r);
                continue;
            }
            let inst = Instance::try_from(*it).unwrap();
            let t = std::time::Instant::now();
            let (c0, o0) = (ip.stats.checks, ip.stats.obligations);
            let Callee::Body(f) = ip.callee(&inst) else { panic!() };
            let out = ip.exec_fn(&f, mem::St::new(), vec![]);
            eprintln!("root {}: {} final states, {} checks, {} obligations, {:?}", r, out.len(), ip.stats.checks - c0, ip.stats.obligations - o0, t.elapsed());
            per_root.push(format!(
                "{{\"root\": {}, \"final_states\": {}, \"checks\": {}, \"obligations\": {}, \"secs\": {:.2}}}",
                js(r),
                out.len(),
                ip.stats.checks - c0,
                ip.stats.obligations - o0,
                t.elapsed().as_secs_f64()
            ));
        }
    }
    // the same construct is reported once
    let mut keys: Vec<(EvK, String, String)> = vec![];
    let mut evs = vec![];
    for e in &ip.events {
        let k = (e.kind, e.func.clone(), e.msg.clone());
        if !keys.contains(&k) {
            keys.push(k);
        }
    }
    let total = std::time::Instant::now();
    let found = ip.found;
    for k in keys {
        let mut es: Vec<Ev> = vec![];
        let mut i = 0;
        while i < ip.events.len() {
            let e = &ip.events[i];
            if (e.kind, &e.func, &e.msg) == (k.0, &k.1, &k.2) {
                es.push(ip.events.remove(i));
            } else {
                i += 1;
            }
        }
        let mut done = es.iter().position(|e| e.asg.is_some());
        let n = es.len() as u64;
        if done.is_none() && !found {
            for (i, e) in es.iter_mut().enumerate() {
                let left = 60000u64.saturating_sub(total.elapsed().as_millis() as u64);
                if let Some(a) = eval::concretise(&e.st.hist, &[], (20000 / n + 1000).min(left)) {
                    e.asg = Some(a);
                    done = Some(i);
                    break;
                }
            }
        }
        let ok = done.is_some();
        let e = &es[done.unwrap_or(es.len() - 1)];
        eprintln!("EVENT {:?} in {} line {}: {} ({})", e.kind, e.func, e.site, e.msg, if ok { "confirmed" } else { "no concrete input found" });
        for p in ev_path(e).iter().take(6) {
            eprintln!("     {}", p);
        }
        eprintln!("   with {}", e.asg.as_ref().map(eval::show_asg).unwrap_or_default().join(", "));
        evs.push(ev_json(e, &e.asg));
    }
    for (k, v) in &ip.fail_notes {
        eprintln!("INCONCLUSIVE x{} {}", v, k);
    }
    if let Ok(p) = std::env::var("FLACAI_OUT") {
        let s = &ip.stats;
        let claxon: Vec<String> = s.funcs.keys().filter(|k| k.contains("claxon::") && !k.starts_with("core::") && !k.starts_with("std::") && !k.starts_with("alloc::")).cloned().collect();
        let j = format!(
            "{{\"roots\": [{}],\n\"events\": [{}],\n\"inconclusive\": {},\n\"functions\": {},\n\"function_count\": {}, \"calls\": {}, \"statements\": {}, \"obligations\": {}, \"checks\": {}, \"splits\": {}, \"loops\": {}, \"summarised\": {},\n\"checks_by\": {{{}}}}}",
            per_root.join(", "),
            evs.join(",\n"),
            jl(&ip.fail_notes.iter().map(|(k, v)| format!("x{} {}", v, k)).collect::<Vec<_>>()),
            jl(&claxon),
            s.funcs.len(),
            s.calls,
            s.stmts,
            s.obligations,
            s.checks,
            s.splits,
            jl(&s.loops.iter().filter(|l| l.contains("claxon::")).cloned().collect::<Vec<_>>()),
            jl(&s.summarised.iter().map(|(k, v)| format!("{} x{}", k, v)).collect::<Vec<_>>()),
            s.checks_by.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
        );
        std::fs::write(p, j).unwrap();
    }
}
fn ev_path(e: &Ev) -> Vec<String> {
    path_of(&e.st).iter().rev().take(12).map(|(c, w)| format!("{} = {}", cut(&term::show(*c)), w)).collect()
}
pub fn ev_json(e: &Ev, a: &Option<eval::Asg>) -> String {
    format!(
        "{{\"kind\": {}, \"func\": {}, \"line\": {}, \"msg\": {}, \"root\": {}, \"confirmed\": {}, \"witness\": {}, \"path\": {}}}",
        js(&format!("{:?}", e.kind)),
        js(&e.func),
        js(&e.site),
        js(&e.msg),
        js(&e.root),
        a.is_some(),
        jl(&a.as_ref().map(eval::show_asg).unwrap_or_default()),
        jl(&ev_path(e))
    )
}
fn cut(s: &str) -> String {
    if s.len() > 300 { format!("{}...", s.chars().take(300).collect::<String>()) } else { s.to_string() }
}
fn path_of(st: &mem::St) -> Vec<(term::T, bool)> {
    let mut v = vec![];
    let mut p = st.path.clone();
    while let Some(n) = p {
        v.push((n.c, n.want));
        p = n.parent.clone();
    }
    v.reverse();
    v
}
