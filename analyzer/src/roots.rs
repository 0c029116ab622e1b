//! Discovery of the functions of the crate, and root runs.
use crate::dump::callees;
use crate::interp::*;
use crate::mat::*;
use crate::num::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public::crate_def::CrateDefType;
use std::collections::{BTreeMap, BTreeSet};

/// Every local function instance reachable from a non-generic local item.
pub fn universe() -> Vec<Instance> {
    let mut seen = BTreeSet::new();
    let mut work = vec![];
    let mut out = vec![];
    for f in rustc_public::local_crate().fn_defs() {
        let TyKind::RigidTy(RigidTy::FnDef(d, a)) = f.ty().kind() else { continue };
        if a.0.iter().any(|x| !matches!(x, GenericArgKind::Lifetime(_))) {
            continue;
        }
        if let Ok(i) = Instance::resolve(d, &a) {
            if i.has_body() {
                work.push(i);
            }
        }
    }
    for item in rustc_public::all_local_items() {
        if let TyKind::RigidTy(RigidTy::FnDef(..)) = item.ty().kind() {
            if let Ok(i) = Instance::try_from(item) {
                if i.has_body() && !item.requires_monomorphization() {
                    work.push(i);
                }
            }
        }
    }
    while let Some(i) = work.pop() {
        if !seen.insert(i.name().to_string()) {
            continue;
        }
        if !is_local(&i) {
            continue;
        }
        if let Some(b) = i.body() {
            for c in callees(&b) {
                work.push(c)
            }
        }
        out.push(i);
    }
    out.sort_by_key(|i| i.name().to_string());
    out
}

pub fn arg_tys(i: &Instance) -> Vec<Ty> {
    match i.body() {
        Some(b) => b.arg_locals().iter().map(|l| l.ty).collect(),
        None => vec![],
    }
}

pub fn fresh_world() {
    reset_arena();
    reset_mat();
    clear_cache();
}

pub fn show_num(n: &Num) -> String {
    let mut c: Vec<String> = n.ge.iter().map(|l| format!("{l:?} >= 0")).collect();
    c.extend(n.ne.iter().map(|l| format!("{l:?} != 0")));
    c.join(" & ")
}

pub fn try_fn(pat: &str) {
    let show_states = std::env::var("STATES").is_ok();
    for i in universe() {
        let n = i.name().to_string();
        if !n.contains(pat) {
            continue;
        }
        fresh_world();
        if let Ok(p) = std::env::var("PIN") {
            for kv in p.split(',') {
                if let Some((k, v)) = kv.split_once('=') {
                    pin(k, v.parse().unwrap());
                }
            }
        }
        if let Ok(p) = std::env::var("BOUND") {
            for kv in p.split(',') {
                let x: Vec<&str> = kv.split(':').collect();
                assume_bounds(x[0], x[1].parse().ok(), x[2].parse().ok());
            }
        }
        if let Ok(p) = std::env::var("ASCII") {
            for kv in p.split(',') {
                if let Some((k, v)) = kv.split_once('=') {
                    set_ascii(k, v == "1");
                }
            }
        }
        let mut it = Interp::new();
        it.exact = std::env::var("EXACT").is_ok();
        it.trace = std::env::var("TRACE").is_ok();
        if let Ok(p) = std::env::var("PEEL") {
            it.peel = p.parse().unwrap();
        }
        let mut st = State::new();
        let tys = arg_tys(&i);
        let args: Vec<Val> = tys.iter().enumerate().map(|(k, t)| mat(&mut st, *t, &format!("a{k}"), &[])).collect();
        println!("== {n} {args:?}");
        let t0 = std::time::Instant::now();
        let rets = it.call(&i, args, st);
        println!("{} returns, {} steps, {:?}", rets.len(), it.steps, t0.elapsed());
        let maxr: usize = std::env::var("RETS").ok().and_then(|x| x.parse().ok()).unwrap_or(40);
        for (st, v) in rets.iter().take(maxr) {
            println!("  ret {} poison={:?}", show_val(v), st.poison);
            println!("      if {}", show_num(&st.num));
            if show_states {
                for (h, o) in &st.heap {
                    println!("      heap {h}: {o:?}");
                }
            }
        }
        let mut ev: BTreeMap<String, usize> = BTreeMap::new();
        for e in &it.events {
            let d = if e.verdict == Verdict::Proved { String::new() } else { format!(" @ {} :: {}", e.loc, e.detail) };
            *ev.entry(format!("{:?} {}{}", e.verdict, e.key, d)).or_default() += 1;
        }
        for (e, k) in ev {
            println!("  event {k}x {e}");
        }
        if std::env::var("UNK").is_ok() {
            for (u, k) in &it.unknown {
                println!("  unknown {k}x {u}");
            }
        }
        if it.overflow {
            println!("  OVERFLOW (gave up)");
        }
    }
}

pub fn show_val(v: &Val) -> String {
    match v {
        Val::Int(l) => format!("{l:?}"),
        Val::Agg(v) => format!("({})", v.iter().map(show_val).collect::<Vec<_>>().join(", ")),
        Val::Enum(d, m) => match d.is_const() {
            Some(k) => format!("#{k}({})", m.get(&(k as u32)).map_or(String::new(), |v| v.iter().map(show_val).collect::<Vec<_>>().join(", "))),
            None => format!("enum[{d:?}]{{{}}}", m.iter().map(|(k, v)| format!("#{k}({})", v.iter().map(show_val).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(" ")),
        },
        v => format!("{v:?}"),
    }
}
#[allow(dead_code)]
pub type Unused = BTreeMap<(), ()>;
