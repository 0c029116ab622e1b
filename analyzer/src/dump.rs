use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, crate_def::CrateDefType};
use std::collections::BTreeSet;

/// every function instance a body mentions: called, passed as a value, or a closure it builds
pub fn callees(body: &Body) -> Vec<Instance> {
    let mut v = vec![];
    let mut seen = BTreeSet::new();
    for b in &body.blocks {
        if let TerminatorKind::Call { func, .. } = &b.terminator.kind {
            if let Ok(t) = func.ty(body.locals()) {
                mention(t, &mut v, &mut seen, 0);
            }
        }
        for s in &b.statements {
            if let StatementKind::Assign(_, r) = &s.kind {
                if let Ok(t) = r.ty(body.locals()) {
                    mention(t, &mut v, &mut seen, 0);
                }
                if let Rvalue::Cast(_, o, _) = r {
                    if let Ok(t) = o.ty(body.locals()) {
                        mention(t, &mut v, &mut seen, 0);
                    }
                }
            }
        }
    }
    for l in body.locals() {
        mention(l.ty, &mut v, &mut seen, 0);
    }
    v
}
fn mention(t: Ty, v: &mut Vec<Instance>, seen: &mut BTreeSet<String>, depth: usize) {
    if depth > 12 || !seen.insert(format!("{t:?}")) {
        return;
    }
    let mut args = |a: &GenericArgs, v: &mut Vec<Instance>, seen: &mut BTreeSet<String>| {
        for x in &a.0 {
            if let GenericArgKind::Type(t) = x {
                mention(*t, v, seen, depth + 1);
            }
        }
    };
    match t.kind() {
        TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
            if let Ok(i) = Instance::resolve(d, &a) {
                v.push(i);
            }
            args(&a, v, seen);
        }
        TyKind::RigidTy(RigidTy::Closure(d, a)) => {
            if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                v.push(i);
            }
            if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnMut) {
                v.push(i);
            }
            args(&a, v, seen);
        }
        TyKind::RigidTy(RigidTy::Adt(_, a)) => args(&a, v, seen),
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) | TyKind::RigidTy(RigidTy::Slice(t)) => mention(t, v, seen, depth + 1),
        TyKind::RigidTy(RigidTy::Tuple(ts)) => {
            for t in ts {
                mention(t, v, seen, depth + 1);
            }
        }
        _ => {}
    }
}

pub fn dump() {
    let krate = rustc_public::local_crate();
    let mut seen = BTreeSet::new();
    let mut work = vec![];
    for f in krate.fn_defs() {
        let TyKind::RigidTy(RigidTy::FnDef(d, a)) = f.ty().kind() else { continue };
        if a.0.iter().any(|x| !matches!(x, GenericArgKind::Lifetime(_))) { println!("GEN {}", f.name()); continue }
        if let Ok(i) = Instance::resolve(d, &a) {
            let n = i.name().to_string();
            println!("FN {n} {}", f.fn_sig().skip_binder().inputs().len());
        }
    }
    for ti in rustc_public::local_crate().trait_impls() {
        println!("IMPL {}", ti.name());
    }
    for item in rustc_public::all_local_items() {
        if let Ok(i) = Instance::try_from(item) { if i.has_body() && !item.requires_monomorphization() { work.push(i); } }
    }
    let depth: usize = std::env::var("DEPTH").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut work: Vec<_> = work.into_iter().map(|w| (w, 0)).collect();
    while let Some((i, d)) = work.pop() {
        let name = i.name().to_string();
        if !seen.insert(name.clone()) { continue }
        let local = i.def.krate().is_local;
        if !local && d >= depth { println!("EXT {name} kind={:?} body={}", i.kind, i.has_body()); continue }
        if !local { println!("EXT! {name} kind={:?} body={}", i.kind, i.has_body()); }
        if let Some(b) = i.body() {
            for c in callees(&b) { work.push((c, if local {0} else {d+1})) }
            for (_, c) in closures(&b) { let _ = c; }
        }
    }
}
fn closures(_b: &Body) -> Vec<((), ())> { vec![] }

/// every body of the crate as text, by name: functions and the initialisers of constants and statics
pub fn bodies() -> String {
    let mut out = std::collections::BTreeMap::new();
    let mut add = |name: String, b: &Body| {
        let mut t = vec![];
        let _ = b.dump(&mut t, &name);
        out.insert(name, String::from_utf8_lossy(&t).to_string());
    };
    for i in crate::roots::universe() {
        if let Some(b) = i.body() {
            add(i.name().to_string(), &b);
        }
    }
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) && item.has_body() && !item.requires_monomorphization() {
            add(item.name().to_string(), &item.expect_body());
        }
    }
    let rows: Vec<String> = out.iter().map(|(k, v)| format!("{}:{}", crate::report::q(k), crate::report::q(v))).collect();
    format!("{{{}}}", rows.join(","))
}
