//! What the crate touches besides its arguments: statics that can change, the
//! outside world, foreign code. Decided on every body reachable in the crate.
use crate::anchors::*;
use crate::interp::*;
use crate::mat::*;
use crate::report::*;
use crate::roots::universe;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::*;
use rustc_public::mir::visit::*;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::BTreeSet;

pub const STATICS: &str = "no global or thread-local state that can change is used";
pub const CALLS: &str = "nothing outside core, alloc and memchr is called that reaches beyond the arguments";

/// whether a value of this type can be changed through a shared reference
pub fn changeable(t: Ty, seen: &mut BTreeSet<String>) -> bool {
    if !seen.insert(format!("{t:?}")) {
        return false;
    }
    match rigid(t) {
        Some(RigidTy::Adt(d, a)) => {
            if adt_last(t) == "UnsafeCell" {
                return true;
            }
            if adt_last(t) == "PhantomData" {
                return false;
            }
            a.0.iter().filter_map(|g| g.ty()).any(|t| changeable(*t, seen))
                || (0..d.num_variants()).any(|v| field_tys(t, v).iter().any(|(_, f)| changeable(*f, seen)))
        }
        Some(RigidTy::Array(e, _)) | Some(RigidTy::Slice(e)) | Some(RigidTy::Ref(_, e, _)) | Some(RigidTy::RawPtr(e, _)) => changeable(e, seen),
        Some(RigidTy::Tuple(v)) => v.iter().any(|t| changeable(*t, seen)),
        _ => false,
    }
}
/// computed once and the same ever after
fn lazy(t: Ty) -> bool {
    ["OnceLock", "LazyLock", "OnceCell", "LazyCell"].contains(&&*adt_last(t))
}

enum Say {
    Fine,
    Bad(String),
    Unsure(String),
}
struct Look<'a> {
    body: &'a Body,
    found: Vec<(&'static str, String, Say, String)>,
}
impl Look<'_> {
    fn say(&mut self, rule: &'static str, what: String, s: Say, at: &Span) {
        self.found.push((rule, what, s, Interp::loc_of(at)));
    }
    /// a function that is mentioned: called, or its address taken
    fn function(&mut self, d: FnDef, a: &GenericArgs, at: &Span) {
        let (krate, path) = match Instance::resolve(d, a) {
            Ok(i) => (i.def.krate().name.to_string(), i.name().to_string()),
            Err(_) => (d.krate().name.to_string(), d.name().to_string()),
        };
        let local = d.krate().is_local || Instance::resolve(d, a).is_ok_and(|i| i.def.krate().is_local);
        let name = d.name().to_string();
        let has = |m: &str| name.contains(m) || path.contains(m);
        let bodiless = Instance::resolve(d, a).is_ok_and(|i| i.def.krate().is_local && matches!(i.kind, InstanceKind::Item) && !i.has_body());
        let s = if bodiless {
            Say::Bad("foreign code".into())
        } else if local {
            Say::Fine
        } else if krate == "std" || d.krate().name == "std" {
            let world = ["std::io::", "std::fs::", "std::env::", "std::time::", "std::thread::", "std::net::", "std::process::", "std::os::", "RandomState"];
            match world.iter().find(|m| has(m)) {
                Some(m) => Say::Bad(m.trim_end_matches("::").into()),
                // what the first call computes from its own data stays for all later ones
                None if has("get_or_init") && a.0.iter().filter_map(|g| g.ty()).any(|t| matches!(rigid(*t), Some(RigidTy::Closure(..))) && size_of(*t) > 0) => {
                    Say::Bad("a value that outlives the call it was computed in".into())
                }
                None if has("std::collections::") || has("std::sync::") || has("std::hash::") => Say::Unsure("state or order the analysis does not follow".into()),
                None => Say::Fine,
            }
        } else if ["core", "alloc", "memchr"].contains(&&*krate) {
            if has("sync::atomic::") {
                // only as dangerous as the static it works on
                Say::Fine
            } else if has("_rdtsc") || has("_rdrand") {
                Say::Bad("the processor's clock or random numbers".into())
            } else {
                Say::Fine
            }
        } else {
            Say::Unsure(format!("crate {krate}"))
        };
        self.say(CALLS, path, s, at);
    }
}
impl MirVisitor for Look<'_> {
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            let unchecked: Vec<_> = a.provenance.ptrs.iter().map(|p| p.1 .0).collect();
            for id in unchecked {
                if let GlobalAlloc::Static(s) = GlobalAlloc::from(id) {
                    let name = s.name().to_string();
                    let raw_mut = matches!(rigid(c.const_.ty()), Some(RigidTy::RawPtr(_, Mutability::Mut)));
                    let t = s.ty();
                    let say = if raw_mut {
                        Say::Bad("a static mut".into())
                    } else if lazy(t) {
                        Say::Unsure("computed on first use".into())
                    } else if changeable(t, &mut BTreeSet::new()) {
                        Say::Bad("a static that can change".into())
                    } else {
                        Say::Fine
                    };
                    self.say(STATICS, name, say, &c.span);
                }
            }
        }
        self.super_const_operand(c, l)
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        if let Rvalue::ThreadLocalRef(i) = r {
            self.say(STATICS, i.name().to_string(), Say::Bad("thread-local state".into()), &l.span());
        }
        let t = r.ty(self.body.locals()).ok();
        if let (Rvalue::Cast(_, o, _), _) = (r, t) {
            if let Some(TyKind::RigidTy(RigidTy::FnDef(d, a))) = o.ty(self.body.locals()).ok().map(|t| t.kind()) {
                self.function(d, &a, &l.span());
            }
        }
        self.super_rvalue(r, l)
    }
    fn visit_terminator(&mut self, t: &Terminator, l: Location) {
        match &t.kind {
            TerminatorKind::Call { func, args, .. } => {
                let at = t.source_info.span;
                let mut tys: Vec<Ty> = args.iter().filter_map(|a| a.ty(self.body.locals()).ok()).collect();
                tys.extend(func.ty(self.body.locals()).ok());
                for t in tys {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
                        self.function(d, &a, &at);
                    }
                }
            }
            TerminatorKind::InlineAsm { .. } => self.say(CALLS, "inline assembly".into(), Say::Bad("inline assembly".into()), &t.source_info.span),
            _ => {}
        }
        self.super_terminator(t, l)
    }
}

pub fn check(rep: &mut Rep) {
    let fns = universe();
    if fns.len() < 40 {
        rep.err(format!("only {} functions found", fns.len()));
    }
    for f in &fns {
        let Some(body) = f.body() else { continue };
        let n = def_path(f);
        rep.fns.insert(n.clone());
        let mut v = Look { body: &body, found: vec![] };
        v.visit_body(&body);
        let mut fine = 0;
        for (rule, what, s, at) in v.found {
            match s {
                Say::Fine => {
                    fine += 1;
                    rep.ob(Verdict::Proved, rule, &format!("{what} in {n}"), &at, "")
                }
                Say::Bad(w) => rep.ob(Verdict::Definite, rule, &format!("{what} in {n}"), &at, &w),
                Say::Unsure(w) => rep.ob(Verdict::Unproven, rule, &format!("{what} in {n}"), &at, &w),
            }
        }
        rep.ob(Verdict::Proved, STATICS, &format!("{n}: {fine} uses of functions and statics"), &loc(f), "");
    }
    // every static the crate declares, used or not
    for item in rustc_public::all_local_items() {
        if let Ok(s) = StaticDef::try_from(item) {
            let v = if lazy(s.ty()) {
                Verdict::Unproven
            } else if changeable(s.ty(), &mut BTreeSet::new()) {
                Verdict::Definite
            } else {
                Verdict::Proved
            };
            rep.ob(v, STATICS, &format!("static {}", s.name()), &Interp::loc_of(&s.span()), "a static that can change");
        }
    }
}
