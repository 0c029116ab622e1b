//! Finds the things the properties speak about by type and signature, so that
//! renaming or moving internals does not lose them.
use crate::interp::*;
use crate::mat::*;
use crate::roots::universe;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::BTreeMap;

pub struct World {
    pub fns: Vec<Instance>,
    pub adts: BTreeMap<String, Ty>,
}

pub fn sig(i: &Instance) -> Option<(Vec<Ty>, Ty)> {
    let s = i.ty().kind().fn_sig()?;
    let s = s.skip_binder();
    Some((s.inputs().to_vec(), s.output()))
}
pub fn loc(i: &Instance) -> String {
    let s = i.def.span();
    format!("{}:{} {}", s.get_filename().trim_start_matches("src/src"), s.get_lines().start_line, def_path(i))
}
pub fn is_ty(t: Ty, r: &RigidTy) -> bool {
    rigid(t).as_ref() == Some(r)
}
pub fn is_char(t: Ty) -> bool {
    is_ty(t, &RigidTy::Char)
}
pub fn is_bool(t: Ty) -> bool {
    is_ty(t, &RigidTy::Bool)
}
/// fn(char, char) -> bool
pub fn is_char_eq(t: Ty) -> bool {
    match rigid(t) {
        Some(RigidTy::FnPtr(s)) => {
            let s = s.skip_binder();
            s.inputs().len() == 2 && s.inputs().iter().all(|t| is_char(*t)) && is_bool(s.output())
        }
        _ => false,
    }
}
pub fn is_char_pred(t: Ty) -> bool {
    match rigid(t) {
        Some(RigidTy::FnPtr(s)) => {
            let s = s.skip_binder();
            s.inputs().len() == 1 && is_char(s.inputs()[0]) && is_bool(s.output())
        }
        _ => false,
    }
}
pub fn is_adt(t: Ty, last: &str) -> bool {
    adt_last(t) == last
}
pub fn variant_names(t: Ty) -> Vec<String> {
    match rigid(t) {
        Some(RigidTy::Adt(d, _)) => d.variants().iter().map(|v| v.name().to_string()).collect(),
        _ => vec![],
    }
}
pub fn variant(t: Ty, name: &str) -> Option<u32> {
    variant_names(t).iter().position(|n| n.eq_ignore_ascii_case(name)).map(|x| x as u32)
}

fn collect(t: Ty, m: &mut BTreeMap<String, Ty>) {
    let t = strip_refs(t);
    match rigid(t) {
        Some(RigidTy::Adt(d, a)) => {
            for g in a.0.iter() {
                if let Some(t) = g.ty() {
                    collect(*t, m);
                }
            }
            if !d.krate().is_local || m.contains_key(&adt_name(t)) {
                return;
            }
            m.insert(adt_name(t), t);
            for v in 0..d.num_variants() {
                for (_, ft) in field_tys(t, v) {
                    collect(ft, m);
                }
            }
        }
        Some(RigidTy::Slice(e)) | Some(RigidTy::Array(e, _)) => collect(e, m),
        Some(RigidTy::Tuple(v)) => v.iter().for_each(|t| collect(*t, m)),
        _ => {}
    }
}

impl World {
    pub fn new() -> World {
        let fns = universe();
        let mut adts = BTreeMap::new();
        for f in &fns {
            if let Some((a, r)) = sig(f) {
                for t in a {
                    collect(t, &mut adts);
                }
                collect(r, &mut adts);
            }
        }
        World { fns, adts }
    }
    pub fn adt(&self, last: &str) -> Option<Ty> {
        self.adts.iter().find(|(k, _)| k.rsplit("::").next() == Some(last)).map(|x| *x.1)
    }
    /// functions whose signature satisfies `p`
    pub fn by_sig(&self, p: impl Fn(&[Ty], Ty) -> bool) -> Vec<Instance> {
        self.fns
            .iter()
            .filter(|f| match sig(f) {
                Some((a, r)) => p(&a, r),
                None => false,
            })
            .cloned()
            .collect()
    }
    /// by the last segment of the path and the type it is a method of
    pub fn method(&self, ty: &str, name: &str) -> Option<Instance> {
        self.fns.iter().find(|f| {
            let n = def_path(f);
            n.rsplit("::").next() == Some(name) && n.contains(ty)
        }).cloned()
    }
    /// the scoring-scheme type: a struct with a fn(char) -> bool field
    pub fn scheme(&self) -> Option<Ty> {
        self.adts.values().copied().find(|t| !is_fieldless_enum(*t) && variant_names(*t).len() == 1 && field_tys(*t, 0).iter().any(|(_, f)| is_char_pred(*f)))
    }
    /// the character classes: the field-less enum stored in the scheme
    pub fn char_class(&self) -> Option<Ty> {
        field_tys(self.scheme()?, 0).into_iter().map(|x| x.1).find(|t| is_fieldless_enum(*t))
    }
    /// the pattern type: local struct holding a &[char]
    pub fn pattern(&self) -> Option<Ty> {
        let mt = |t: Ty| field_tys(t, 0).iter().any(|(_, f)| is_fieldless_enum(*f));
        self.adts.values().copied().find(|t| {
            variant_names(*t).len() == 1
                && mt(*t)
                && field_tys(*t, 0).iter().any(|(_, f)| matches!(pointee(*f).and_then(rigid), Some(RigidTy::Slice(e)) if is_char(e)))
        })
    }
}
pub fn same(a: Ty, b: Ty) -> bool {
    a == b || (!adt_name(a).is_empty() && adt_name(a) == adt_name(b))
}
