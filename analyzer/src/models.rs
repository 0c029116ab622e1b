//! Summaries of the standard-library and memchr functions the crate uses.
use crate::interp::*;
use crate::mat::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, DefId};
use std::rc::Rc;

/// (def id, is it a provided default body)
fn assoc(trait_diag: &str, method: &str) -> Option<rustc_span::def_id::DefId> {
    rustc_middle::ty::tls::with(|tcx| {
        let tr = match trait_diag {
            "Iterator" => tcx.get_diagnostic_item(rustc_span::Symbol::intern("Iterator")),
            "DoubleEndedIterator" => tcx.get_diagnostic_item(rustc_span::Symbol::intern("DoubleEndedIterator")).or_else(|| {
                tcx.all_traits_including_private().find(|d| tcx.item_name(*d).as_str() == "DoubleEndedIterator" && tcx.crate_name(d.krate).as_str() == "core")
            }),
            _ => None,
        }?;
        tcx.associated_items(tr).in_definition_order().find(|a| a.name().as_str() == method).map(|a| a.def_id)
    })
}
/// the default body of an iterator method for `self_ty`
fn default_instance(tr: &str, method: &str, self_ty: Ty, own: &[Ty]) -> Option<Instance> {
    let def = assoc(tr, method)?;
    rustc_middle::ty::tls::with(|tcx| {
        let mut tys: Vec<rustc_middle::ty::GenericArg> = vec![];
        tys.push(rustc_internal::internal(tcx, self_ty).into());
        for t in own {
            tys.push(rustc_internal::internal(tcx, *t).into());
        }
        let args = tcx.mk_args(&tys);
        let inst = rustc_middle::ty::Instance { def: rustc_middle::ty::InstanceKind::Item(def), args };
        Some(rustc_internal::stable(inst))
    })
}
/// `<self_ty as Iterator>::next`, resolved
pub fn iter_next(self_ty: Ty, back: bool) -> Option<Instance> {
    let def = if back { assoc("DoubleEndedIterator", "next_back")? } else { assoc("Iterator", "next")? };
    let fd = FnDef(rustc_middle::ty::tls::with(|_| -> DefId { rustc_internal::stable(def) }));
    Instance::resolve(fd, &GenericArgs(vec![GenericArgKind::Type(self_ty)])).ok()
}

pub fn last_seg(name: &str) -> &str {
    let mut depth = 0;
    let b = name.as_bytes();
    // last "::" outside angle brackets
    let mut i = b.len();
    let mut end = b.len();
    while i >= 2 {
        match b[i - 1] {
            b'>' if i >= 2 && b[i - 2] == b'-' => {}
            b'>' => depth += 1,
            b'<' => {
                depth -= 1;
                if depth == 0 {
                    // trailing generics "::<..>"
                    if i >= 3 && &name[i - 3..i - 1] == "::" {
                        end = i - 3;
                        i = end;
                        continue;
                    }
                }
            }
            b':' if depth == 0 && b[i - 2] == b':' => return &name[i..end],
            _ => {}
        }
        i -= 1;
    }
    &name[..end]
}

fn own_tys(i: &Instance, k: usize) -> Vec<Ty> {
    let v: Vec<Ty> = i.args().0.iter().filter_map(|a| a.ty().copied()).collect();
    v[v.len().saturating_sub(k)..].to_vec()
}

pub fn ptr(v: &Val) -> Option<Ptr> {
    match v {
        Val::Ptr(p) => Some(p.clone()),
        Val::Agg(a) if a.len() == 1 => ptr(&a[0]),
        _ => None,
    }
}
/// the sequence a slice, array or Vec reference denotes
pub fn seqs(it: &mut Interp, st: State, v: &Val) -> Vec<(State, Option<Ptr>)> {
    match v {
        Val::Ptr(p) if p.view.is_some() => vec![(st, Some(p.clone()))],
        Val::Vec(h, n) => vec![(st, Some(Ptr { base: Base::Heap(*h), path: vec![], view: Some((Lin::k(0), n.clone())) }))],
        Val::Ptr(p) => {
            let p = p.clone();
            let mut out = vec![];
            for (s, x) in it.read(st, &p) {
                match &x {
                    Val::Vec(h, n) => out.push((s, Some(Ptr { base: Base::Heap(*h), path: vec![], view: Some((Lin::k(0), n.clone())) }))),
                    Val::Agg(a) => {
                        let mut q = p.clone();
                        q.view = Some((Lin::k(0), Lin::k(a.len() as i128)));
                        out.push((s, Some(q)))
                    }
                    Val::Ptr(_) => out.extend(seqs(it, s, &x)),
                    _ => out.push((s, None)),
                }
            }
            out
        }
        Val::Agg(a) if a.len() == 1 => {
            let x = a[0].clone();
            seqs(it, st, &x)
        }
        _ => vec![(st, None)],
    }
}
fn flat(v: Vec<(State, Option<Ptr>)>, mut f: impl FnMut(State, Ptr) -> R) -> R {
    let mut out = vec![];
    for (mut s, p) in v {
        match p {
            Some(p) => out.extend(f(s, p)),
            None => {
                s.poison("unmodelled sequence");
                out.push((s, Val::Top(UNK)));
            }
        }
    }
    out
}
fn view(p: &Ptr) -> (Lin, Lin) {
    p.view.clone().unwrap_or((Lin::k(0), Lin::k(0)))
}
fn sub(p: &Ptr, off: &Lin, len: &Lin) -> Val {
    let mut q = p.clone();
    let (o, _) = view(p);
    q.view = Some((o.add(off), len.clone()));
    Val::Ptr(q)
}
fn ge(a: &Lin, b: &Lin) -> Cond {
    Cond::Ge(a.sub(b)).norm()
}
fn lt(a: &Lin, b: &Lin) -> Cond {
    Cond::Ge(b.sub(a).plus(-1)).norm()
}
fn eq(a: &Lin, b: &Lin) -> Cond {
    Cond::Eq(a.sub(b)).norm()
}
fn between(l: &Lin, lo: i128, hi: i128) -> Cond {
    Cond::And(vec![Cond::Ge(l.plus(-lo)), Cond::Ge(l.neg().plus(hi))]).norm()
}
fn one(st: &State, v: Val) -> Option<R> {
    Some(vec![(st.clone(), v)])
}
fn split(it: &mut Interp, st: State, c: &Cond) -> (Vec<State>, Vec<State>) {
    let c = c.clone().norm();
    let a = it.assume(st.clone(), &c);
    let b = it.assume(st, &c.not().norm());
    (a, b)
}
/// is byte position x of a str object a char boundary
pub fn boundary(o: O, x: &Lin) -> Cond {
    if ascii_of(o) == Some(true) || x.is_const() == Some(0) || *x == str_len(o) {
        return Cond::T;
    }
    if let (Some(b), Some(w)) = (x.is_const(), layout(o)) {
        return if char_of_byte(&w, b).is_none_or(|c| c.1 == b) { Cond::T } else { Cond::F };
    }
    if let Some(s) = x.single() {
        if let SymKind::App(f, a) = sym_kind(s) {
            if f == "bsum" && a[0] == Arg::O(o) {
                return Cond::T;
            }
        }
    }
    let byte = |i: &Lin| match byte_at(o, i) {
        Val::Int(l) => l,
        _ => Lin::k(255),
    };
    Cond::Or(vec![
        eq(x, &Lin::k(0)),
        eq(x, &str_len(o)),
        Cond::Ge(byte(x).neg().plus(127)),
        Cond::Ge(byte(&x.plus(-1)).neg().plus(127)),
        eq(&bsum(o, &cidx(o, x)), x),
    ])
    .norm()
}
/// (lo, hi) of a range value applied to a sequence of length n; None if unmodelled
fn range_of(it: &mut Interp, st: &State, v: &Val, t: Ty, n: &Lin) -> Option<(Lin, Lin)> {
    let _ = (&it, st);
    let k = adt_last(t);
    let g = |v: &Val, i: usize| match v {
        Val::Agg(a) => a.get(i).and_then(Interp::to_int),
        _ => None,
    };
    Some(match k.as_str() {
        "Range" => (g(v, 0)?, g(v, 1)?),
        "RangeFrom" => (g(v, 0)?, n.clone()),
        "RangeTo" => (Lin::k(0), g(v, 0)?),
        "RangeFull" => (Lin::k(0), n.clone()),
        "RangeInclusive" => (g(v, 0)?, g(v, 1)?.plus(1)),
        "RangeToInclusive" => (Lin::k(0), g(v, 0)?.plus(1)),
        _ => return None,
    })
}
fn slice_range(it: &mut Interp, st: State, p: &Ptr, lo: &Lin, hi: &Lin) -> R {
    let (off, n) = view(p);
    let c = Cond::And(vec![ge(hi, lo), ge(&n, hi)]).norm();
    let mut cur = it.oblige(st, &c, "slice", "slice range in bounds");
    if let Base::Bytes(o) = p.base {
        for x in [off.add(lo), off.add(hi)] {
            let mut nx = vec![];
            for s in cur {
                let b = boundary(o, &x);
                if b == Cond::T {
                    nx.push(s);
                    continue;
                }
                // recording the fact itself would be disjunctive
                let v = it.judge(&s, &b);
                it.event("boundary", "str sliced on a char boundary", v, format!("{x:?}"));
                let mut s = s;
                let f = eq(&bsum(o, &cidx(o, &x)), &x);
                if let Cond::Eq(l) = &f {
                    s.num.add_eq(l);
                }
                nx.push(s);
            }
            cur = nx;
        }
    }
    cur.into_iter().map(|s| (s, sub(p, lo, &hi.sub(lo)))).collect()
}
fn fieldless_opt(v: Vec<State>, x: Val) -> R {
    v.into_iter().map(|s| (s, x.clone())).collect()
}
/// runs `f` on each result
fn then(r: R, mut f: impl FnMut(State, Val) -> R) -> R {
    let mut out = vec![];
    for (s, v) in r {
        out.extend(f(s, v));
    }
    out
}
pub fn stash<T>(it: &mut Interp, mut st: State, vals: Vec<Val>, f: impl FnOnce(&mut Interp, State) -> Vec<(State, T)>) -> Vec<(State, Vec<Val>, T)> {
    st.frames.push(Rc::new(Frame { locals: vals }));
    f(it, st)
        .into_iter()
        .map(|(mut s, v)| {
            let fr = s.frames.pop().unwrap();
            (s, fr.locals.clone(), v)
        })
        .collect()
}
fn class_of(f: &str, ch: char) -> Option<bool> {
    Some(match f {
        "is_uppercase" => ch.is_uppercase(),
        "is_lowercase" => ch.is_lowercase(),
        "is_alphabetic" => ch.is_alphabetic(),
        "is_numeric" => ch.is_numeric(),
        "is_whitespace" => ch.is_whitespace(),
        "is_alphanumeric" => ch.is_alphanumeric(),
        _ => return None,
    })
}
/// does the predicate say the same about every character of an interval
pub fn same_all(f: &str, lo: i128, hi: i128) -> Option<bool> {
    thread_local!(static SAME: std::cell::RefCell<std::collections::HashMap<(String, i128, i128), Option<bool>>> = Default::default());
    if lo < 0 || hi - lo > 30000 {
        return None;
    }
    SAME.with(|m| {
        *m.borrow_mut().entry((f.to_string(), lo, hi)).or_insert_with(|| {
            let mut v = (lo..=hi).filter_map(|c| char::from_u32(c as u32)).map(|c| class_of(f, c));
            let first = v.next()??;
            v.all(|x| x == Some(first)).then_some(first)
        })
    })
}
fn char_pred(m: &str, l: &Lin) -> Option<Cond> {
    let up = between(l, 65, 90);
    let low = between(l, 97, 122);
    let dig = between(l, 48, 57);
    let any = |v: Vec<Cond>| Cond::Or(v).norm();
    let uni = |f: &str, a: Cond| {
        let ap = Cond::sym1(Lin::s(app(f, vec![Arg::L(l.clone())], Some(0), Some(1), 0)));
        if let Some(c) = l.is_const() {
            if let Some(ch) = char::from_u32(c as u32) {
                return class_of(f, ch).map_or(ap, Cond::b);
            }
        }
        if l.single().map_or(false, |s| bounds(s).1.map_or(false, |h| h <= 127)) {
            return a;
        }
        if let Some((Some(lo), Some(hi))) = l.single().filter(|s| *l == Lin::s(*s)).map(bounds) {
            if let Some(b) = same_all(f, lo, hi) {
                return Cond::b(b);
            }
        }
        Cond::Or(vec![a, Cond::And(vec![Cond::Ge(l.plus(-128)), ap])]).norm()
    };
    let ws = any(vec![between(l, 9, 13), eq(l, &Lin::k(32))]);
    Some(match m {
        "is_ascii" => Cond::Ge(l.neg().plus(127)).norm(),
        "is_ascii_alphabetic" => any(vec![up, low]),
        "is_ascii_uppercase" => up,
        "is_ascii_lowercase" => low,
        "is_ascii_digit" => dig,
        "is_ascii_alphanumeric" => any(vec![up, low, dig]),
        "is_ascii_whitespace" => any(vec![between(l, 9, 10), between(l, 12, 13), eq(l, &Lin::k(32))]),
        "is_ascii_punctuation" => any(vec![between(l, 33, 47), between(l, 58, 64), between(l, 91, 96), between(l, 123, 126)]),
        "is_ascii_control" => any(vec![between(l, 0, 31), eq(l, &Lin::k(127))]),
        "is_ascii_graphic" => between(l, 33, 126),
        "is_uppercase" => uni("is_uppercase", up),
        "is_lowercase" => uni("is_lowercase", low),
        "is_alphabetic" => uni("is_alphabetic", any(vec![up, low])),
        "is_alphanumeric" => uni("is_alphanumeric", any(vec![up, low, dig])),
        "is_numeric" => uni("is_numeric", dig),
        "is_whitespace" => uni("is_whitespace", ws),
        "is_control" => uni("is_control", any(vec![between(l, 0, 31), eq(l, &Lin::k(127))])),
        _ => return None,
    })
}
pub fn ordering(k: i32) -> Val {
    Val::variant((k + 1) as u32, vec![])
}
fn new_seq(st: &mut State, t: Ty) -> u32 {
    st.alloc(Obj::Seq(Seq { ty: t, base: SeqBase::Undef, chain: vec![] }))
}
/// reads the integer a reference (or value) denotes
fn deref_ints(it: &mut Interp, st: State, v: &Val) -> Vec<(State, Option<Lin>)> {
    match v {
        Val::Ptr(p) if p.view.is_none() => {
            let p = p.clone();
            let mut out = vec![];
            for (s, x) in it.read(st, &p) {
                out.extend(deref_ints(it, s, &x));
            }
            out
        }
        v => it.int_of(st, v),
    }
}
fn memchr_app(p: &Ptr, what: &str, needles: &[Lin], st: &State) -> Option<Lin> {
    let o = match &p.base {
        Base::Sym(o) | Base::Bytes(o) if p.path.is_empty() => *o,
        _ => return None,
    };
    let _ = st;
    let (off, n) = view(p);
    let mut a = vec![Arg::O(o), Arg::L(off), Arg::L(n)];
    a.extend(needles.iter().map(|l| Arg::L(l.clone())));
    Some(Lin::s(app(what, a, Some(0), Some(i64::MAX as i128), 0)))
}
/// search for one of `needles` in lo..n of the view; yields positions relative to the view
fn search(it: &mut Interp, st: State, p: &Ptr, needles: &[Lin], back: bool) -> Vec<(State, Option<Lin>)> {
    let (off, n) = view(p);
    let mut st = st;
    let most = if matches!(p.base, Base::Bytes(o) if is_given(o)) { 1000 } else { 16.max(it.peel as i128) };
    if let Some(n) = n.is_const().filter(|n| *n <= most) {
        let mut cur = vec![st];
        let mut out = vec![];
        for k in if back { (0..n).rev().collect::<Vec<_>>() } else { (0..n).collect() } {
            let mut next = vec![];
            for s in cur {
                for (s, b) in it.read(s, &p.elem(&Lin::k(k))) {
                    let Some(b) = Interp::to_int(&b) else {
                        out.push((s.clone(), Some(Lin::k(k))));
                        next.push(s);
                        continue;
                    };
                    let c = Cond::Or(needles.iter().map(|x| eq(&b, x)).collect()).norm();
                    out.extend(it.assume(s.clone(), &c).into_iter().map(|s| (s, Some(Lin::k(k)))));
                    next.extend(it.assume(s, &c.not().norm()));
                }
            }
            cur = next;
        }
        out.extend(cur.into_iter().map(|s| (s, None)));
        return out;
    }
    let k = memchr_app(p, if back { "memrchr" } else { "memchr" }, needles, &st).unwrap_or_else(|| Lin::s(fresh("found", Some(0), None, 0)));
    if it.record_scans {
        st.ghost.insert(format!("scan{}", st.ghost.len()), Val::Int(k.clone()));
    }
    let mut out = vec![];
    // found
    let c = Cond::And(vec![Cond::Ge(k.clone()), lt(&k, &n)]).norm();
    for s in it.assume(st.clone(), &c) {
        for (s, b) in it.read(s, &p.elem(&k)) {
            match Interp::to_int(&b) {
                Some(b) => {
                    let c = Cond::Or(needles.iter().map(|x| eq(&b, x)).collect()).norm();
                    for s in it.assume(s, &c) {
                        out.push((s, Some(k.clone())));
                    }
                }
                None => out.push((s, Some(k.clone()))),
            }
        }
    }
    // not found: contradicts any byte of the range known to equal a needle
    let mut s = st;
    if !s.num.entails_ge(&n.plus(-1)) || true {
        let known: Vec<Lin> = known_elems(&s, p);
        for j in known {
            let inside = Cond::And(vec![ge(&j, &off), lt(&j, &off.add(&n))]).norm();
            if it.entails(&s.num, &inside) {
                let mut q = p.clone();
                q.view = None;
                for (s2, b) in it.read(s.clone(), &q.push(Step::Idx(j.clone()))) {
                    if let Some(b) = Interp::to_int(&b) {
                        s = s2;
                        for x in needles {
                            if !s.num.add_ne(&b.sub(x)) {
                                s.num.bot = true;
                            }
                            if s.num.entails_eq(&b.sub(x)) {
                                s.num.bot = true;
                            }
                        }
                    }
                    break;
                }
            }
        }
        if !s.num.bot {
            out.push((s, None));
        }
    }
    out
}
/// indices of elements of the object that occur in the constraints
fn known_elems(st: &State, p: &Ptr) -> Vec<Lin> {
    let (o, names): (O, Vec<String>) = match &p.base {
        Base::Sym(o) => (*o, vec![format!("{}[]", obj_name(*o))]),
        Base::Bytes(o) => (*o, vec!["byte".into(), format!("{}[]", obj_name(*o))]),
        _ => return vec![],
    };
    let mut out = vec![];
    for l in st.num.ge.iter().chain(st.num.ne.iter()) {
        for (s, _) in &l.t {
            if let SymKind::App(f, a) = sym_kind(*s) {
                if names.contains(&f) && (f != "byte" || a[0] == Arg::O(o)) {
                    if let Some(Arg::L(i)) = a.last() {
                        if !out.contains(i) {
                            out.push(i.clone());
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn model(it: &mut Interp, i: &Instance, name: &str, args: &[Val], st: &State) -> Option<R> {
    let ity = i.ty();
    // calls through the Fn traits pass a tuple
    if matches!(rigid(ity), Some(RigidTy::Closure(..))) {
        if args.len() == 2 {
            let tup = match &args[1] {
                Val::Agg(a) => (**a).clone(),
                _ => return None,
            };
            let rt = Interp::ret_ty(i).unwrap_or(ity);
            return Some(it.call_val(args[0].clone(), tup, st.clone(), rt));
        }
        return None;
    }
    let m = last_seg(name);
    if m == "eq" && args.len() == 2 {
        if let (Val::Agg(a), Val::Agg(b)) = (&args[0], &args[1]) {
            let t = ity.kind().fn_sig().and_then(|s| s.skip_binder().inputs().first().copied());
            if t.is_some_and(|t| matches!(adt_last(t).as_str(), "ToLowercase" | "ToUppercase")) && a.len() == 2 && b.len() == 2 && a[1] == b[1] {
                if let (Val::Int(x), Val::Int(y)) = (&a[0], &b[0]) {
                    let f = if a[1] == Val::int(0) { "lower_eq" } else { "upper_eq" };
                    let c = if x == y { Cond::T } else { Cond::sym1(Lin::s(app(f, vec![Arg::L(x.clone()), Arg::L(y.clone())], Some(0), Some(1), 0))) };
                    return one(st, Val::Bool(c));
                }
            }
        }
    }
    // the clone of a function, a reference, an array or a tuple of such: a copy
    if m == "clone" && i.kind == InstanceKind::Shim && args.len() == 1 {
        if let Val::Ptr(p) = &args[0] {
            let t = Interp::ret_ty(i);
            if t.and_then(rigid).is_some_and(|t| matches!(t, RigidTy::FnPtr(_) | RigidTy::FnDef(..) | RigidTy::Ref(..) | RigidTy::RawPtr(..))) {
                return Some(it.read(st.clone(), p));
            }
        }
    }
    if matches!(m, "call_once" | "call_mut" | "call") && args.len() == 2 {
        if let Val::Agg(a) = &args[1] {
            let is_fn_trait = name.contains("ops::Fn") || matches!(i.kind, InstanceKind::Shim);
            if is_fn_trait && i.kind != InstanceKind::Item {
                let rt = Interp::ret_ty(i).unwrap_or(ity);
                return Some(it.call_val(args[0].clone(), (**a).clone(), st.clone(), rt));
            }
        }
    }
    if is_local(i) {
        return None;
    }
    if name.contains("ops::FnOnce") || name.contains("ops::FnMut") || name.contains("ops::Fn::") {
        if let Some(Val::Agg(a)) = args.get(1) {
            let rt = Interp::ret_ty(i).unwrap_or(ity);
            return Some(it.call_val(args[0].clone(), (**a).clone(), st.clone(), rt));
        }
    }
    if i.kind == InstanceKind::Intrinsic || name.contains("intrinsics::") {
        return intrinsic(it, i, m, args, st);
    }
    // ---- panics
    if name.contains("panicking::") || matches!(m, "unwrap_failed" | "expect_failed" | "panic_cold_explicit" | "handle_error" | "slice_index_fail" | "slice_error_fail")
        || m.ends_with("_len_fail") || m.ends_with("_order_fail") || m.ends_with("_mismatch_fail") || (m == "assert_failed")
    {
        let what = if m == "unwrap_failed" || m == "expect_failed" { "unwrap of a value that is never absent" } else { "panic is unreachable" };
        it.oblige(st.clone(), &Cond::F, "panic", what);
        return Some(vec![]);
    }
    if name.contains("::fmt::") {
        return one(st, Val::Top(UNK));
    }
    let sig = ity.kind().fn_sig()?.skip_binder();
    let ins = sig.inputs().to_vec();
    let out_t = sig.output();
    let t0 = ins.first().map(|t| strip_refs(*t));
    let k0 = t0.map(|t| match rigid(t) {
        Some(RigidTy::Adt(..)) => adt_last(t),
        Some(RigidTy::Slice(_)) => "[]".into(),
        Some(RigidTy::Array(..)) => "[N]".into(),
        Some(RigidTy::Str) => "str".into(),
        Some(RigidTy::Char) => "char".into(),
        Some(RigidTy::Bool) => "bool".into(),
        Some(RigidTy::Int(_)) => "int".into(),
        Some(RigidTy::Uint(_)) => "uint".into(),
        _ => String::new(),
    }).unwrap_or_default();
    let krate = name.trim_start_matches('<').split("::").next().unwrap_or("").to_string();

    // ---- memory
    match (m, args.len()) {
        ("replace", 2) if name.contains("mem::") => {
            let p = ptr(&args[0])?;
            let mut out = vec![];
            for (s, old) in it.read(st.clone(), &p) {
                for s in it.write(s, &p, args[1].clone()) {
                    out.push((s, old.clone()));
                }
            }
            return Some(out);
        }
        ("swap", 2) if name.contains("mem::") => {
            let (p, q) = (ptr(&args[0])?, ptr(&args[1])?);
            let mut out = vec![];
            for (s, x) in it.read(st.clone(), &p) {
                for (s, y) in it.read(s, &q) {
                    for s in it.write(s, &p, y.clone()) {
                        for s in it.write(s, &q, x.clone()) {
                            out.push((s, Val::unit()));
                        }
                    }
                }
            }
            return Some(out);
        }
        ("drop" | "forget", 1) => return one(st, Val::unit()),
        ("assert_unchecked", 1) => {
            if let Val::Bool(c) = &args[0] {
                return Some(it.assume(st.clone(), c).into_iter().map(|s| (s, Val::unit())).collect());
            }
            return one(st, Val::unit());
        }
        ("unreachable_unchecked", _) => return Some(vec![]),
        ("precondition_check" | "check_language_ub", _) => return one(st, Val::unit()),
        _ => {}
    }
    // ---- iterators
    if let Some(r) = iterators(it, i, name, m, &k0, &ins, args, st) {
        return Some(r);
    }
    if krate == "memchr" || name.contains("memchr::") {
        return memchr(it, m, &k0, args, st);
    }
    // ---- scalars
    if k0 == "char" || k0 == "uint" || k0 == "int" {
        if let Some(r) = scalars(it, m, &ins, out_t, args, st) {
            return Some(r);
        }
    }
    if m == "from" && args.len() == 1 && int_bounds(ins[0]).is_some() && int_bounds(out_t).is_some() {
        let (a, b) = (int_bounds(ins[0]).unwrap(), int_bounds(out_t).unwrap());
        if a.0 >= b.0 && a.1 <= b.1 {
            return one(st, args[0].clone());
        }
    }
    if m == "from_u32" && out_t != ins[0] {
        return None;
    }
    if name.contains("NonZero") {
        match (m, &args[..]) {
            ("new", [Val::Int(n)]) => {
                let (zero, other) = split(it, st.clone(), &eq(n, &Lin::k(0)));
                let mut out = fieldless_opt(zero, Val::none());
                out.extend(fieldless_opt(other, Val::some(args[0].clone())));
                return Some(out);
            }
            ("get" | "new_unchecked", [v @ Val::Int(_)]) => return one(st, v.clone()),
            _ => {}
        }
    }
    match k0.as_str() {
        "Vec" => {
            if let Some(r) = vecs(it, m, &ins, out_t, args, st) {
                return Some(r);
            }
        }
        "[]" | "[N]" => {
            if let Some(r) = slices(it, i, m, &ins, out_t, args, st) {
                return Some(r);
            }
        }
        "str" | "String" => {
            if let Some(r) = strs(it, m, &ins, args, st) {
                return Some(r);
            }
        }
        _ => {}
    }
    if adt_last(out_t) == "Vec" && (name.contains("vec::") || name.contains("Vec")) {
        match m {
            "new" | "default" | "with_capacity" => {
                let mut s = st.clone();
                let h = new_seq(&mut s, type_arg(out_t, 0)?);
                return Some(vec![(s, Val::Vec(h, Lin::k(0)))]);
            }
            "from_elem" => {
                let mut s = st.clone();
                let h = new_seq(&mut s, type_arg(out_t, 0)?);
                let n = Interp::to_int(&args[1])?;
                Interp::seq_push(&mut s, h, W::Fill(Lin::k(0), n.clone(), args[0].clone()));
                return Some(vec![(s, Val::Vec(h, n))]);
            }
            _ => {}
        }
    }
    if m == "default" && args.is_empty() {
        if let Some(RigidTy::Ref(_, p, _)) = rigid(out_t) {
            if let Some(RigidTy::Slice(e)) = rigid(p) {
                set_obj_ty("empty", e);
                return one(st, Val::Ptr(Ptr { base: Base::Sym(obj("empty", vec![])), path: vec![], view: Some((Lin::k(0), Lin::k(0))) }));
            }
        }
    }
    None
}

fn intrinsic(it: &mut Interp, i: &Instance, m: &str, args: &[Val], st: &State) -> Option<R> {
    let sig = i.ty().kind().fn_sig()?.skip_binder();
    let out_t = sig.output();
    match m {
        "unlikely" | "likely" | "black_box" | "transmute" | "transmute_unchecked" => one(st, args[0].clone()),
        "cold_path" | "assert_inhabited" | "assert_zero_valid" | "forget" => one(st, Val::unit()),
        "ub_checks" | "contract_checks" | "is_val_statically_known" => one(st, Val::bool(false)),
        "unreachable" => Some(vec![]),
        "assume" => {
            if let Val::Bool(c) = &args[0] {
                return Some(it.assume(st.clone(), c).into_iter().map(|s| (s, Val::unit())).collect());
            }
            one(st, Val::unit())
        }
        "size_of" | "size_of_val" => {
            let t = i.args().0.iter().find_map(|a| a.ty().copied())?;
            one(st, Val::int(size_of(t) as i128))
        }
        "saturating_sub" | "saturating_add" | "wrapping_add" | "wrapping_sub" | "unchecked_add" | "unchecked_sub" | "exact_div" => {
            scalars(it, m, sig.inputs(), out_t, args, st)
        }
        "three_way_compare" => {
            let (a, b) = (Interp::to_int(&args[0])?, Interp::to_int(&args[1])?);
            Some(cmp3(it, st.clone(), &a, &b))
        }
        "discriminant_value" => {
            let p = ptr(&args[0])?;
            let t = i.args().0.iter().find_map(|a| a.ty().copied())?;
            Some(it.read(st.clone(), &p).into_iter().map(|(s, v)| {
                let r = match &v {
                    Val::Enum(d, _) => it.disc_of(d, t),
                    _ => Val::Int(Lin::s(fresh("disc", Some(0), None, UNK))),
                };
                (s, r)
            }).collect())
        }
        "ptr_metadata" => match ptr(&args[0]) {
            Some(Ptr { view: Some((_, n)), .. }) => one(st, Val::Int(n)),
            _ => one(st, Val::unit()),
        },
        _ => None,
    }
}
fn cmp3(it: &mut Interp, st: State, a: &Lin, b: &Lin) -> R {
    let mut out = vec![];
    for s in it.assume(st.clone(), &lt(a, b)) {
        out.push((s, ordering(-1)));
    }
    for s in it.assume(st.clone(), &eq(a, b)) {
        out.push((s, ordering(0)));
    }
    for s in it.assume(st, &lt(b, a)) {
        out.push((s, ordering(1)));
    }
    out
}

fn scalars(it: &mut Interp, m: &str, ins: &[Ty], out_t: Ty, args: &[Val], st: &State) -> Option<R> {
    let byref = pointee(ins[0]).is_some();
    // unary predicates and conversions
    if args.len() == 1 {
        let mut out = vec![];
        for (s, l) in deref_ints(it, st.clone(), &args[0]) {
            let l = l?;
            let ch = int_bounds(strip_refs(ins[0])).map_or(false, |b| b.1 <= 0x10FFFF);
            if ch {
                if let Some(c) = char_pred(m, &l) {
                    out.push((s, Val::Bool(c)));
                    continue;
                }
            }
            match m {
                "len_utf8" => out.push((s, Val::Int(len8(&l)))),
                "clone" if byref => out.push((s, Val::Int(l))),
                "to_ascii_lowercase" | "to_ascii_uppercase" if ch => {
                    let (lo, hi, d) = if m == "to_ascii_lowercase" { (65, 90, 32) } else { (97, 122, -32) };
                    let (a, b) = split(it, s, &between(&l, lo, hi));
                    out.extend(a.into_iter().map(|s| (s, Val::Int(l.plus(d)))));
                    out.extend(b.into_iter().map(|s| (s, Val::Int(l.clone()))));
                }
                // the mapped characters stay symbolic; only comparing two mappings is modelled
                "to_lowercase" | "to_uppercase" if ch => out.push((s, Val::agg(vec![Val::Int(l), Val::int((m == "to_uppercase") as i128)]))),
                "is_power_of_two" | "count_ones" | "leading_zeros" | "trailing_zeros" | "swap_bytes" | "reverse_bits" | "ilog10" | "ilog2" => {
                    out.push((s, Interp::opaque_app(out_t, m, vec![Arg::L(l)], UNK)))
                }
                _ => return None,
            }
        }
        return Some(out);
    }
    if args.len() != 2 {
        return None;
    }
    let t = strip_refs(ins[0]);
    let (tlo, thi) = int_bounds(t)?;
    let mut out = vec![];
    for (s, a) in deref_ints(it, st.clone(), &args[0]) {
        for (s, b) in deref_ints(it, s, &args[1]) {
            let (Some(a), Some(b)) = (a.clone(), b) else { return None };
            match m {
                "eq" => out.push((s, Val::Bool(eq(&a, &b)))),
                "ne" => out.push((s, Val::Bool(eq(&a, &b).not().norm()))),
                "lt" => out.push((s, Val::Bool(lt(&a, &b)))),
                "le" => out.push((s, Val::Bool(ge(&b, &a)))),
                "gt" => out.push((s, Val::Bool(lt(&b, &a)))),
                "ge" => out.push((s, Val::Bool(ge(&a, &b)))),
                "cmp" => out.extend(cmp3(it, s, &a, &b)),
                "partial_cmp" => out.extend(cmp3(it, s, &a, &b).into_iter().map(|(s, v)| (s, Val::some(v)))),
                "max" | "min" => {
                    let (x, y) = split(it, s, &ge(&a, &b));
                    let (p, q) = if m == "max" { (a.clone(), b) } else { (b, a.clone()) };
                    out.extend(x.into_iter().map(|s| (s, Val::Int(p.clone()))));
                    out.extend(y.into_iter().map(|s| (s, Val::Int(q.clone()))));
                }
                "eq_ignore_ascii_case" => {
                    let fold = |l: &Lin| -> Vec<(Cond, Lin)> { vec![(between(l, 65, 90), l.plus(32)), (between(l, 65, 90).not().norm(), l.clone())] };
                    let mut c = vec![];
                    for (ca, fa) in fold(&a) {
                        for (cb, fb) in fold(&b) {
                            c.push(Cond::And(vec![ca.clone(), cb.clone(), eq(&fa, &fb)]).norm());
                        }
                    }
                    out.push((s, Val::Bool(Cond::Or(c).norm())));
                }
                "saturating_sub" | "saturating_add" => {
                    let d = if m == "saturating_sub" { a.sub(&b) } else { a.add(&b) };
                    let lo_ok = Cond::Ge(d.plus(-tlo)).norm();
                    let hi_ok = Cond::Ge(d.neg().plus(thi)).norm();
                    for s1 in it.assume(s.clone(), &lo_ok.not().norm()) {
                        out.push((s1, Val::int(tlo)));
                    }
                    for s1 in it.assume(s.clone(), &hi_ok.not().norm()) {
                        out.push((s1, Val::int(thi)));
                    }
                    for s1 in it.assume(s, &Cond::And(vec![lo_ok, hi_ok]).norm()) {
                        out.push((s1, Val::Int(d.clone())));
                    }
                }
                "checked_sub" | "checked_add" => {
                    let d = if m == "checked_sub" { a.sub(&b) } else { a.add(&b) };
                    let (x, y) = split(it, s, &between(&d, tlo, thi));
                    out.extend(x.into_iter().map(|s| (s, Val::some(Val::Int(d.clone())))));
                    out.extend(y.into_iter().map(|s| (s, Val::none())));
                }
                "unchecked_add" => out.push((s, Val::Int(a.add(&b)))),
                "unchecked_sub" => out.push((s, Val::Int(a.sub(&b)))),
                "wrapping_add" | "wrapping_sub" => {
                    let d = if m == "wrapping_sub" { a.sub(&b) } else { a.add(&b) };
                    let (x, y) = split(it, s, &between(&d, tlo, thi));
                    out.extend(x.into_iter().map(|s| (s, Val::Int(d.clone()))));
                    for s in y {
                        let l = app(&format!("wrap{thi}"), vec![Arg::L(d.clone())], Some(tlo), Some(thi), 0);
                        out.push((s, Val::Int(Lin::s(l))));
                    }
                }
                "abs_diff" => {
                    let (x, y) = split(it, s, &ge(&a, &b));
                    out.extend(x.into_iter().map(|s| (s, Val::Int(a.sub(&b)))));
                    out.extend(y.into_iter().map(|s| (s, Val::Int(b.sub(&a)))));
                }
                _ => return None,
            }
        }
    }
    Some(out)
}

fn iterators(it: &mut Interp, i: &Instance, name: &str, m: &str, k0: &str, ins: &[Ty], args: &[Val], st: &State) -> Option<R> {
    let byref = ins.first().map_or(false, |t| pointee(*t).is_some());
    match (k0, m) {
        ("Iter" | "IterMut", "next" | "next_back") if byref => {
            let p = ptr(&args[0])?;
            let mut out = vec![];
            for (s, v) in it.read(st.clone(), &p) {
                let Val::It(It::Slice { p: q, lo, hi }) = v else { return None };
                let (a, b) = split(it, s, &lt(&lo, &hi));
                for s in a {
                    let (e, nv) = if m == "next" {
                        (q.elem(&lo), It::Slice { p: q.clone(), lo: lo.plus(1), hi: hi.clone() })
                    } else {
                        (q.elem(&hi.plus(-1)), It::Slice { p: q.clone(), lo: lo.clone(), hi: hi.plus(-1) })
                    };
                    for s in it.write(s, &p, Val::It(nv)) {
                        out.push((s, Val::some(Val::Ptr(e.clone()))));
                    }
                }
                out.extend(b.into_iter().map(|s| (s, Val::none())));
            }
            return Some(out);
        }
        ("Iter" | "IterMut" | "Chars", "nth") => {
            let p = ptr(&args[0])?;
            let n = Interp::to_int(&args[1])?;
            let mut out = vec![];
            for (s, v) in it.read(st.clone(), &p) {
                match v {
                    Val::It(It::Slice { p: q, lo, hi }) => {
                        let j = lo.add(&n);
                        let (a, b) = split(it, s, &lt(&j, &hi));
                        for s in a {
                            for s in it.write(s, &p, Val::It(It::Slice { p: q.clone(), lo: j.plus(1), hi: hi.clone() })) {
                                out.push((s, Val::some(Val::Ptr(q.elem(&j)))));
                            }
                        }
                        for s in b {
                            for s in it.write(s, &p, Val::It(It::Slice { p: q.clone(), lo: hi.clone(), hi: hi.clone() })) {
                                out.push((s, Val::none()));
                            }
                        }
                    }
                    Val::It(It::Chars { o, lo, hi, idx }) if idx.is_none() => {
                        let j = lo.add(&n);
                        let (a, b) = split(it, s, &lt(&j, &hi));
                        for s in a {
                            for s in it.write(s, &p, Val::It(It::Chars { o, lo: j.plus(1), hi: hi.clone(), idx: None })) {
                                out.push((s, Val::some(Val::Int(ch(o, &j)))));
                            }
                        }
                        for s in b {
                            for s in it.write(s, &p, Val::It(It::Chars { o, lo: hi.clone(), hi: hi.clone(), idx: None })) {
                                out.push((s, Val::none()));
                            }
                        }
                    }
                    _ => return None,
                }
            }
            return Some(out);
        }
        ("Iter" | "IterMut", "len" | "size_hint" | "as_slice" | "is_empty" | "clone" | "count") => {
            let mut vs = vec![];
            match &args[0] {
                Val::Ptr(p) => vs.extend(it.read(st.clone(), p)),
                v => vs.push((st.clone(), v.clone())),
            }
            let mut out = vec![];
            for (s, v) in vs {
                let Val::It(It::Slice { p: q, lo, hi }) = v.clone() else { return None };
                let n = hi.sub(&lo);
                out.push((s, match m {
                    "len" | "count" => Val::Int(n),
                    "is_empty" => Val::Bool(eq(&n, &Lin::k(0))),
                    "as_slice" => sub(&q, &lo, &n),
                    "clone" => v,
                    _ => Val::agg(vec![Val::Int(n.clone()), Val::some(Val::Int(n))]),
                }));
            }
            return Some(out);
        }
        ("Chars" | "CharIndices", "next" | "next_back") if byref => {
            let p = ptr(&args[0])?;
            let mut out = vec![];
            for (s, v) in it.read(st.clone(), &p) {
                let Val::It(It::Chars { o, lo, hi, idx }) = v else { return None };
                let (a, b) = split(it, s, &lt(&lo, &hi));
                for s in a {
                    let (k, nv) = if m == "next" {
                        (lo.clone(), It::Chars { o, lo: lo.plus(1), hi: hi.clone(), idx: idx.clone() })
                    } else {
                        (hi.plus(-1), It::Chars { o, lo: lo.clone(), hi: hi.plus(-1), idx: idx.clone() })
                    };
                    let c = Val::Int(const_ch(o, &k));
                    let e = match &idx {
                        // idx holds the byte offset of the start of the string
                        Some(base) => Val::agg(vec![Val::Int(bsum(o, &k).sub(base)), c]),
                        None => c,
                    };
                    for s in it.write(s, &p, Val::It(nv)) {
                        out.push((s, Val::some(e.clone())));
                    }
                }
                out.extend(b.into_iter().map(|s| (s, Val::none())));
            }
            return Some(out);
        }
        ("Chars" | "CharIndices", "count") => {
            if let Val::It(It::Chars { lo, hi, .. }) = &args[0] {
                return one(st, Val::Int(hi.sub(lo)));
            }
        }
        ("Chars", "as_str") => {
            let p = ptr(&args[0])?;
            let mut out = vec![];
            for (s, v) in it.read(st.clone(), &p) {
                let Val::It(It::Chars { o, lo, hi, .. }) = v else { return None };
                let (a, b) = (bsum(o, &lo), bsum(o, &hi));
                out.push((s, Val::Ptr(Ptr { base: Base::Bytes(o), path: vec![], view: Some((a.clone(), b.sub(&a))) })));
            }
            return Some(out);
        }
        ("Chars" | "CharIndices", "clone") => {
            let p = ptr(&args[0])?;
            return Some(it.read(st.clone(), &p));
        }
        ("Range", "next" | "next_back") if byref => {
            let p = ptr(&args[0])?;
            let mut out = vec![];
            for (s, v) in it.read(st.clone(), &p) {
                let Val::Agg(a) = v else { return None };
                let (lo, hi) = (Interp::to_int(&a[0])?, Interp::to_int(&a[1])?);
                let (x, y) = split(it, s, &lt(&lo, &hi));
                for s in x {
                    let (k, f, nv) = if m == "next" { (lo.clone(), 0, lo.plus(1)) } else { (hi.plus(-1), 1, hi.plus(-1)) };
                    for s in it.write(s, &p.push(Step::Field(f)), Val::Int(nv.clone())) {
                        out.push((s, Val::some(Val::Int(k.clone()))));
                    }
                }
                out.extend(y.into_iter().map(|s| (s, Val::none())));
            }
            return Some(out);
        }
        ("RangeInclusive", "next") if byref => {
            let p = ptr(&args[0])?;
            let mut out = vec![];
            for (s, v) in it.read(st.clone(), &p) {
                let Val::Agg(a) = v else { return None };
                let (lo, hi) = (Interp::to_int(&a[0])?, Interp::to_int(&a[1])?);
                let Val::Bool(ex) = a.get(2)?.clone() else { return None };
                let more = Cond::And(vec![ex.not().norm(), ge(&hi, &lo)]).norm();
                let (x, y) = split(it, s, &more);
                for s in x {
                    let (l, g) = split(it, s, &lt(&lo, &hi));
                    for s in l {
                        for s in it.write(s, &p.push(Step::Field(0)), Val::Int(lo.plus(1))) {
                            out.push((s, Val::some(Val::Int(lo.clone()))));
                        }
                    }
                    for s in g {
                        for s in it.write(s, &p.push(Step::Field(2)), Val::bool(true)) {
                            out.push((s, Val::some(Val::Int(lo.clone()))));
                        }
                    }
                }
                out.extend(y.into_iter().map(|s| (s, Val::none())));
            }
            return Some(out);
        }
        ("Range", "len") => {
            let mut out = vec![];
            let vs = match &args[0] {
                Val::Ptr(p) => it.read(st.clone(), p),
                v => vec![(st.clone(), v.clone())],
            };
            for (s, v) in vs {
                let Val::Agg(a) = v else { return None };
                let (lo, hi) = (Interp::to_int(&a[0])?, Interp::to_int(&a[1])?);
                let (x, y) = split(it, s, &ge(&hi, &lo));
                out.extend(x.into_iter().map(|s| (s, Val::Int(hi.sub(&lo)))));
                out.extend(y.into_iter().map(|s| (s, Val::int(0))));
            }
            return Some(out);
        }
        ("Zip", "next") if byref => {
            // fields: a, b, ...
            let t = strip_refs(ins[0]);
            let (ta, tb) = (type_arg(t, 0)?, type_arg(t, 1)?);
            let (na, nb) = (iter_next(ta, false)?, iter_next(tb, false)?);
            let p = ptr(&args[0])?;
            let mut out = vec![];
            let r = it.call(&na, vec![Val::Ptr(p.push(Step::Field(0)))], st.clone());
            for (s, x) in r {
                for (s, x) in opt_split(it, s, x) {
                    match x {
                        None => out.push((s, Val::none())),
                        Some(x) => {
                            let r = stash(it, s, vec![x], |it, s| it.call(&nb, vec![Val::Ptr(p.push(Step::Field(1)))], s));
                            for (s, x, y) in r {
                                for (s, y) in opt_split(it, s, y) {
                                    match y {
                                        None => out.push((s, Val::none())),
                                        Some(y) => out.push((s, Val::some(Val::agg(vec![x[0].clone(), y])))),
                                    }
                                }
                            }
                        }
                    }
                }
            }
            return Some(out);
        }
        (_, "zip") if args.len() == 2 && name.contains("Iterator") => {
            let f = ins[1];
            if is_iterator_ty(f) {
                return one(st, Val::agg(vec![args[0].clone(), args[1].clone()]));
            }
        }
        (_, "into_iter") if matches!(k0, "Vec" | "[]" | "[N]") && byref => {
            return Some(flat(seqs(it, st.clone(), &args[0]), |s, p| {
                let n = view(&p).1;
                vec![(s, Val::It(It::Slice { p, lo: Lin::k(0), hi: n }))]
            }));
        }
        _ => {}
    }
    // consumers: use the trait's own default body, a plain loop over `next`
    let own = match m {
        "count" | "max" | "min" => 0,
        "sum" | "find" | "any" | "all" | "position" | "for_each" => 1,
        "fold" | "find_map" | "rfind" | "max_by_key" | "min_by_key" => 2,
        "rfold" => 2,
        "try_fold" | "try_rfold" => 3,
        "last" => 0,
        _ => return None,
    };
    let tr = if matches!(m, "rfold" | "try_rfold" | "rfind") { "DoubleEndedIterator" } else { "Iterator" };
    let own = if m == "rfind" { 1 } else { own };
    if !(name.contains("Iterator")) {
        return None;
    }
    let self_ty = match (m, rigid(ins[0])) {
        ("find" | "find_map" | "any" | "all" | "position" | "try_fold" | "try_rfold" | "rfind", Some(RigidTy::Ref(_, t, _))) => t,
        _ => ins[0],
    };
    let d = default_instance(tr, m, self_ty, &own_tys(i, own))?;
    if d == *i {
        return None;
    }
    let b = it.body_of(&d)?;
    Some(it.exec(&d, &b, args.to_vec(), st.clone()))
}
fn is_iterator_ty(t: Ty) -> bool {
    iter_next(t, false).is_some() && !matches!(rigid(t), Some(RigidTy::Ref(..)))
}
pub fn const_ch(o: O, k: &Lin) -> Lin {
    let n = obj_name(o);
    if let (Some(s), Some(c)) = (n.strip_prefix("str:"), k.is_const()) {
        if let Some(c) = s.chars().nth(c as usize) {
            return Lin::k(c as i128);
        }
    }
    ch(o, k)
}
/// splits an Option value
pub fn opt_split(it: &mut Interp, st: State, v: Val) -> Vec<(State, Option<Val>)> {
    match v {
        Val::Enum(d, m) => {
            let mut out = vec![];
            for s in it.assume(st.clone(), &eq(&d, &Lin::k(1))) {
                out.push((s, Some(m.get(&1).and_then(|x| x.first()).cloned().unwrap_or(Val::Undef))));
            }
            for s in it.assume(st, &eq(&d, &Lin::k(0))) {
                out.push((s, None));
            }
            out
        }
        _ => {
            let mut st = st;
            st.poison("unmodelled option");
            vec![(st.clone(), None), (st, Some(Val::Top(UNK)))]
        }
    }
}

fn memchr(it: &mut Interp, m: &str, k0: &str, args: &[Val], st: &State) -> Option<R> {
    let nn = match m {
        "memchr" | "memrchr" => 1,
        "memchr2" | "memrchr2" => 2,
        "memchr3" | "memrchr3" => 3,
        _ => 0,
    };
    if nn > 0 {
        let needles: Option<Vec<Lin>> = args[..nn].iter().map(Interp::to_int).collect();
        let needles = needles?;
        let back = m.starts_with("memr");
        return Some(flat(seqs(it, st.clone(), &args[nn]), |s, p| {
            search(it, s, &p, &needles, back)
                .into_iter()
                .map(|(s, k)| (s, match k {
                    Some(k) => Val::some(Val::Int(k)),
                    None => Val::none(),
                }))
                .collect()
        }));
    }
    let nn = match k0 {
        "Memchr" => 1,
        "Memchr2" => 2,
        "Memchr3" => 3,
        _ => 0,
    };
    if m == "new" || (nn == 0 && m.ends_with("_iter")) {
        let n = args.len() - 1;
        let needles: Option<Vec<Lin>> = args[..n].iter().map(Interp::to_int).collect();
        let needles = needles?;
        return Some(flat(seqs(it, st.clone(), &args[n]), |s, p| {
            vec![(s, Val::It(It::Memchr { p, pos: Lin::k(0), needles: needles.clone() }))]
        }));
    }
    if nn > 0 && m == "next" {
        let q = ptr(&args[0])?;
        let mut out = vec![];
        for (s, v) in it.read(st.clone(), &q) {
            let Val::It(It::Memchr { p, pos, needles }) = v else { return None };
            let (off, n) = view(&p);
            let mut rest = p.clone();
            rest.view = Some((off.add(&pos), n.sub(&pos)));
            for (s, k) in search(it, s, &rest, &needles, false) {
                match k {
                    Some(k) => {
                        let k = k.add(&pos);
                        for s in it.write(s, &q, Val::It(It::Memchr { p: p.clone(), pos: k.plus(1), needles: needles.clone() })) {
                            out.push((s, Val::some(Val::Int(k.clone()))));
                        }
                    }
                    None => {
                        for s in it.write(s, &q, Val::It(It::Memchr { p: p.clone(), pos: n.clone(), needles: needles.clone() })) {
                            out.push((s, Val::none()));
                        }
                    }
                }
            }
        }
        return Some(out);
    }
    None
}

fn vecs(it: &mut Interp, m: &str, ins: &[Ty], out_t: Ty, args: &[Val], st: &State) -> Option<R> {
    // a Vec passed by value
    let (vp, vs): (Option<Ptr>, Vec<(State, Val)>) = match &args[0] {
        Val::Ptr(p) => (Some(p.clone()), it.read(st.clone(), p)),
        v => (None, vec![(st.clone(), v.clone())]),
    };
    let mut out = vec![];
    for (s, v) in vs {
        let Val::Vec(h, n) = v else {
            return None;
        };
        let seq = Ptr { base: Base::Heap(h), path: vec![], view: Some((Lin::k(0), n.clone())) };
        let set_len = |it: &mut Interp, s: State, l: Lin, r: Val| -> R {
            match &vp {
                Some(p) => it.write(s, p, Val::Vec(h, l)).into_iter().map(|s| (s, r.clone())).collect(),
                None => vec![(s, r)],
            }
        };
        match m {
            "len" => out.push((s, Val::Int(n))),
            "is_empty" => out.push((s, Val::Bool(eq(&n, &Lin::k(0))))),
            "capacity" => {
                let c = fresh("cap", Some(0), Some(i64::MAX as i128), UNK);
                out.push((s, Val::Int(Lin::s(c))))
            }
            "reserve" | "reserve_exact" | "shrink_to_fit" | "shrink_to" => out.push((s, Val::unit())),
            "deref" | "deref_mut" | "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" | "leak" => out.push((s, Val::Ptr(seq))),
            "iter" | "iter_mut" => out.push((s, Val::It(It::Slice { p: seq, lo: Lin::k(0), hi: n }))),
            "clone" => {
                let mut s = s;
                let o = (**s.heap.get(&h)?).clone();
                let h2 = s.alloc(o);
                out.push((s, Val::Vec(h2, n)));
            }
            "push" => {
                let mut s = s;
                Interp::seq_push(&mut s, h, W::Set(n.clone(), args[1].clone()));
                out.extend(set_len(it, s, n.plus(1), Val::unit()));
            }
            "pop" => {
                let (a, b) = split(it, s, &ge(&n, &Lin::k(1)));
                for s in a {
                    for (s, x) in it.seq_read(s, h, &n.plus(-1)) {
                        out.extend(set_len(it, s, n.plus(-1), Val::some(x)));
                    }
                }
                out.extend(fieldless_opt(b, Val::none()));
            }
            "insert" => {
                let k = Interp::to_int(&args[1])?;
                for mut s in it.oblige(s, &ge(&n, &k), "index", "insertion index in bounds") {
                    Interp::seq_push(&mut s, h, W::Ins(k.clone(), args[2].clone()));
                    out.extend(set_len(it, s, n.plus(1), Val::unit()));
                }
            }
            "remove" => {
                let k = Interp::to_int(&args[1])?;
                for s in it.oblige(s, &lt(&k, &n), "index", "removal index in bounds") {
                    for (mut s, x) in it.seq_read(s, h, &k) {
                        Interp::seq_push(&mut s, h, W::Del(k.clone(), k.plus(1)));
                        out.extend(set_len(it, s, n.plus(-1), x));
                    }
                }
            }
            "truncate" => {
                let k = Interp::to_int(&args[1])?;
                let (a, b) = split(it, s, &lt(&k, &n));
                for s in a {
                    out.extend(set_len(it, s, k.clone(), Val::unit()));
                }
                out.extend(fieldless_opt(b, Val::unit()));
            }
            "clear" => out.extend(set_len(it, s, Lin::k(0), Val::unit())),
            "resize" => {
                let k = Interp::to_int(&args[1])?;
                let (a, b) = split(it, s, &lt(&n, &k));
                for mut s in a {
                    Interp::seq_push(&mut s, h, W::Fill(n.clone(), k.clone(), args[2].clone()));
                    out.extend(set_len(it, s, k.clone(), Val::unit()));
                }
                for s in b {
                    out.extend(set_len(it, s, k.clone(), Val::unit()));
                }
            }
            "extend_from_slice" => {
                let h0 = h;
                for (s, p) in seqs(it, s, &args[1]) {
                    let p = p?;
                    let (off, k) = view(&p);
                    let e = p.clone();
                    let _ = off;
                    let i = Lin::s(idx()).sub(&n);
                    // only symbolic sources have an index-parametric element
                    match &e.base {
                        Base::Sym(_) => {
                            for (mut s, x) in it.read(s, &e.elem(&i)) {
                                Interp::seq_push(&mut s, h0, W::Fill(n.clone(), n.add(&k), x));
                                out.extend(set_len(it, s, n.add(&k), Val::unit()));
                            }
                        }
                        _ => return None,
                    }
                }
            }
            "drain" => {
                let t = ins[1];
                let (lo, hi) = range_of(it, &s, &args[1], t, &n)?;
                let c = Cond::And(vec![ge(&hi, &lo), ge(&n, &hi)]).norm();
                for mut s in it.oblige(s, &c, "slice", "slice range in bounds") {
                    // the iterator itself is only usable by dropping it
                    Interp::seq_push(&mut s, h, W::Del(lo.clone(), hi.clone()));
                    out.extend(set_len(it, s, n.sub(&hi).add(&lo), Val::Top(0)));
                }
            }
            "swap_remove" | "split_off" | "append" | "retain" | "retain_mut" | "dedup" | "dedup_by" | "dedup_by_key" | "splice" | "extend" | "extend_trusted" => {
                let mut s = s;
                let f = fresh_fn("havoc");
                Interp::seq_push(&mut s, h, W::Havoc(f, UNK));
                let l = Lin::s(fresh("veclen", Some(0), Some(i64::MAX as i128), UNK));
                let r = if pointee(out_t).is_none() && adt_last(out_t) != "" { Val::Top(UNK) } else { Val::unit() };
                for s in set_len(it, s, l, r) {
                    out.push(s);
                }
            }
            "index" | "index_mut" => {
                let t = ins[1];
                out.extend(index(it, s, &seq, &args[1], t)?);
            }
            "eq" | "ne" => {
                return slices_eq(it, m, args, st);
            }
            _ => return None,
        }
    }
    Some(out)
}
fn index(it: &mut Interp, s: State, p: &Ptr, i: &Val, t: Ty) -> Option<R> {
    let (_, n) = view(p);
    if int_bounds(t).is_some() {
        let k = Interp::to_int(i)?;
        return Some(it.oblige(s, &Cond::And(vec![Cond::Ge(k.clone()), lt(&k, &n)]).norm(), "index", "index in bounds").into_iter().map(|s| (s, Val::Ptr(p.elem(&k)))).collect());
    }
    let (lo, hi) = range_of(it, &s, i, t, &n)?;
    Some(slice_range(it, s, p, &lo, &hi))
}
fn get(it: &mut Interp, s: State, p: &Ptr, i: &Val, t: Ty) -> Option<R> {
    let (_, n) = view(p);
    if int_bounds(t).is_some() {
        let k = Interp::to_int(i)?;
        let (a, b) = split(it, s, &lt(&k, &n));
        let mut out: R = a.into_iter().map(|s| (s, Val::some(Val::Ptr(p.elem(&k))))).collect();
        out.extend(fieldless_opt(b, Val::none()));
        return Some(out);
    }
    let (lo, hi) = range_of(it, &s, i, t, &n)?;
    if matches!(p.base, Base::Bytes(_)) {
        return None;
    }
    let (a, b) = split(it, s, &Cond::And(vec![ge(&hi, &lo), ge(&n, &hi)]).norm());
    let mut out: R = a.into_iter().map(|s| (s, Val::some(sub(p, &lo, &hi.sub(&lo))))).collect();
    out.extend(fieldless_opt(b, Val::none()));
    Some(out)
}
/// element-wise comparison when one side has a small constant length
fn slices_eq(it: &mut Interp, m: &str, args: &[Val], st: &State) -> Option<R> {
    let mut out = vec![];
    for (s, p) in seqs(it, st.clone(), &args[0]) {
        let p = p?;
        for (s, q) in seqs(it, s, &args[1]) {
            let q = q?;
            let (np, nq) = (view(&p).1, view(&q).1);
            let most = if np.is_const().is_some() && nq.is_const().is_some() { 1000 } else { 8 };
            if let (Some(a), Some(b)) = (np.is_const(), nq.is_const()) {
                if a != b {
                    out.push((s, Val::bool(m != "eq")));
                    continue;
                }
            }
            let k = np.is_const().or(nq.is_const()).filter(|k| *k <= most);
            let Some(k) = k else {
                if p == q {
                    out.push((s, Val::bool(m == "eq")));
                    continue;
                }
                let b = Interp::opaque_bool("sliceeq", UNK);
                out.push((s, b));
                continue;
            };
            let (a, b) = split(it, s, &eq(&np, &nq));
            out.extend(fieldless_opt(b, Val::bool(m != "eq")));
            let mut cur: Vec<(State, Vec<Cond>)> = a.into_iter().map(|s| (s, vec![])).collect();
            for j in 0..k {
                let mut nx = vec![];
                for (s, c) in cur {
                    for (s, x) in it.read(s, &p.elem(&Lin::k(j))) {
                        for (s, y) in it.read(s, &q.elem(&Lin::k(j))) {
                            let (Some(x), Some(y)) = (Interp::to_int(&x), Interp::to_int(&y)) else { return None };
                            let mut c = c.clone();
                            c.push(eq(&x, &y));
                            nx.push((s, c));
                        }
                    }
                }
                cur = nx;
            }
            for (s, c) in cur {
                let c = Cond::And(c).norm();
                out.push((s, Val::Bool(if m == "eq" { c } else { c.not().norm() })));
            }
        }
    }
    Some(out)
}
/// the result of comparing: splits an Ordering value into states
fn ord_is(it: &mut Interp, s: State, v: &Val, want: &[u32]) -> Vec<State> {
    match v {
        Val::Enum(d, _) => {
            let c = Cond::Or(want.iter().map(|k| eq(d, &Lin::k(*k as i128))).collect()).norm();
            it.assume(s, &c)
        }
        _ => {
            let mut s = s;
            s.poison("unmodelled ordering");
            vec![s]
        }
    }
}

fn slices(it: &mut Interp, i: &Instance, m: &str, ins: &[Ty], out_t: Ty, args: &[Val], st: &State) -> Option<R> {
    let _ = i;
    if m == "eq" || m == "ne" {
        return slices_eq(it, m, args, st);
    }
    let et = match rigid(strip_refs(ins[0]))? {
        RigidTy::Slice(t) => t,
        RigidTy::Array(t, _) => t,
        _ => return None,
    };
    let _ = et;
    let mut bad = false;
    let r = flat(seqs(it, st.clone(), &args[0]), |s, p| {
        let (off, n) = view(&p);
        let r: Option<R> = (|| {
            Some(match m {
                "len" => vec![(s, Val::Int(n))],
                "is_empty" => vec![(s, Val::Bool(eq(&n, &Lin::k(0))))],
                "iter" | "iter_mut" => vec![(s, Val::It(It::Slice { p, lo: Lin::k(0), hi: n }))],
                "first" | "first_mut" => {
                    let (a, b) = split(it, s, &ge(&n, &Lin::k(1)));
                    let mut o = fieldless_opt(a, Val::some(Val::Ptr(p.elem(&Lin::k(0)))));
                    o.extend(fieldless_opt(b, Val::none()));
                    o
                }
                "last" | "last_mut" => {
                    let (a, b) = split(it, s, &ge(&n, &Lin::k(1)));
                    let mut o = fieldless_opt(a, Val::some(Val::Ptr(p.elem(&n.plus(-1)))));
                    o.extend(fieldless_opt(b, Val::none()));
                    o
                }
                "get" | "get_mut" => get(it, s, &p, &args[1], ins[1])?,
                "index" | "index_mut" => index(it, s, &p, &args[1], ins[1])?,
                "get_unchecked" | "get_unchecked_mut" => index(it, s, &p, &args[1], ins[1])?,
                "split_at" | "split_at_mut" => {
                    let k = Interp::to_int(&args[1])?;
                    it.oblige(s, &ge(&n, &k), "slice", "split point in bounds")
                        .into_iter()
                        .map(|s| (s, Val::agg(vec![sub(&p, &Lin::k(0), &k), sub(&p, &k, &n.sub(&k))])))
                        .collect()
                }
                "split_first" | "split_last" | "split_first_mut" | "split_last_mut" => {
                    let (a, b) = split(it, s, &ge(&n, &Lin::k(1)));
                    let v = if m.contains("first") {
                        Val::agg(vec![Val::Ptr(p.elem(&Lin::k(0))), sub(&p, &Lin::k(1), &n.plus(-1))])
                    } else {
                        Val::agg(vec![Val::Ptr(p.elem(&n.plus(-1))), sub(&p, &Lin::k(0), &n.plus(-1))])
                    };
                    let mut o = fieldless_opt(a, Val::some(v));
                    o.extend(fieldless_opt(b, Val::none()));
                    o
                }
                "fill" => {
                    let Base::Heap(h) = p.base else { return None };
                    if !p.path.is_empty() || !matches!(s.heap.get(&h).map(|o| &**o), Some(Obj::Seq(_))) {
                        return None;
                    }
                    let mut s = s;
                    Interp::seq_push(&mut s, h, W::Fill(off.clone(), off.add(&n), args[1].clone()));
                    vec![(s, Val::unit())]
                }
                "swap" => {
                    let (a, b) = (Interp::to_int(&args[1])?, Interp::to_int(&args[2])?);
                    let mut o = vec![];
                    let c = Cond::And(vec![lt(&a, &n), lt(&b, &n)]).norm();
                    for s in it.oblige(s, &c, "index", "index in bounds") {
                        for (s, x) in it.read(s, &p.elem(&a)) {
                            for (s, y) in it.read(s, &p.elem(&b)) {
                                for s in it.write(s, &p.elem(&a), y.clone()) {
                                    for s in it.write(s, &p.elem(&b), x.clone()) {
                                        o.push((s, Val::unit()));
                                    }
                                }
                            }
                        }
                    }
                    o
                }
                "copy_from_slice" | "clone_from_slice" | "reverse" | "rotate_left" | "rotate_right" | "sort" | "sort_unstable" | "sort_by" | "sort_by_key" | "sort_unstable_by" | "sort_unstable_by_key" => {
                    let mut s = s;
                    match p.base {
                        Base::Heap(h) if p.path.is_empty() => {
                            let f = fresh_fn("havoc");
                            Interp::seq_push(&mut s, h, W::Havoc(f, UNK));
                        }
                        _ => return None,
                    }
                    vec![(s, Val::unit())]
                }
                "contains" | "starts_with" | "ends_with" => {
                    let st = s.clone();
                    compare_part(it, s, &p, m, args).unwrap_or_else(|| vec![(st, Interp::opaque_bool(m, UNK))])
                }
                "partition_point" | "binary_search_by" | "binary_search_by_key" => {
                    if m == "binary_search_by_key" {
                        return None;
                    }
                    bsearch(it, s, &p, m, args, out_t)
                }
                "to_vec" | "into_vec" => return None,
                "as_ptr" | "as_mut_ptr" => return None,
                "clone" => return None,
                _ => return None,
            })
        })();
        match r {
            Some(r) => r,
            None => {
                bad = true;
                vec![]
            }
        }
    });
    if bad {
        None
    } else {
        Some(r)
    }
}
/// does a slice begin or end with another, or contain an element?
fn compare_part(it: &mut Interp, s: State, p: &Ptr, m: &str, args: &[Val]) -> Option<R> {
    let (_, n) = view(p);
    let one = |it: &mut Interp, s: &State, p: &Ptr| -> Option<Lin> {
        let mut r = it.read(s.clone(), p);
        if r.len() != 1 {
            return None;
        }
        Interp::to_int(&r.pop()?.1)
    };
    let Val::Ptr(q) = args.get(1)? else { return None };
    if m == "contains" {
        let k = n.is_const().filter(|k| *k <= 16)?;
        let x = one(it, &s, q)?;
        let all: Option<Vec<Cond>> = (0..k).map(|i| Some(eq(&one(it, &s, &p.elem(&Lin::k(i)))?, &x))).collect();
        return Some(vec![(s, Val::Bool(Cond::Or(all?).norm()))]);
    }
    let k = q.view.as_ref()?.1.is_const().filter(|k| *k <= 16)?;
    let long = ge(&n, &Lin::k(k));
    let mut out = vec![];
    for s in it.assume(s.clone(), &long) {
        let from = if m == "starts_with" { Lin::k(0) } else { n.plus(-k) };
        let all: Option<Vec<Cond>> = (0..k).map(|i| Some(eq(&one(it, &s, &p.elem(&from.plus(i)))?, &one(it, &s, &q.elem(&Lin::k(i)))?))).collect();
        out.push((s, Val::Bool(Cond::And(all?).norm())));
    }
    out.extend(it.assume(s, &long.not().norm()).into_iter().map(|s| (s, Val::bool(false))));
    Some(out)
}
fn bsearch(it: &mut Interp, s: State, p: &Ptr, m: &str, args: &[Val], out_t: Ty) -> R {
    let (_, n) = view(p);
    let mut out = vec![];
    let f = args[1].clone();
    let bt = out_t;
    let pp = m == "partition_point";
    if let Some(n) = n.is_const().filter(|n| *n <= 16) {
        return probe(it, s, p, pp, n, f, bt);
    }
    // not found / partition position k
    let k = Lin::s(fresh("pos", Some(0), Some(i64::MAX as i128), 0));
    for s in it.assume(s.clone(), &ge(&n, &k)) {
        let (has, first) = split(it, s, &ge(&k, &Lin::k(1)));
        let mut cur: Vec<State> = first;
        for s in has {
            let r = stash(it, s, vec![f.clone()], |it, s| {
                let fp = Val::Ptr(Ptr::to(Base::Local(s.frames.len() - 1, 0)));
                it.call_val(fp, vec![Val::Ptr(p.elem(&k.plus(-1)))], s, bt)
            });
            for (s, _, v) in r {
                if pp {
                    if let Val::Bool(c) = &v {
                        cur.extend(it.assume(s, c));
                    }
                } else {
                    cur.extend(ord_is(it, s, &v, &[0]));
                }
            }
        }
        for s in cur {
            let (inside, end) = split(it, s, &lt(&k, &n));
            let res = if pp { Val::Int(k.clone()) } else { Val::variant(1, vec![Val::Int(k.clone())]) };
            out.extend(end.into_iter().map(|s| (s, res.clone())));
            for s in inside {
                let r = stash(it, s, vec![f.clone()], |it, s| {
                    let fp = Val::Ptr(Ptr::to(Base::Local(s.frames.len() - 1, 0)));
                    it.call_val(fp, vec![Val::Ptr(p.elem(&k))], s, bt)
                });
                for (s, _, v) in r {
                    let v2 = if pp {
                        match &v {
                            Val::Bool(c) => it.assume(s, &c.not().norm()),
                            _ => vec![s],
                        }
                    } else {
                        ord_is(it, s, &v, &[2])
                    };
                    out.extend(v2.into_iter().map(|s| (s, res.clone())));
                }
            }
        }
    }
    if !pp {
        let j = Lin::s(fresh("hit", Some(0), Some(i64::MAX as i128), 0));
        for s in it.assume(s, &lt(&j, &n)) {
            let r = stash(it, s, vec![f.clone()], |it, s| {
                let fp = Val::Ptr(Ptr::to(Base::Local(s.frames.len() - 1, 0)));
                it.call_val(fp, vec![Val::Ptr(p.elem(&j))], s, bt)
            });
            for (s, _, v) in r {
                for s in ord_is(it, s, &v, &[1]) {
                    out.push((s, Val::variant(0, vec![Val::Int(j.clone())])));
                }
            }
        }
    }
    out
}

/// The search itself, over a slice of known length: the elements the standard
/// library looks at, in its order.
fn probe(it: &mut Interp, s: State, p: &Ptr, pp: bool, n: i128, f: Val, bt: Ty) -> R {
    fn ask(it: &mut Interp, s: State, p: &Ptr, pp: bool, k: i128, f: &Val, bt: Ty) -> [Vec<State>; 3] {
        let r = stash(it, s, vec![f.clone()], |it, s| {
            let fp = Val::Ptr(Ptr::to(Base::Local(s.frames.len() - 1, 0)));
            it.call_val(fp, vec![Val::Ptr(p.elem(&Lin::k(k)))], s, bt)
        });
        let mut o = [vec![], vec![], vec![]];
        for (s, _, v) in r {
            if pp {
                match &v {
                    Val::Bool(c) => {
                        o[0].extend(it.assume(s.clone(), c));
                        o[2].extend(it.assume(s, &c.not().norm()));
                    }
                    _ => {
                        let mut s = s;
                        s.poison("unmodelled predicate");
                        o[0].push(s);
                    }
                }
            } else if matches!(v, Val::Enum(..)) {
                for (k, o) in o.iter_mut().enumerate() {
                    o.extend(ord_is(it, s.clone(), &v, &[k as u32]));
                }
            } else {
                o[0].extend(ord_is(it, s, &v, &[0]));
            }
        }
        o
    }
    let err = |k: i128| if pp { Val::Int(Lin::k(k)) } else { Val::variant(1, vec![Val::Int(Lin::k(k))]) };
    if n == 0 {
        return vec![(s, err(0))];
    }
    let mut cur = vec![(s, 0)];
    let mut size = n;
    while size > 1 {
        let half = size / 2;
        let mut next = vec![];
        for (s, base) in cur {
            let [l, e, g] = ask(it, s, p, pp, base + half, &f, bt);
            next.extend(l.into_iter().chain(e).map(|s| (s, base + half)));
            next.extend(g.into_iter().map(|s| (s, base)));
        }
        cur = next;
        size -= half;
    }
    let mut out = vec![];
    for (s, base) in cur {
        let [l, e, g] = ask(it, s, p, pp, base, &f, bt);
        out.extend(l.into_iter().map(|s| (s, err(base + 1))));
        out.extend(e.into_iter().map(|s| (s, Val::variant(0, vec![Val::Int(Lin::k(base))]))));
        out.extend(g.into_iter().map(|s| (s, err(base))));
    }
    out
}

/// does the character at position k match a pattern: states where it does, and does not
fn char_matches(it: &mut Interp, st: State, pat: &Val, l: &Lin) -> Option<(Vec<State>, Vec<State>)> {
    let by = |it: &mut Interp, s: State, c: &Cond| (it.assume(s.clone(), c), it.assume(s, &c.clone().not().norm()));
    match pat {
        Val::Int(c) => Some(by(it, st, &eq(l, c))),
        Val::Clos(..) | Val::Fn(_) => {
            let bt = Ty::from_rigid_kind(RigidTy::Bool);
            let (mut y, mut n) = (vec![], vec![]);
            for (s, v) in it.call_val(pat.clone(), vec![Val::Int(l.clone())], st, bt) {
                let Val::Bool(c) = v else { return None };
                let (a, b) = by(it, s, &c);
                y.extend(a);
                n.extend(b);
            }
            Some((y, n))
        }
        Val::Agg(cs) => {
            let c = Cond::Or(cs.iter().map(|c| Interp::to_int(c).map(|c| eq(l, &c))).collect::<Option<_>>()?).norm();
            Some(by(it, st, &c))
        }
        Val::Ptr(p) if !matches!(p.base, Base::Bytes(_)) => {
            let n = p.view.as_ref()?.1.is_const()?;
            let mut cs = vec![];
            let mut s = st;
            for k in 0..n {
                let mut r = it.read(s, &p.elem(&Lin::k(k)));
                if r.len() != 1 {
                    return None;
                }
                let (s2, v) = r.pop()?;
                s = s2;
                cs.push(eq(l, &Interp::to_int(&v)?));
            }
            Some(by(it, s, &Cond::Or(cs).norm()))
        }
        _ => None,
    }
}
/// exact models of pattern methods, where the positions of the characters are known
#[allow(clippy::too_many_arguments)]
fn str_exact(it: &mut Interp, m: &str, ins: &[Ty], args: &[Val], st: &State, o: O, off: &Lin, end: &Lin) -> Option<R> {
    let _ = ins;
    let (k0, k1) = (cidx(o, off), cidx(o, end));
    let view = |a: &Lin, b: &Lin| Val::Ptr(Ptr { base: Base::Bytes(o), path: vec![], view: Some((a.clone(), b.sub(a))) });
    let part = |a: &Lin, b: &Lin| view(&bsum(o, a), &bsum(o, b));
    let space = |c: &Lin| char_pred("is_whitespace", c).unwrap();
    // a text: its characters
    let text: Option<Vec<Lin>> = match args.get(1) {
        Some(Val::Ptr(Ptr { base: Base::Bytes(q), view: Some((a, n)), .. })) => {
            let (a, b) = (cidx(*q, a).is_const()?, cidx(*q, &a.add(n)).is_const()?);
            Some((a..b).map(|k| const_ch(*q, &Lin::k(k))).collect())
        }
        _ => None,
    };
    let many = k1.sub(&k0).is_const();
    match m {
        "strip_prefix" | "strip_suffix" | "starts_with" | "ends_with" => {
            let front = m.ends_with("prefix") || m.starts_with("starts");
            let len = text.as_ref().map_or(1, |t| t.len() as i128);
            let (mut yes, mut no) = (vec![], vec![]);
            let long = ge(&k1.sub(&k0), &Lin::k(len));
            no.extend(it.assume(st.clone(), &long.clone().not().norm()));
            for s in it.assume(st.clone(), &long) {
                match &text {
                    Some(t) => {
                        let at = if front { k0.clone() } else { k1.plus(-len) };
                        let c = Cond::And(t.iter().enumerate().map(|(i, c)| eq(&const_ch(o, &at.plus(i as i128)), c)).collect()).norm();
                        yes.extend(it.assume(s.clone(), &c));
                        no.extend(it.assume(s, &c.not().norm()));
                    }
                    None => {
                        let at = if front { k0.clone() } else { k1.plus(-1) };
                        let (a, b) = char_matches(it, s, &args[1], &const_ch(o, &at))?;
                        yes.extend(a);
                        no.extend(b);
                    }
                }
            }
            let strip = m.starts_with("strip");
            let v = match (strip, front) {
                (false, _) => Val::bool(true),
                (_, true) => Val::some(view(&if len == 0 { off.clone() } else { bsum(o, &k0.plus(len)) }, end)),
                _ => Val::some(view(off, &if len == 0 { end.clone() } else { bsum(o, &k1.plus(-len)) })),
            };
            let n = if strip { Val::none() } else { Val::bool(false) };
            Some(yes.into_iter().map(|s| (s, v.clone())).chain(no.into_iter().map(|s| (s, n.clone()))).collect())
        }
        "trim_start" | "trim_end" | "trim" | "trim_start_matches" | "trim_end_matches" | "trim_matches" => {
            if text.is_some() {
                return None;
            }
            let n = many.unwrap_or(3);
            let mut test = |it: &mut Interp, s: State, c: &Lin| match args.get(1) {
                Some(p) => char_matches(it, s, p, c),
                None => {
                    let w = space(c);
                    Some((it.assume(s.clone(), &w), it.assume(s, &w.clone().not().norm())))
                }
            };
            let (a, b) = (m.contains("start") || !m.contains("end"), m.contains("end") || !m.contains("start"));
            if a && b && many.is_none() {
                return None;
            }
            // characters taken from the front, then from the back
            let mut done: Vec<(State, i128)> = vec![];
            let mut cur = vec![st.clone()];
            let mut open = vec![];
            if a {
                for k in 0..=n {
                    let mut next = vec![];
                    for s in cur {
                        if many.is_none() {
                            done.extend(it.assume(s.clone(), &eq(&k1.sub(&k0), &Lin::k(k))).into_iter().map(|s| (s, k)));
                        } else if k == n {
                            done.push((s, k));
                            continue;
                        }
                        let rest = if many.is_none() { it.assume(s, &ge(&k1.sub(&k0), &Lin::k(k + 1))) } else { vec![s] };
                        for s in rest {
                            if many.is_none() && k == n {
                                open.push(s);
                                continue;
                            }
                            let (y, no) = test(it, s, &const_ch(o, &k0.plus(k)))?;
                            done.extend(no.into_iter().map(|s| (s, k)));
                            next.extend(y);
                        }
                    }
                    cur = next;
                }
            } else {
                done = cur.into_iter().map(|s| (s, 0)).collect();
            }
            let mut out: R = vec![];
            for (s0, x) in done {
                if !b {
                    out.push((s0, if x == 0 { view(off, end) } else { view(&bsum(o, &k0.plus(x)), end) }));
                    continue;
                }
                let left = many.map_or(n, |n| n - x);
                let mut cur = vec![s0];
                for k in 0..=left {
                    let mut next = vec![];
                    for s in cur {
                        let v = if x == 0 && k == 0 { view(off, end) } else { part(&k0.plus(x), &k1.plus(-k)) };
                        if many.is_none() {
                            out.extend(it.assume(s.clone(), &eq(&k1.sub(&k0), &Lin::k(k))).into_iter().map(|s| (s, v.clone())));
                        } else if k == left {
                            out.push((s, v));
                            continue;
                        }
                        let rest = if many.is_none() { it.assume(s, &ge(&k1.sub(&k0), &Lin::k(k + 1))) } else { vec![s] };
                        for s in rest {
                            if many.is_none() && k == n {
                                open.push(s);
                                continue;
                            }
                            let (y, no) = test(it, s, &const_ch(o, &k1.plus(-k - 1)))?;
                            out.extend(no.into_iter().map(|s| (s, v.clone())));
                            next.extend(y);
                        }
                    }
                    cur = next;
                }
            }
            for mut s in open {
                // more than that: some position
                let x = Lin::s(fresh("trim", Some(0), None, WIDE));
                s.num.add_ge(&x.sub(off));
                s.num.add_ge(&end.sub(&x));
                s.num.add_eq(&bsum(o, &cidx(o, &x)).sub(&x));
                out.push((s, if a { view(&x, end) } else { view(off, &x) }));
            }
            Some(out)
        }
        "contains" | "find" | "rfind" => {
            let n = many?;
            let len = text.as_ref().map_or(1, |t| t.len() as i128);
            let mut cur = vec![st.clone()];
            let mut out: R = vec![];
            let mut order: Vec<i128> = (0..=n - len).collect();
            if m == "rfind" {
                order.reverse();
            }
            for k in order {
                let mut next = vec![];
                for s in cur {
                    let (y, no) = match &text {
                        Some(t) => {
                            let c = Cond::And(t.iter().enumerate().map(|(i, c)| eq(&const_ch(o, &k0.plus(k + i as i128)), c)).collect()).norm();
                            (it.assume(s.clone(), &c), it.assume(s, &c.not().norm()))
                        }
                        None => char_matches(it, s, &args[1], &const_ch(o, &k0.plus(k)))?,
                    };
                    let at = bsum(o, &k0.plus(k)).sub(off);
                    let v = if m == "contains" { Val::bool(true) } else { Val::some(Val::Int(at)) };
                    out.extend(y.into_iter().map(|s| (s, v.clone())));
                    next.extend(no);
                }
                cur = next;
            }
            let v = if m == "contains" { Val::bool(false) } else { Val::none() };
            out.extend(cur.into_iter().map(|s| (s, v.clone())));
            Some(out)
        }
        _ => None,
    }
}
fn strs(it: &mut Interp, m: &str, ins: &[Ty], args: &[Val], st: &State) -> Option<R> {
    let Val::Ptr(p) = &args[0] else { return None };
    let Base::Bytes(o) = p.base else { return None };
    let (off, n) = p.view.clone()?;
    let end = off.add(&n);
    let exact = str_exact(it, m, ins, args, st, o, &off, &end);
    match m {
        "len" => one(st, Val::Int(n)),
        "is_empty" => one(st, Val::Bool(eq(&n, &Lin::k(0)))),
        "as_bytes" | "as_str" | "as_ref" | "borrow" | "deref" => one(st, args[0].clone()),
        "is_ascii" => {
            let whole = off.is_const() == Some(0) && end == str_len(o);
            match ascii_of(o) {
                Some(true) => one(st, Val::bool(true)),
                Some(false) if whole => one(st, Val::bool(false)),
                _ => one(st, Val::Bool(Cond::sym1(Lin::s(app("str_is_ascii", vec![Arg::O(o), Arg::L(off), Arg::L(n)], Some(0), Some(1), 0))))),
            }
        }
        "chars" => one(st, Val::It(It::Chars { o, lo: cidx(o, &off), hi: cidx(o, &end), idx: None })),
        // Bytes(Copied(Iter))
        "bytes" => one(st, Val::agg(vec![Val::agg(vec![Val::It(It::Slice { p: Ptr { view: None, ..p.clone() }, lo: off, hi: end })])])),
        "char_indices" => one(st, Val::It(It::Chars { o, lo: cidx(o, &off), hi: cidx(o, &end), idx: Some(off) })),
        "is_char_boundary" => {
            let k = Interp::to_int(&args[1])?;
            let x = off.add(&k);
            one(st, Val::Bool(Cond::And(vec![ge(&n, &k), Cond::Eq(bsum(o, &cidx(o, &x)).sub(&x)).norm()]).norm()))
        }
        "index" | "index_mut" => {
            let (lo, hi) = range_of(it, st, &args[1], ins[1], &n)?;
            Some(slice_range(it, st.clone(), p, &lo, &hi))
        }
        "split_at" => {
            let k = Interp::to_int(&args[1])?;
            let mut out = vec![];
            for (s, a) in slice_range(it, st.clone(), p, &Lin::k(0), &k) {
                out.push((s, Val::agg(vec![a, sub(p, &k, &n.sub(&k))])));
            }
            Some(out)
        }
        "eq" | "ne" => {
            let Val::Ptr(q) = &args[1] else { return None };
            if q.view.is_some() {
                return slices_eq(it, m, args, st);
            }
            None
        }
        "trim_start" | "trim_end" | "trim" | "trim_start_matches" | "trim_end_matches" | "trim_matches" | "strip_prefix" | "strip_suffix" | "starts_with" | "ends_with" | "contains" | "find" | "rfind"
            if exact.is_some() =>
        {
            exact
        }
        "trim_start" | "trim_end" | "trim" | "trim_start_matches" | "trim_end_matches" | "trim_matches" | "strip_prefix" | "strip_suffix" => {
            // some sub-slice on char boundaries
            let a = Lin::s(fresh("trim", Some(0), None, WIDE));
            let b = Lin::s(fresh("trim", Some(0), None, WIDE));
            let mut s = st.clone();
            s.num.add_ge(&a.sub(&off));
            s.num.add_ge(&b.sub(&a));
            s.num.add_ge(&end.sub(&b));
            for x in [&a, &b] {
                s.num.add_eq(&bsum(o, &cidx(o, x)).sub(x));
            }
            if matches!(m, "trim_start" | "trim_start_matches" | "strip_prefix") {
                s.num.add_eq(&b.sub(&end));
            }
            let v = Val::Ptr(Ptr { base: Base::Bytes(o), path: vec![], view: Some((a.clone(), b.sub(&a))) });
            if m.starts_with("strip") {
                return Some(vec![(s, Val::some(v)), (st.clone(), Val::none())]);
            }
            Some(vec![(s, v)])
        }
        "find" | "rfind" => {
            let a = Lin::s(fresh("strfind", Some(0), None, WIDE));
            let mut s = st.clone();
            s.num.add_ge(&n.sub(&a));
            let x = off.add(&a);
            s.num.add_eq(&bsum(o, &cidx(o, &x)).sub(&x));
            Some(vec![(s, Val::some(Val::Int(a))), (st.clone(), Val::none())])
        }
        "starts_with" | "ends_with" | "contains" => one(st, Interp::opaque_bool(m, UNK)),
        _ => None,
    }
}
