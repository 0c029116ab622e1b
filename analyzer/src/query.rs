//! C10: a query is a conjunction of alternatives, some of them negated; the
//! matching of a single pattern is replaced by named atoms.
use crate::anchors::*;
use crate::interp::*;
use crate::leaf::*;
use crate::mat::*;
use crate::report::*;
use crate::roots::*;
use crate::search::*;
use crate::sem::*;
use crate::tables::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const VERDICT: &str = "a candidate matches when every condition has an alternative that matches, negated ones when not found";
pub const SUM: &str = "the distance is that of the sum of the scores of the first matching alternatives, zero for negated ones";
pub const ASKED: &str = "ranges are collected exactly for the words that count, when asked for, never for negated ones";
pub const GIVEN: &str = "words are matched as parsed against the whole candidate";
pub const KEPT: &str = "without a match the range buffer is left as it was, and earlier contents always stay";

pub fn is_str(t: Ty) -> bool {
    matches!(pointee(t).and_then(rigid), Some(RigidTy::Str))
}
pub fn char_slice(t: Ty) -> bool {
    matches!(pointee(t).and_then(rigid), Some(RigidTy::Slice(e)) if is_char(e))
}
fn range_vec(t: Ty) -> bool {
    let t = strip_refs(t);
    adt_last(t) == "Vec" && type_arg(t, 0).is_some_and(range_ty)
}
/// what a call of a matcher returns: (does it match, score)
fn outcome(kind: i128, text: O) -> (Lin, Lin) {
    let a = vec![Arg::L(Lin::k(kind)), Arg::O(text)];
    (Lin::s(app("hit", a.clone(), Some(0), Some(1), 0)), Lin::s(app("points", a, Some(-(1 << 40)), Some(1 << 40), 0)))
}
/// kinds of matcher by name, in the order of this list; fuzzy is 0
const KINDS: [&str; 5] = ["fuzzy", "exact", "prefix", "suffix", "equal"];
pub fn kind_of(name: &str) -> Option<i128> {
    let n = name.to_lowercase();
    // "PrefixExact" names a prefix
    for k in [2, 3, 4, 0, 1] {
        if n.contains(KINDS[k]) {
            return Some(k as i128);
        }
    }
    None
}

pub struct Q {
    pub kit: Kit,
    /// the enum with the parsed query: (type, variant of conditions, variant of one pattern)
    pub mode: Ty,
    pub ext: u32,
    pub one: u32,
    distance: Ty,
    from_score: Option<Instance>,
}
/// the struct or enum value of type `t` inside `v`
pub fn find<'a>(v: &'a Val, ty: Ty, t: Ty) -> Option<&'a Val> {
    if same(ty, t) {
        return Some(v);
    }
    match v {
        Val::Agg(fs) => field_tys(ty, 0).iter().zip(fs.iter()).find_map(|((_, ft), fv)| find(fv, *ft, t)),
        _ => None,
    }
}
impl Q {
    pub fn new(rep: &mut Rep) -> Option<Q> {
        let kit = Kit::new(rep)?;
        let pat = kit.pf.ty;
        let slice_elem = |t: Ty| match pointee(t).and_then(rigid) {
            Some(RigidTy::Slice(e)) => Some(e),
            _ => None,
        };
        let holds_patterns = |t: Ty| field_tys(t, 0).iter().any(|(_, f)| slice_elem(*f).is_some_and(|e| same(e, pat)));
        let mode = kit.w.adts.values().copied().find(|t| {
            variant_names(*t).len() == 2 && (0..2).any(|v| matches!(&field_tys(*t, v)[..], [(_, f)] if same(*f, pat))) && (0..2).any(|v| matches!(&field_tys(*t, v)[..], [(_, f)] if slice_elem(*f).is_some_and(holds_patterns)))
        });
        let Some(mode) = mode else {
            rep.err("no type holds either conditions or a single pattern".into());
            return None;
        };
        let one = (0..2).find(|v| same(field_tys(mode, *v)[0].1, pat))? as u32;
        let distance = kit.w.fns.iter().find_map(|f| {
            let (a, _) = sig(f)?;
            let r = ret(f)?;
            (a.iter().any(|t| is_str(*t)) && a.iter().any(|t| contains(strip_refs(*t), mode)) && adt_last(r) == "Option").then(|| type_arg(r, 0)).flatten()
        });
        let Some(distance) = distance else {
            rep.err("no function matches a query against a str".into());
            return None;
        };
        let from_score = kit.w.fns.iter().find(|f| matches!((sig(f), ret(f)), (Some((a, _)), Some(r)) if a.len() == 1 && int_ty(a[0]) && same(r, distance) && f.body().is_some() && def_path(f).contains("::from"))).cloned();
        Some(Q { kit, mode, ext: 1 - one, one, distance, from_score })
    }
}
pub fn contains(t: Ty, m: Ty) -> bool {
    same(t, m) || (variant_names(t).len() == 1 && field_tys(t, 0).iter().any(|(_, f)| same(*f, m)))
}

#[derive(Clone, Copy)]
struct Shape {
    /// alternatives per condition; none: a single pattern
    alts: &'static [i128],
    single: bool,
    /// which alternatives are negated (None: any)
    neg: Option<u32>,
}

/// C10
pub fn queries(rep: &mut Rep) {
    let Some(q) = Q::new(rep) else { return };
    let mut n = 0;
    for (f, ranges) in entries(&q) {
        n += 1;
        for s in SHAPES {
            for ascii in [true, false] {
                query(rep, &q, &f, None, ranges, *s, ascii);
            }
        }
    }
    if n == 0 {
        rep.err("no public entry point matches a query".into());
    }
}
/// C03
pub fn twin_queries(rep: &mut Rep) {
    let Some(q) = Q::new(rep) else { return };
    let mut n = 0;
    let es = entries(&q);
    let owner = |f: &Instance| arg_tys(f)[0];
    for (f, _) in es.iter().filter(|e| e.1) {
        let Some((g, _)) = es.iter().find(|(g, r)| !r && same(strip_refs(owner(g)), strip_refs(owner(f)))) else { continue };
        n += 1;
        for s in SHAPES {
            for ascii in [true, false] {
                query(rep, &q, f, Some(g), true, *s, ascii);
            }
        }
    }
    if n == 0 {
        rep.err("no pair of entry points with and without ranges".into());
    }
}
const SHAPES: &[Shape] = &[
    Shape { alts: &[], single: true, neg: None },
    Shape { alts: &[], single: false, neg: None },
    Shape { alts: &[1], single: false, neg: None },
    Shape { alts: &[2], single: false, neg: Some(0) },
    Shape { alts: &[2], single: false, neg: Some(1) },
    Shape { alts: &[3], single: false, neg: Some(2) },
    Shape { alts: &[1, 1], single: false, neg: Some(0) },
    Shape { alts: &[1, 1], single: false, neg: Some(2) },
    Shape { alts: &[1, 1], single: false, neg: Some(1) },
    Shape { alts: &[1, 2, 1], single: false, neg: Some(0b0100) },
    Shape { alts: &[2, 2], single: false, neg: Some(0b0110) },
    Shape { alts: &[3, 2], single: false, neg: Some(0) },
    Shape { alts: &[2, 1, 2], single: false, neg: Some(0b10101) },
    Shape { alts: &[1, 1, 1, 1], single: false, neg: Some(0b0100) },
];
/// the entry points: a metric, a query, a candidate and perhaps a buffer
fn entries(q: &Q) -> Vec<(Instance, bool)> {
    let mut out = vec![];
    for f in &q.kit.w.fns {
        let (Some((a, _)), Some(r)) = (sig(f), ret(f)) else { continue };
        let ok = a.len() >= 3
            && is_str(a[2])
            && contains(strip_refs(a[1]), q.mode)
            && adt_last(r) == "Option"
            && type_arg(r, 0).is_some_and(|t| same(t, q.distance))
            && (a.len() == 3 || a.len() == 4 && range_vec(a[3]))
            && !def_path(f).contains("closure")
            && is_metric(f);
        if !ok {
            continue;
        }
        out.push((f.clone(), a.len() == 4));
    }
    out
}
/// a method of the public trait, not one of its helpers
fn is_metric(f: &Instance) -> bool {
    !f.name().to_string().contains("<true>") && !f.name().to_string().contains("<false>")
}

fn query(rep: &mut Rep, q: &Q, f: &Instance, twin: Option<&Instance>, ranges: bool, sh: Shape, ascii: bool) {
    fresh_world();
    let arg = arg_tys(f);
    let qt = strip_refs(arg[1]);
    let path = std::iter::once(String::from("a1"))
        .chain((!same(qt, q.mode)).then(|| field_tys(qt, 0).iter().find(|(_, f)| same(*f, q.mode)).map(|x| x.0.clone())).flatten())
        .collect::<Vec<_>>()
        .join(".");
    pin(&format!("{path}.disc"), if sh.single { q.one } else { q.ext } as i128);
    let vn = variant_names(q.mode)[q.ext as usize].clone();
    if !sh.single {
        pin(&format!("{path}.{vn}.0.len"), sh.alts.len() as i128);
    }
    set_ascii("a2", ascii);
    let pf = q.kit.pf.clone();
    let kinds = variant_names(field_tys(pf.ty, 0)[pf.kind].1);
    let kind_idx: Vec<Option<i128>> = kinds.iter().map(|n| kind_of(n)).collect();
    if kind_idx.iter().any(|k| k.is_none()) {
        rep.err("the kinds of pattern are not the known ones".into());
        return;
    }
    let variant_of = |k: i128| kind_idx.iter().position(|x| *x == Some(k)).unwrap_or(0) as i128;
    // conditions and patterns as the query holds them
    let slice_elem = |t: Ty| match pointee(t).and_then(rigid) {
        Some(RigidTy::Slice(e)) => Some(e),
        _ => None,
    };
    let Some(cond_ty) = slice_elem(field_tys(q.mode, q.ext as usize)[0].1) else { return };
    let patterns = |args: &[Val]| -> Option<Vec<Vec<Val>>> {
        let m = find(&args[1], qt, q.mode)?;
        let Val::Enum(_, vs) = m else { return None };
        if sh.single {
            return Some(vec![vec![vs.get(&q.one)?.first()?.clone()]]);
        }
        let (o, off, _) = slice_of(vs.get(&q.ext)?.first()?)?;
        let mut out = vec![];
        for (i, n) in sh.alts.iter().enumerate() {
            let Val::Agg(c) = elem(cond_ty, o, &off.plus(i as i128)) else { return None };
            let k = field_tys(cond_ty, 0).iter().position(|(_, f)| slice_elem(*f).is_some_and(|e| same(e, pf.ty)))?;
            let (po, poff, _) = slice_of(&c[k])?;
            out.push((0..*n).map(|j| elem(pf.ty, po, &poff.plus(j))).collect());
        }
        Some(out)
    };
    let pre = |args: &[Val]| {
        let mut c = vec![];
        let Some(ps) = patterns(args) else { return Cond::T };
        let m = find(&args[1], qt, q.mode);
        if let (Some(Val::Enum(_, vs)), false) = (m, sh.single) {
            if let Some((o, off, _)) = vs.get(&q.ext).and_then(|x| x.first()).and_then(slice_of) {
                for (i, n) in sh.alts.iter().enumerate() {
                    if let Val::Agg(cs) = elem(cond_ty, o, &off.plus(i as i128)) {
                        for x in cs.iter() {
                            if let Some((_, _, l)) = slice_of(x) {
                                c.push(eqk(&l, *n));
                            }
                        }
                    }
                }
            }
        }
        let mut t = 0;
        for p in ps.iter().flatten() {
            let Val::Agg(fs) = p else { continue };
            if let Some((_, _, l)) = slice_of(&fs[pf.text]) {
                if !sh.single {
                    c.push(ge(&l, &Lin::k(1)));
                }
            }
            if let (Some(neg), Some(k), Some(i)) = (sh.neg, int(&fs[pf.kind]), inverse(&fs[pf.inverse])) {
                c.push(eqk(&k, variant_of((t + 1) % 5)));
                c.push(if neg >> t & 1 == 1 { i } else { i.not() });
            }
            t += 1;
        }
        Cond::And(c).norm()
    };
    let cand_ty = q.kit.cand;
    let run = |f: &Instance| {
        run_pre_with(f, hooks(q), 3000, &pre, |it| {
            it.opaque_ty.clear();
            it.peel = 6;
        })
    };
    let r = run(f);
    rep.absorb(&r.it);
    if let Some(g) = twin {
        let mut r = r;
        let other = run(g);
        rep.absorb(&other.it);
        let how = if sh.single { "query of one pattern".into() } else { format!("query of alternatives {:?}", sh.alts) };
        crate::twins::both(rep, &mut r, &other, &how, &loc(f));
        return;
    }
    let it = &r.it;
    let _ = cand_ty;
    let wher = loc(f);
    let Some(ps) = patterns(&r.args) else {
        rep.err("the conditions of a query could not be read".into());
        return;
    };
    let how = format!(
        "{}{}{}",
        if sh.single { "one pattern".into() } else { format!("alternatives {:?}", sh.alts) },
        match sh.neg {
            Some(n) if n != 0 => format!(" negated {n:b}"),
            _ => String::new(),
        },
        if ranges { ", with ranges" } else { "" }
    );
    let mut t = Tally::new(rep);
    if it.overflow || r.rets.is_empty() {
        t.add(Verdict::Unproven, VERDICT, &how, &wher, || "the analysis gave up".into());
    }
    // truth of each alternative
    struct Alt {
        pass: Cond,
        inv: Cond,
        points: Lin,
        hit: Lin,
        shown: String,
        text: O,
        empty: Cond,
    }
    for (s, v) in &r.rets {
        let when = || format!("{} when {}", show_val(v), show_num(&s.num));
        crate::fuzzy::unchanged(&mut t, it, &r.st0, s, &r.args[0], arg_tys(f)[0], &how, &wher);
        let Val::Enum(d, pl) = v else {
            t.add(Verdict::Unproven, VERDICT, &how, &wher, when);
            continue;
        };
        // the kind of every alternative in this state
        let mut worlds: Vec<(State, Vec<Vec<Alt>>)> = vec![(s.clone(), vec![])];
        for c in &ps {
            for w in worlds.iter_mut() {
                w.1.push(vec![]);
            }
            for p in c {
                let Val::Agg(fs) = p else { continue };
                let (Some(k), Some(i), Some((text, _, len))) = (int(&fs[pf.kind]), inverse(&fs[pf.inverse]), slice_of(&fs[pf.text])) else { continue };
                let mut next = vec![];
                for (s, done) in worlds {
                    for (kv, name) in kind_idx.iter().enumerate() {
                        let (y, _) = split(it, vec![s.clone()], &if sh.single { Cond::T } else { eqk(&k, kv as i128) });
                        for s in y {
                            let (hit, points) = outcome(if sh.single { 0 } else { name.unwrap() }, text);
                            let h = eqk(&hit, 1);
                            let i = if sh.single { Cond::F } else { i.clone() };
                            let pass = Cond::Or(vec![Cond::And(vec![i.clone(), h.not()]), Cond::And(vec![i.not(), h])]).norm();
                            let mut d2: Vec<Vec<Alt>> = done.iter().map(|c| c.iter().map(|a| Alt { pass: a.pass.clone(), inv: a.inv.clone(), points: a.points.clone(), hit: a.hit.clone(), shown: a.shown.clone(), text: a.text, empty: a.empty.clone() }).collect()).collect();
                            d2.last_mut().unwrap().push(Alt { pass, inv: i, points, hit, shown: show_val(p), text, empty: eqk(&len, 0) });
                            next.push((s, d2));
                        }
                        if sh.single {
                            break;
                        }
                    }
                }
                worlds = next;
            }
        }
        for (s, alts) in &worlds {
            // ways to choose the first matching alternative of every condition
            let mut ways: Vec<(Vec<Cond>, Lin, Vec<(usize, usize)>)> = vec![(vec![], Lin::k(0), vec![])];
            for (ci, c) in alts.iter().enumerate() {
                let mut nx = vec![];
                for (w, sum, who) in &ways {
                    for (j, a) in c.iter().enumerate() {
                        let mut w = w.clone();
                        w.extend(c[..j].iter().map(|b| b.pass.not()));
                        w.push(a.pass.clone());
                        let mut who = who.clone();
                        who.push((ci, j));
                        for neg in [true, false] {
                            let mut w = w.clone();
                            w.push(if neg { a.inv.clone() } else { a.inv.not() });
                            let c = Cond::And(w.clone()).norm();
                            if it.entails(&s.num, &c.not()) {
                                continue;
                            }
                            nx.push((w, if neg { sum.clone() } else { sum.add(&a.points) }, who.clone()));
                        }
                    }
                }
                ways = nx;
            }
            let empty = if sh.single { alts[0][0].empty.clone() } else { Cond::F };
            let passes = Cond::Or(ways.iter().map(|w| Cond::And(w.0.clone()).norm()).chain([empty.clone()]).collect()).norm();
            let some = eqk(d, 1);
            // match or not
            let (y, n) = split(it, vec![s.clone()], &some);
            for s in &n {
                t.add(it.strict(s, &passes.not()), VERDICT, &format!("no match: {how}"), &wher, when);
            }
            for s in &y {
                t.add(it.strict(s, &passes), VERDICT, &format!("match: {how}"), &wher, when);
                let Some(dist) = pl.get(&1).and_then(|x| x.first()) else { continue };
                let mut want: Vec<(Cond, Lin)> = ways.iter().map(|w| (Cond::And(w.0.iter().cloned().chain([empty.not()]).collect()).norm(), w.1.clone())).collect();
                want.push((empty.clone(), Lin::k(0)));
                for (c, sum) in want {
                    let (y, _) = split(it, vec![s.clone()], &c);
                    for s in &y {
                        let Some(w) = expected(q, s, &sum) else {
                            t.add(Verdict::Unproven, SUM, &how, &wher, when);
                            continue;
                        };
                        match (int_in(dist), int_in(&w)) {
                            (Some(a), Some(b)) => t.add(it.strict(s, &eql(&a, &b)), SUM, &how, &wher, || format!("{a:?}, not {b:?}; {}", when())),
                            _ => t.add(Verdict::Unproven, SUM, &how, &wher, when),
                        }
                    }
                }
            }
            // what was called
            let calls: Vec<(&Val, bool)> = s.ghost.iter().filter(|(k, _)| k.starts_with("call")).filter_map(|(_, v)| if let Val::Agg(x) = v { Some((&**x, ())) } else { None }).map(|(x, _)| (&x[0], matches!(x[1], Val::Bool(Cond::T)))).collect();
            let shown: Vec<&str> = alts.iter().flatten().map(|a| &a.shown[..]).collect();
            for (p, _) in &calls {
                let ok = shown.contains(&&show_val(p)[..]);
                t.add(if ok { Verdict::Proved } else { it.strict(s, &Cond::F) }, GIVEN, &format!("pattern: {how}"), &wher, || format!("{} is matched; {}", show_val(p), when()));
            }
            for c in s.ghost.iter().filter(|(k, _)| k.starts_with("cand")).map(|x| x.1) {
                let ok = whole(q, c, &r.args[2], ascii);
                t.add(if ok { Verdict::Proved } else { it.strict(s, &Cond::F) }, GIVEN, &format!("candidate: {how}, {}", if ascii { "ASCII" } else { "not ASCII" }), &wher, || format!("{} is searched; {}", show_val(c), when()));
            }
            for a in alts.iter().flatten() {
                let with: Vec<bool> = calls.iter().filter(|(p, _)| text_of(p, &pf) == Some(a.text)).map(|x| x.1).collect();
                let asked = with.iter().any(|x| *x);
                if asked {
                    let v = if ranges { it.strict(s, &a.inv.not()) } else { Verdict::Proved };
                    t.add(v, ASKED, &format!("negated: {how}"), &wher, when);
                }
            }
            if ranges {
                for w in &ways {
                    for (ci, j) in &w.2 {
                        let a = &alts[*ci][*j];
                        let asked = calls.iter().any(|(p, r)| *r && text_of(p, &pf) == Some(a.text));
                        if asked {
                            continue;
                        }
                        let bad = Cond::And(vec![some.clone(), Cond::And(w.0.clone()).norm(), a.inv.not(), empty.not(), eqk(&a.hit, 1)]).norm();
                        t.add(it.strict(s, &bad.not()), ASKED, &format!("counted: {how}"), &wher, when);
                    }
                }
                kept(&mut t, it, s, &r, &some, &how, &wher);
            }
        }
    }
    t.done();
}
/// the boolean that negates a pattern
pub fn inverse(v: &Val) -> Option<Cond> {
    match v {
        Val::Bool(c) => Some(c.clone()),
        Val::Int(l) => Some(eqk(l, 1)),
        _ => None,
    }
}
fn int_in(v: &Val) -> Option<Lin> {
    match v {
        Val::Int(l) => Some(l.clone()),
        Val::Agg(x) if x.len() == 1 => int_in(&x[0]),
        _ => None,
    }
}
fn text_of(p: &Val, pf: &PatFields) -> Option<O> {
    match p {
        Val::Agg(fs) => slice_of(&fs[pf.text]).map(|x| x.0),
        _ => None,
    }
}
/// the distance of a score
fn expected(q: &Q, s: &State, sum: &Lin) -> Option<Val> {
    let Some(f) = &q.from_score else { return None };
    let mut it = Interp::new();
    let mut r = it.call(f, vec![Val::Int(sum.clone())], s.clone());
    if r.len() != 1 {
        return None;
    }
    r.pop().map(|x| x.1)
}
/// is `c` the whole candidate `a`
fn whole(q: &Q, c: &Val, a: &Val, ascii: bool) -> bool {
    let Val::Enum(d, vs) = c else { return false };
    let Some(k) = d.is_const() else { return false };
    let Val::Ptr(p) = a else { return false };
    let Some((_, len)) = &p.view else { return false };
    let Some(Val::Ptr(x)) = vs.get(&(k as u32)).and_then(|x| x.first()) else { return false };
    if ascii {
        k == q.kit.asc as i128 && x.base == p.base && x.path == p.path && x.view.as_ref().is_some_and(|(o, l)| *o == Lin::k(0) && l == len)
    } else {
        k == q.kit.uni as i128 && matches!((x.base.clone(), p.base.clone()), (Base::Sym(o), Base::Bytes(b)) if obj_name(o) == "chars" && obj_args(o) == vec![Arg::O(b)])
    }
}
/// contents of the buffer at the end
fn kept(t: &mut Tally, it: &Interp, s: &State, r: &Run, some: &Cond, how: &str, wher: &str) {
    let Val::Ptr(p) = &r.args[3] else { return };
    let read = |s: &State| {
        let mut it = Interp::new();
        it.read(s.clone(), p).into_iter().next().map(|x| x.1)
    };
    let (Some(Val::Vec(h0, l0)), Some(Val::Vec(h1, l1))) = (read(&r.st0), read(s)) else {
        t.add(Verdict::Unproven, KEPT, how, wher, String::new);
        return;
    };
    let when = || format!("length {l1:?} after {l0:?}, when {}", show_num(&s.num));
    t.add(it.strict(s, &implies(&some.not(), &eql(&l0, &l1))), KEPT, &format!("length: {how}"), wher, when);
    t.add(it.strict(s, &ge(&l1, &l0)), KEPT, &format!("earlier contents: {how}"), wher, when);
    // an arbitrary earlier element is unchanged
    let i = Lin::s(app("some earlier index", vec![], Some(0), Some(i64::MAX as i128), 0));
    for s in Interp::new().assume(s.clone(), &ge(&l0.plus(-1), &i)) {
        let at = |s: &State, h: u32| {
            let mut it = Interp::new();
            it.seq_read(s.clone(), h, &i)
        };
        let old: Vec<String> = at(&r.st0, h0).iter().map(|x| show_val(&x.1)).collect();
        let new: Vec<String> = at(&s, h1).iter().map(|x| show_val(&x.1)).collect();
        let ok = old.len() == 1 && new.iter().all(|x| *x == old[0]);
        t.add(if ok { Verdict::Proved } else { it.strict(&s, &Cond::F) }, KEPT, &format!("an earlier element: {how}"), wher, || format!("{new:?} instead of {old:?}"));
    }
}

/// the matchers become atoms; a matcher that collects ranges appends one
fn hooks(q: &Q) -> Vec<Hook> {
    let mut leaf: BTreeMap<String, (i128, usize, usize, usize)> = BTreeMap::new();
    for f in &q.kit.w.fns {
        let (Some((a, _)), Some(r)) = (sig(f), ret(f)) else { continue };
        let p = def_path(f);
        if !opt_int(r) || p.contains("closure") {
            continue;
        }
        let ks: Vec<A> = a.iter().map(|t| q.kit.kind(*t)).collect();
        let pos = |x: A| ks.iter().position(|k| *k == x);
        let (Some(pp), Some(cp), Some(rp)) = (pos(A::Pat), pos(A::Cand), pos(A::Ranges)) else { continue };
        let last = p.rsplit("::").next().unwrap_or("").to_string();
        let kind = match q.kit.roles.get(&p) {
            Some(("leaf", _)) => leaf_kind(&p).and_then(kind_of),
            _ if ks.len() == 4 && last.contains("fuzzy") => Some(0),
            _ => None,
        };
        if let Some(k) = kind {
            leaf.insert(p, (k, pp, cp, rp));
        }
    }
    let pf = q.kit.pf.clone();
    let match_leaf: Hook = Rc::new(move |it: &mut Interp, i: &Instance, name: &str, args: &[Val], st: &State| {
        let (kind, pp, cp, rp) = leaf.get(name)?;
        let deref = |it: &mut Interp, v: &Val| match v {
            Val::Ptr(p) if p.view.is_none() => it.read(st.clone(), p).into_iter().next().map(|x| x.1),
            _ => Some(v.clone()),
        };
        let (p, c) = (deref(it, &args[*pp])?, deref(it, &args[*cp])?);
        let text = text_of(&p, &pf)?;
        let ranges = i.name().to_string().contains("true");
        let mut s = st.clone();
        let k = s.ghost.keys().filter(|k| k.starts_with("call")).count();
        s.ghost.insert(format!("call{k}"), Val::agg(vec![p, Val::Bool(if ranges { Cond::T } else { Cond::F })]));
        s.ghost.insert(format!("cand{k}"), c);
        let (hit, points) = outcome(*kind, text);
        let mut out = vec![];
        let none = |n: i128| Val::Enum(Lin::k(n), Rc::new([(0, vec![]), (1, vec![Val::Int(points.clone())])].into_iter().collect()));
        for y in it.assume(s.clone(), &eqk(&hit, 0)) {
            out.push((y, none(0)));
        }
        for mut y in it.assume(s, &eqk(&hit, 1)) {
            if ranges {
                append(it, &mut y, &args[*rp], text)?;
            }
            out.push((y, none(1)));
        }
        Some(out)
    });
    // decoding the characters of a str
    let decode: Vec<String> = q
        .kit
        .w
        .fns
        .iter()
        .filter(|f| matches!((sig(f), ret(f)), (Some((a, _)), Some(r)) if a.len() == 2 && is_str(a[1]) && char_slice(r)))
        .map(def_path)
        .collect();
    let chars: Hook = Rc::new(move |_: &mut Interp, i: &Instance, name: &str, args: &[Val], st: &State| {
        if !decode.iter().any(|d| d == name) {
            return None;
        }
        let Val::Ptr(Ptr { base: Base::Bytes(o), .. }) = &args[1] else { return None };
        let mut s = st.clone();
        let rt = ret(i)?;
        let v = mat(&mut s, rt, "chars", &[Arg::O(*o)]);
        Some(vec![(s, v)])
    });
    vec![match_leaf, chars]
}
/// one more range at the end of the buffer behind a range collector
fn append(it: &mut Interp, st: &mut State, v: &Val, text: O) -> Option<()> {
    let Val::Ptr(p) = v else { return None };
    let Val::Agg(fs) = it.read(st.clone(), p).into_iter().next()?.1 else { return None };
    let buf = fs.iter().find_map(|f| match f {
        Val::Ptr(b) => Some(b.clone()),
        _ => None,
    })?;
    let Val::Vec(h, len) = it.read(st.clone(), &buf).into_iter().next()?.1 else { return None };
    let r = |w: &str| Val::Int(Lin::s(app(w, vec![Arg::O(text)], Some(0), Some(i64::MAX as i128), 0)));
    Interp::seq_push(st, h, W::Ins(len.clone(), Val::agg(vec![r("found from"), r("found to")])));
    let w = it.write(st.clone(), &buf, Val::Vec(h, len.plus(1)));
    *st = w.into_iter().next()?;
    Some(())
}
#[allow(dead_code)]
type Unused = Box<dyn CrateDef>;
