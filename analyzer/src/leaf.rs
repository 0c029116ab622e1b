//! Matching of one pattern: prefix, suffix, whole and substring matches (C19).
//! Helpers whose meaning is the subject of other obligations are replaced by
//! named atoms: the number of leading/trailing spaces of the candidate, the
//! class of a character, the bonus of two classes, the score of a range.
use crate::anchors::*;
use crate::interp::*;
use crate::mat::*;
use crate::report::*;
use crate::roots::*;
use crate::search::*;
use crate::sem::*;
use crate::tables::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn usize_ty(t: Ty) -> bool {
    is_ty(t, &RigidTy::Uint(UintTy::Usize))
}
pub fn range_ty(t: Ty) -> bool {
    adt_last(t) == "Range" && type_arg(t, 0).is_some_and(usize_ty)
}
pub fn int_ty(t: Ty) -> bool {
    matches!(rigid(t), Some(RigidTy::Int(_) | RigidTy::Uint(_)))
}
pub fn ret(f: &Instance) -> Option<Ty> {
    f.body().map(|b| b.ret_local().ty)
}
pub fn opt_int(t: Ty) -> bool {
    adt_last(t) == "Option" && type_arg(t, 0).is_some_and(int_ty)
}

/// the type that collects the matched ranges: a struct around &mut Vec<Range<usize>>
pub fn is_ranges(t: Ty) -> bool {
    matches!(rigid(t), Some(RigidTy::Adt(d, _)) if {
        use rustc_public::CrateDef;
        d.krate().is_local
    }) && variant_names(t).len() == 1
        && field_tys(t, 0).iter().any(|(_, f)| {
            let v = strip_refs(*f);
            adt_last(v) == "Vec" && type_arg(v, 0).is_some_and(range_ty)
        })
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum A {
    Pat,
    Cand,
    Eq,
    Scheme,
    Ranges,
    Range,
    Class,
    Char,
    Usize,
    Bool,
    Other,
}
/// things the leaf functions work with
pub struct Kit {
    pub w: World,
    pub pf: PatFields,
    pub cand: Ty,
    pub scheme: Ty,
    pub class: Ty,
    pub asc: u32,
    pub uni: u32,
    /// role of every local function, by path: (name, argument positions by kind)
    pub roles: BTreeMap<String, (&'static str, Vec<A>)>,
}
impl Kit {
    pub fn kind(&self, t: Ty) -> A {
        let s = strip_refs(t);
        if same(s, self.pf.ty) {
            A::Pat
        } else if same(s, self.cand) {
            A::Cand
        } else if is_char_eq(s) {
            A::Eq
        } else if same(s, self.scheme) {
            A::Scheme
        } else if is_ranges(s) {
            A::Ranges
        } else if range_ty(s) {
            A::Range
        } else if same(s, self.class) {
            A::Class
        } else if is_char(s) {
            A::Char
        } else if usize_ty(s) {
            A::Usize
        } else if is_bool(s) {
            A::Bool
        } else {
            A::Other
        }
    }
    pub fn new(rep: &mut Rep) -> Option<Kit> {
        let w = World::new();
        let pf = PatFields::find(&w);
        let cand = w.adts.values().copied().find(|t| candidate(*t).is_some());
        let (Some(pf), Some(cand), Some(scheme), Some(class)) = (pf, cand, w.scheme(), w.char_class()) else {
            rep.err("no pattern, candidate, scheme or character class type".into());
            return None;
        };
        let (asc, uni) = candidate(cand)?;
        let mut k = Kit { w, pf, cand, scheme, class, asc, uni, roles: BTreeMap::new() };
        let mut roles = BTreeMap::new();
        for f in &k.w.fns {
            let (Some((a, _)), Some(r)) = (sig(f), ret(f)) else { continue };
            let ks: Vec<A> = a.iter().map(|t| k.kind(*t)).collect();
            let mut sorted: Vec<String> = ks.iter().map(|x| format!("{x:?}")).collect();
            sorted.sort();
            let path = def_path(f);
            let last = path.rsplit("::").next().unwrap_or("").to_string();
            let role = match (&sorted.join(",")[..], &*last) {
                ("Cand", n) if usize_ty(r) && n.contains("lead") => "lead",
                ("Cand", n) if usize_ty(r) && n.contains("trail") => "trail",
                ("Cand,Eq,Pat,Range,Ranges,Scheme", _) if int_ty(r) => "score",
                ("Char,Scheme", _) if same(r, k.class) => "class",
                ("Class,Class,Scheme", _) if int_ty(r) => "bonus",
                ("Cand,Range", _) if range_ty(r) => "byte_range",
                ("Cand,Usize", n) if usize_ty(r) && n.contains("byte") => "byte_offset",
                ("Range,Ranges", _) if is_ranges(strip_refs(a[ks.iter().position(|x| *x == A::Ranges).unwrap()])) => "insert",
                ("Ranges", n) if r == Ty::new_tuple(&[]) && n.contains("clear") => "clear",
                ("Cand,Eq,Pat,Ranges,Scheme", _) if opt_int(r) => "leaf",
                _ => continue,
            };
            roles.insert(path, (role, ks));
        }
        k.roles = roles;
        Some(k)
    }
    /// hooks for the given roles
    pub fn hooks(&self, which: &[&'static str]) -> Vec<Hook> {
        let roles: BTreeMap<String, (&'static str, Vec<A>)> = self.roles.iter().filter(|(_, r)| which.contains(&r.0)).map(|(k, v)| (k.clone(), v.clone())).collect();
        let (asc, uni) = (self.asc, self.uni);
        let class = self.class;
        vec![Rc::new(move |it: &mut Interp, i: &Instance, name: &str, args: &[Val], st: &State| {
            let (role, ks) = roles.get(name)?;
            if ks.len() != args.len() {
                return None;
            }
            let arg = |a: A| ks.iter().position(|x| *x == a).map(|p| &args[p]);
            // values behind references
            let val = |it: &mut Interp, a: A| -> Option<Val> {
                let v = arg(a)?.clone();
                match &v {
                    Val::Ptr(p) if p.view.is_none() => it.read(st.clone(), p).into_iter().next().map(|x| x.1),
                    _ => Some(v),
                }
            };
            let cand = |it: &mut Interp| -> Option<(O, Lin, Lin)> {
                let v = val(it, A::Cand)?;
                let Val::Enum(d, _) = &v else { return None };
                let d = d.is_const()?;
                cand_slice(&v, if d == asc as i128 { asc } else { uni })
            };
            let one = |s: State, v: Val| Some(vec![(s, v)]);
            let mut s = st.clone();
            match *role {
                "lead" | "trail" => {
                    let (o, off, n) = cand(it)?;
                    let ap = |w: &str| Lin::s(app(w, vec![Arg::O(o), Arg::L(off.clone()), Arg::L(n.clone())], Some(0), Some(i64::MAX as i128), 0));
                    let (l, t) = (ap("lead"), ap("trail"));
                    let c = Cond::Or(vec![Cond::And(vec![eql(&l, &n), eql(&t, &n)]), ge(&n.plus(-1), &l.add(&t))]).norm();
                    let v = if *role == "lead" { l } else { t };
                    Some(it.assume(s, &c).into_iter().map(|s| (s, Val::Int(v.clone()))).collect())
                }
                "class" => {
                    let c = int(arg(A::Char)?)?;
                    let n = variant_names(class).len() as i128;
                    let d = Lin::s(app("class", vec![Arg::L(c)], Some(0), Some(n - 1), 0));
                    let m = Rc::new((0..n as u32).map(|k| (k, vec![])).collect());
                    one(s, Val::Enum(d, m))
                }
                "bonus" => {
                    let a: Vec<Lin> = ks.iter().zip(args).filter(|(k, _)| **k == A::Class).filter_map(|(_, v)| int(v)).collect();
                    if a.len() != 2 {
                        return None;
                    }
                    one(s, Val::Int(bonus_of(&a[0], &a[1])))
                }
                "score" => {
                    let Val::Agg(r) = val(it, A::Range)? else { return None };
                    let (a, b) = (int(&r[0])?, int(&r[1])?);
                    if i.name().to_string().contains("true") {
                        s.tags.insert("score inserts ranges".into());
                    }
                    one(s, Val::Int(score_of(&a, &b)))
                }
                "byte_range" => {
                    let Val::Agg(r) = val(it, A::Range)? else { return None };
                    let (_, off, _) = cand(it)?;
                    one(s, Val::agg(vec![Val::Int(byte_from(&off, &int(&r[0])?)), Val::Int(byte_from(&off, &int(&r[1])?))]))
                }
                "byte_offset" => {
                    let (_, off, _) = cand(it)?;
                    one(s, Val::Int(byte_from(&off, &int(&val(it, A::Usize)?)?)))
                },
                "insert" => {
                    let Val::Agg(r) = val(it, A::Range)? else { return None };
                    let k = s.ghost.keys().filter(|k| k.starts_with("ins")).count();
                    s.ghost.insert(format!("ins{k}"), Val::agg(vec![r[0].clone(), r[1].clone()]));
                    let rt = ret(i)?;
                    if rt != Ty::new_tuple(&[]) {
                        return None;
                    }
                    one(s, Val::unit())
                }
                "clear" => {
                    s.ghost.retain(|k, _| !k.starts_with("ins"));
                    s.tags.insert("cleared".into());
                    one(s, Val::unit())
                }
                _ => None,
            }
        })]
    }
}
pub fn bonus_of(a: &Lin, b: &Lin) -> Lin {
    Lin::s(app("bonus", vec![Arg::L(a.clone()), Arg::L(b.clone())], Some(0), Some(10), 0))
}
pub fn score_of(a: &Lin, b: &Lin) -> Lin {
    Lin::s(app("score", vec![Arg::L(a.clone()), Arg::L(b.clone())], Some(-(1 << 40)), Some(1 << 40), 0))
}
pub fn byte_off(a: &Lin) -> Lin {
    Lin::s(app("byteoff", vec![Arg::L(a.clone())], Some(0), Some(i64::MAX as i128), 0))
}
/// byte offset of character `i` of a part of the candidate that starts at `off`
pub fn byte_from(off: &Lin, i: &Lin) -> Lin {
    if off.is_const() == Some(0) {
        return byte_off(i);
    }
    byte_off(&off.add(i)).sub(&byte_off(off))
}
pub fn inserted(s: &State) -> Vec<(Lin, Lin)> {
    let mut out = vec![];
    for k in 0.. {
        let Some(Val::Agg(r)) = s.ghost.get(&format!("ins{k}")) else { break };
        if let (Some(a), Some(b)) = (int(&r[0]), int(&r[1])) {
            out.push((a, b));
        }
    }
    out
}

struct Leaf {
    ascii: bool,
    eq: Lin,
    po: O,
    p0: Lin,
    m: Lin,
    lead: Lin,
    trail: Lin,
    co: O,
    n: Lin,
    l: Lin,
    t: Lin,
}
impl Leaf {
    fn cand_at(&self, i: &Lin) -> Lin {
        let t = if self.ascii { Ty::from_rigid_kind(RigidTy::Uint(UintTy::U8)) } else { Ty::from_rigid_kind(RigidTy::Char) };
        match elem(t, self.co, i) {
            Val::Int(l) => l,
            _ => Lin::k(0),
        }
    }
    /// the i-th character of the pattern equals the j-th of the candidate
    fn same(&self, i: &Lin, j: &Lin) -> Cond {
        let a = vec![Arg::L(self.eq.clone()), Arg::L(char_at(self.po, &self.p0.add(i))), Arg::L(self.cand_at(j))];
        eqk(&Lin::s(app("fnptr", a, Some(0), Some(1), 0)), 1)
    }
    /// mismatches the state knows: (pattern index, candidate index)
    fn mismatches(&self, s: &State) -> Vec<(Lin, Lin)> {
        let mut out = vec![];
        for l in s.num.ge.iter() {
            let [(x, -1)] = l.t[..] else { continue };
            if l.c != 0 {
                continue;
            }
            let SymKind::App(f, a) = sym_kind(x) else { continue };
            if f != "fnptr" {
                continue;
            }
            let (Some(Arg::L(p)), Some(Arg::L(c))) = (a.get(1), a.get(2)) else { continue };
            let idx = |l: &Lin, name: String| -> Option<Lin> {
                let [(x, 1)] = l.t[..] else { return None };
                let SymKind::App(f, a) = sym_kind(x) else { return None };
                if f != name || l.c != 0 {
                    return None;
                }
                match a.last() {
                    Some(Arg::L(i)) => Some(i.clone()),
                    _ => None,
                }
            };
            if let (Some(i), Some(j)) = (idx(p, format!("{}[]", obj_name(self.po))), idx(c, format!("{}[]", obj_name(self.co)))) {
                out.push((i.sub(&self.p0), j));
            }
        }
        out
    }
}

const SOME: &str = "a match is reported only where every character of the text compares equal";
const NONE: &str = "no match is reported only when the text does not occur as asked";
const RANGE: &str = "the scored and reported range is the occurrence, and is reported only when ranges are asked for";

pub fn leaf_kind(path: &str) -> Option<&'static str> {
    let n = path.rsplit("::").next().unwrap_or("").to_lowercase();
    ["prefix", "suffix", "equal", "exact"].into_iter().find(|k| n.contains(k))
}

/// C19
pub fn anchored(rep: &mut Rep) {
    leaves(rep, &["prefix", "suffix", "equal"]);
}
thread_local!(static MAXN: std::cell::Cell<i128> = const { std::cell::Cell::new(5) });
/// C26
pub fn substring(rep: &mut Rep, max: i128) {
    MAXN.with(|m| m.set(max));
    leaves(rep, &["exact"]);
}
fn leaves(rep: &mut Rep, kinds: &[&str]) {
    let Some(kit) = Kit::new(rep) else { return };
    if !kinds.contains(&"exact") {
        spaces(rep, &kit);
    }
    let mut found = vec![];
    for f in &kit.w.fns {
        let path = def_path(f);
        let Some((role, ks)) = kit.roles.get(&path) else { continue };
        if *role != "leaf" {
            continue;
        }
        let Some(kind) = leaf_kind(&path).filter(|k| kinds.contains(k)) else { continue };
        let ranges = f.name().to_string().contains("true");
        found.push(kind);
        for ascii in [true, false] {
            if kind != "exact" {
                leaf(rep, &kit, f, ks, kind, ranges, ascii, None);
                continue;
            }
            for m in 1..=3 {
                if mine() {
                    leaf(rep, &kit, f, ks, kind, ranges, ascii, Some(m));
                }
            }
        }
    }
    for k in kinds {
        if !found.contains(k) {
            rep.err(format!("no function matches {k} patterns"));
        }
    }
}
/// with `short`, only texts of that length in candidates of up to MAXN
/// characters, whose loops are followed to the end
#[allow(clippy::too_many_arguments)]
fn leaf(rep: &mut Rep, kit: &Kit, f: &Instance, ks: &[A], kind: &str, ranges: bool, ascii: bool, short: Option<i128>) {
    let pos = |a: A| ks.iter().position(|x| *x == a).unwrap();
    fresh_world();
    let cp = pos(A::Cand);
    pin(&format!("a{cp}.disc"), if ascii { kit.asc } else { kit.uni } as i128);
    let pat = format!("a{}", pos(A::Pat));
    let fields = field_tys(kit.pf.ty, 0);
    let len = format!("{pat}.{}.len", fields[kit.pf.text].0);
    match short {
        Some(l) => pin(&len, l),
        None => assume_bounds(&len, Some(1), None),
    }
    if short.is_some() {
        for v in [kit.asc, kit.uni] {
            let name = variant_names(kit.cand)[v as usize].clone();
            assume_bounds(&format!("a{cp}.{name}.0.len"), None, Some(MAXN.with(|m| m.get())));
        }
    }
    let pre = |args: &[Val]| {
        let Val::Agg(fs) = &args[pos(A::Pat)] else { return Cond::T };
        let (Some((_, _, m)), Some(l), Some(t)) = (slice_of(&fs[kit.pf.text]), int(&fs[kit.pf.lead]), int(&fs[kit.pf.trail])) else { return Cond::T };
        Cond::And(vec![ge(&m, &l), ge(&m, &t)]).norm()
    };
    let hooks = kit.hooks(&["lead", "trail", "class", "bonus", "score", "byte_range", "byte_offset", "insert", "clear"]);
    let r = run_pre_with(f, hooks, 3000, &pre, |it| {
        it.opaque_ty.clear();
        if short.is_some() {
            it.peel = 9;
        }
    });
    rep.absorb(&r.it);
    let wher = loc(f);
    let it = &r.it;
    let (Val::Agg(fs), Val::Fn(FnVal::Sym(eq))) = (&r.args[pos(A::Pat)], &r.args[pos(A::Eq)]) else { return };
    let (Some((po, p0, m)), Some((co, _, n)), Some(lead), Some(trail)) =
        (slice_of(&fs[kit.pf.text]), cand_slice(&r.args[cp], if ascii { kit.asc } else { kit.uni }), int(&fs[kit.pf.lead]), int(&fs[kit.pf.trail]))
    else {
        return;
    };
    let ap = |w: &str| Lin::s(app(w, vec![Arg::O(co), Arg::L(Lin::k(0)), Arg::L(n.clone())], Some(0), Some(i64::MAX as i128), 0));
    let x = Leaf { ascii, eq: eq.clone(), po, p0, m: m.clone(), lead, trail, co, n: n.clone(), l: ap("lead"), t: ap("trail") };
    let how = format!("{kind}{} in {}{} candidates", if ranges { " with ranges" } else { "" }, if short.is_some() { "short " } else { "" }, if ascii { "ASCII" } else { "Unicode" });
    let mut t = Tally::new(rep);
    if it.overflow {
        t.add(Verdict::Unproven, SOME, &how, &wher, || "the analysis gave up".into());
    }
    let k = |c: i128| Lin::k(c);
    // where an anchored text must start, and when it fits
    let (cond, off) = match kind {
        "prefix" => {
            let off = x.l.sub(&x.lead);
            (vec![ge(&x.l, &x.lead), ge(&n, &off.add(&m))], off)
        }
        "suffix" => {
            let off = n.sub(&x.t).add(&x.trail).sub(&m);
            (vec![ge(&x.t, &x.trail), ge(&off, &k(0))], off)
        }
        "equal" => {
            let off = x.l.sub(&x.lead);
            (vec![ge(&x.l, &x.lead), ge(&x.t, &x.trail), eql(&off.add(&m), &n.sub(&x.t).add(&x.trail))], off)
        }
        _ => (vec![], k(0)),
    };
    let fits = Cond::And(cond).norm();
    for (s, v) in &r.rets {
        let Val::Enum(d, pl) = v else {
            t.add(Verdict::Unproven, SOME, &how, &wher, String::new);
            continue;
        };
        let (some, none) = split(it, vec![s.clone()], &eqk(d, 1));
        for s in &none {
            let when = || format!("None when {}", show_num(&s.num));
            t.add(if inserted(s).is_empty() { Verdict::Proved } else { it.strict(s, &Cond::F) }, RANGE, &format!("no range without a match: {how}"), &wher, when);
            // exact on short texts
            for len in 1..=3 {
                if short.is_some_and(|l| l != len) {
                    continue;
                }
                let (y, _) = split(it, vec![s.clone()], &eqk(&m, len));
                for s in &y {
                    if kind != "exact" {
                        let mut c = vec![fits.clone()];
                        c.extend((0..len).map(|i| x.same(&k(i), &off.plus(i))));
                        t.add(it.strict(s, &Cond::And(c).norm().not()), NONE, &format!("texts of {len}: {how}"), &wher, when);
                    } else {
                        for j in (0..7).map(k) {
                            let mut c = vec![ge(&j, &k(0)), ge(&n, &j.plus(len))];
                            c.extend((0..len).map(|i| x.same(&k(i), &j.plus(i))));
                            t.add(it.strict(s, &Cond::And(c).norm().not()), NONE, &format!("texts of {len}: {how}"), &wher, when);
                        }
                    }
                }
            }
            if kind != "exact" {
                let mut ok = it.entails(&s.num, &fits.not());
                for (i, j) in x.mismatches(s) {
                    ok = ok || it.entails(&s.num, &implies(&fits, &Cond::And(vec![eql(&j.sub(&i), &off), ge(&i, &k(0)), ge(&m.plus(-1), &i)]).norm()));
                }
                t.add(if ok { Verdict::Proved } else { Verdict::Unproven }, NONE, &format!("texts of any length: {how}"), &wher, when);
            }
        }
        for s in &some {
            let when = || format!("{} when {}", show_val(v), show_num(&s.num));
            let Some(sc) = pl.get(&1).and_then(|x| x.first()).and_then(int) else { continue };
            // the range that was scored
            let scored = match sc.t[..] {
                [(a, 1)] if sc.c == 0 => match sym_kind(a) {
                    SymKind::App(f, a) if f == "score" => match &a[..] {
                        [Arg::L(a), Arg::L(b)] => Some((a.clone(), b.clone())),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            let Some((a, b)) = scored else {
                t.add(Verdict::Unproven, RANGE, &format!("score: {how}"), &wher, when);
                continue;
            };
            if kind != "exact" {
                t.add(it.strict(s, &fits), SOME, &format!("place: {how}"), &wher, when);
                t.add(it.strict(s, &eql(&a, &off)), RANGE, &format!("start: {how}"), &wher, when);
            } else {
                t.add(it.strict(s, &Cond::And(vec![ge(&a, &k(0)), ge(&n, &a.add(&m))]).norm()), SOME, &format!("place: {how}"), &wher, when);
            }
            t.add(it.strict(s, &eql(&b, &a.add(&m))), RANGE, &format!("length: {how}"), &wher, when);
            for (i, w) in [(k(0), "first"), (m.plus(-1), "last"), (k(1), "second"), (m.plus(-2), "last but one")] {
                let c = implies(&Cond::And(vec![ge(&i, &k(0)), ge(&m.plus(-1), &i)]).norm(), &x.same(&i, &a.add(&i)));
                t.add(it.strict(s, &c), SOME, &format!("{w} character: {how}"), &wher, when);
            }
            let ins = inserted(s);
            let v = match (&ins[..], ranges, s.tags.contains("score inserts ranges")) {
                (_, _, true) => Verdict::Unproven,
                ([], false, _) => Verdict::Proved,
                ([(p, q)], true, _) => it.strict(s, &Cond::And(vec![eql(p, &byte_off(&a)), eql(q, &byte_off(&b))]).norm()),
                _ => it.strict(s, &Cond::F),
            };
            t.add(v, RANGE, &format!("reported range: {how}"), &wher, || format!("reports {ins:?}, scored {a:?}..{b:?}; {}", when()));
            if kind == "exact" {
                choice(&mut t, it, s, &x, &r.args, pos(A::Scheme), kit, &a, &how, &wher);
            }
        }
    }
    t.done();
}
const BEST: &str = "of several occurrences of a substring the best placed one is chosen";
/// the first occurrence at a word boundary, else the first with the highest bonus
#[allow(clippy::too_many_arguments)]
fn choice(t: &mut Tally, it: &Interp, s: &State, x: &Leaf, args: &[Val], sp: usize, kit: &Kit, a: &Lin, how: &str, wher: &str) {
    let Some(init) = scheme_init(it, s, &args[sp], kit) else { return };
    let class = |i: &Lin| Lin::s(app("class", vec![Arg::L(x.cand_at(i))], Some(0), Some(variant_names(kit.class).len() as i128 - 1), 0));
    let bonus = |i: i128| bonus_of(&if i == 0 { init.clone() } else { class(&Lin::k(i - 1)) }, &class(&Lin::k(i)));
    for len in 1..=3 {
        for at in 0..7i128 {
            let (y, _) = split(it, vec![s.clone()], &Cond::And(vec![eqk(&x.m, len), eqk(a, at)]).norm());
            for s in &y {
                for j in 0..7i128 {
                    if j == at {
                        continue;
                    }
                    let mut c = vec![ge(&x.n, &Lin::k(j + len))];
                    c.extend((0..len).map(|i| x.same(&Lin::k(i), &Lin::k(j + i))));
                    let occurs = Cond::And(c).norm();
                    let (bj, ba) = (bonus(j), bonus(at));
                    let bad = if j < at {
                        Cond::Or(vec![ge(&bj, &Lin::k(8)), ge(&bj, &ba)])
                    } else {
                        Cond::And(vec![ge(&Lin::k(7), &ba), ge(&bj.plus(-1), &ba)])
                    };
                    t.add(it.strict(s, &Cond::And(vec![occurs, bad]).norm().not()), BEST, &format!("texts of {len}, {} occurrence: {how}", if j < at { "an earlier" } else { "a later" }), wher, || {
                        format!("chooses {at}, not {j}, when {}", show_num(&s.num))
                    });
                }
            }
        }
    }
}
/// the class a candidate starts from, read from the scheme argument
pub fn scheme_init(it: &Interp, s: &State, v: &Val, kit: &Kit) -> Option<Lin> {
    let f = field_tys(kit.scheme, 0).iter().position(|(_, t)| same(*t, kit.class))?;
    let mut it2 = Interp::new();
    let _ = it;
    let p = match v {
        Val::Ptr(p) => p.clone(),
        _ => return None,
    };
    let x = it2.read(s.clone(), &p).into_iter().next()?.1;
    match x {
        Val::Agg(fs) => int(&fs[f]),
        _ => None,
    }
}

/// the helpers that count the spaces at the ends of a candidate
fn spaces(rep: &mut Rep, kit: &Kit) {
    for f in &kit.w.fns {
        let path = def_path(f);
        let Some((role, _)) = kit.roles.get(&path) else { continue };
        if *role != "lead" && *role != "trail" {
            continue;
        }
        for ascii in [true, false] {
            fresh_world();
            pin("a0.disc", if ascii { kit.asc } else { kit.uni } as i128);
            let r = run_cap(f, false, vec![], 200);
            rep.absorb(&r.it);
            let Some((o, _, n)) = cand_slice(&r.args[0], if ascii { kit.asc } else { kit.uni }) else { continue };
            let ty = if ascii { Ty::from_rigid_kind(RigidTy::Uint(UintTy::U8)) } else { Ty::from_rigid_kind(RigidTy::Char) };
            let mut t = Tally::new(rep);
            for (s, v) in &r.rets {
                let Some(k) = int(v) else { continue };
                let at = |j: &Lin| {
                    let i = if *role == "lead" { j.clone() } else { n.sub(j).plus(-1) };
                    match elem(ty, o, &i) {
                        Val::Int(l) => eqk(&l, ' ' as i128),
                        _ => Cond::Unk(UNK),
                    }
                };
                let some = ge(&k, &Lin::k(1));
                for c in [ge(&n, &k), ge(&k, &Lin::k(0)), implies(&some, &at(&Lin::k(0))), implies(&some, &at(&k.plus(-1))), implies(&ge(&n.plus(-1), &k), &at(&k).not())] {
                    t.add(r.it.strict(s, &c), "the spaces at the ends of the candidate are counted right", &format!("{role}ing spaces of {} candidates", if ascii { "ASCII" } else { "Unicode" }), &loc(f), || {
                        format!("count {k:?}, but {c:?} fails when {}", show_num(&s.num))
                    });
                }
            }
            t.done();
        }
    }
}
#[allow(dead_code)]
type Unused = Instance;

pub fn is_option_of(t: Ty, name: &str) -> bool {
    adt_last(t) == "Option" && type_arg(t, 0).is_some_and(|t| adt_last(t) == name)
}
