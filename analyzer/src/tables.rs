//! Checks over finite domains: the function is interpreted once on symbolic
//! arguments, which yields its complete decision table (regions of linear
//! constraints with a value each); the table is compared with the reference.
use crate::anchors::*;
use crate::eval;
use crate::interp::*;
use crate::mat::*;
use crate::report::*;
use crate::roots::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct Run {
    pub it: Interp,
    pub args: Vec<Val>,
    pub st0: State,
    pub rets: R,
}

/// Interprets `f` on symbolic arguments named a0, a1, ...
pub fn run(f: &Instance, exact: bool, hooks: Vec<Hook>) -> Run {
    run_cap(f, exact, hooks, 96)
}
pub fn run_cap(f: &Instance, exact: bool, hooks: Vec<Hook>, cap: usize) -> Run {
    let mut it = Interp::new();
    it.exact = exact;
    it.hooks = hooks;
    it.cap = cap;
    let mut st = State::new();
    let args: Vec<Val> = arg_tys(f).iter().enumerate().map(|(k, t)| mat(&mut st, *t, &format!("a{k}"), &[])).collect();
    // the arguments stay alive for the whole run
    st.frames.push(Rc::new(Frame { locals: args.clone() }));
    let st0 = st.clone();
    let rets = it.call(f, args.clone(), st);
    Run { it, args, st0, rets }
}
/// like `run_cap`, from the states satisfying a precondition
pub fn run_pre(f: &Instance, hooks: Vec<Hook>, cap: usize, pre: &dyn Fn(&[Val]) -> Cond) -> Run {
    run_pre_with(f, hooks, cap, pre, |_| {})
}
pub fn run_pre_with(f: &Instance, hooks: Vec<Hook>, cap: usize, pre: &dyn Fn(&[Val]) -> Cond, set: impl Fn(&mut Interp)) -> Run {
    let mut it = Interp::new();
    set(&mut it);
    it.hooks = hooks;
    it.cap = cap;
    let mut st = State::new();
    let args: Vec<Val> = arg_tys(f).iter().enumerate().map(|(k, t)| mat(&mut st, *t, &format!("a{k}"), &[])).collect();
    st.frames.push(Rc::new(Frame { locals: args.clone() }));
    let st0 = st.clone();
    let mut rets = vec![];
    for s in it.assume(st, &pre(&args)) {
        rets.extend(it.call(f, args.clone(), s));
    }
    Run { it, args, st0, rets }
}
pub fn complete(r: &Run) -> bool {
    !r.it.overflow && r.rets.iter().all(|(s, _)| s.poison.is_none() && !s.tags.contains("approx"))
}
/// breakpoints of a named scalar in the constraints of a table
fn breakpoints(name: &str, rows: &[(crate::num::Num, Cond)], out: &mut BTreeSet<i128>) {
    let mut add = |l: &Lin| {
        if l.t.len() == 1 {
            if let SymKind::App(n, a) = sym_kind(l.t[0].0) {
                if n == name && a.is_empty() && l.t[0].1.abs() == 1 {
                    let b = -l.c * l.t[0].1;
                    out.extend([b - 1, b, b + 1]);
                }
            }
        }
    };
    for (n, c) in rows {
        n.ge.iter().for_each(|l| add(l));
        n.ne.iter().for_each(|l| add(l));
        let mut v = vec![];
        c.lins(&mut v);
        v.iter().for_each(|l| add(l));
    }
}
/// the rows of a boolean-valued function
fn bool_table(r: &Run) -> Option<Vec<(crate::num::Num, Cond)>> {
    if !complete(r) {
        return None;
    }
    r.rets.iter().map(|(s, v)| match v {
        Val::Bool(c) => Some((s.num.clone(), c.clone())),
        _ => None,
    }).collect()
}
fn look(rows: &[(crate::num::Num, Cond)], e: eval::Env) -> Option<bool> {
    let mut res = None;
    for (n, c) in rows {
        match eval::num(n, e)? {
            false => {}
            true => {
                let v = eval::cond(c, e)?;
                if res.is_some_and(|r| r != v) {
                    return None;
                }
                res = Some(v);
            }
        }
    }
    res
}
pub fn show_c(c: i128) -> String {
    match char::from_u32(c as u32) {
        Some(ch) if !ch.is_control() => format!("{ch:?} U+{c:04X}"),
        _ => format!("U+{c:04X}"),
    }
}

// ------------------------------------------------------------- comparators
/// the function that picks the character comparison from (case-sensitive, normalise)
pub fn selector(w: &World) -> Option<Instance> {
    w.by_sig(|a, r| a.len() == 2 && a.iter().all(|t| is_bool(*t)) && is_char_eq(r)).into_iter().next()
}
/// comparison function for each (sensitive, normalise)
fn comparators(w: &World, rep: &mut Rep) -> Option<BTreeMap<(bool, bool), Instance>> {
    let Some(sel) = selector(w) else {
        rep.err("no function (bool, bool) -> fn(char, char) -> bool".into());
        return None;
    };
    fresh_world();
    let r = run(&sel, true, vec![]);
    rep.absorb(&r.it);
    if !complete(&r) {
        rep.undecided.insert("selector".into(), "not a finite table".into());
        return None;
    }
    let mut m = BTreeMap::new();
    for cs in [false, true] {
        for nm in [false, true] {
            let e = |n: &str, _: &[i128]| match n {
                "a0" => Some(cs as i128),
                "a1" => Some(nm as i128),
                _ => None,
            };
            for (s, v) in &r.rets {
                if eval::num(&s.num, &e) == Some(true) {
                    if let Val::Fn(FnVal::Inst(i)) = v {
                        m.insert((cs, nm), i.clone());
                    }
                }
            }
        }
    }
    Some(m)
}

fn latin() -> (BTreeMap<i128, i128>, BTreeMap<i128, Vec<i128>>) {
    let mut req = BTreeMap::new();
    let mut opt = BTreeMap::new();
    for l in include_str!("../data/latin.txt").lines() {
        if l.starts_with('#') {
            continue;
        }
        let p: Vec<&str> = l.splitn(4, ' ').collect();
        let c = i128::from_str_radix(p[0], 16).unwrap();
        if p[2] == "1" {
            req.insert(c, p[1].chars().next().unwrap() as i128);
        } else {
            opt.insert(c, p[1].chars().map(|c| c as i128).collect());
        }
    }
    (req, opt)
}
fn lower(c: i128) -> Vec<char> {
    char::from_u32(c as u32).map(|c| c.to_lowercase().collect()).unwrap_or_default()
}
fn ascii_ci(a: i128, b: i128) -> bool {
    let f = |x: i128| if (65..=90).contains(&x) { x + 32 } else { x };
    f(a) == f(b)
}
/// every character worth distinguishing: ASCII, the tables, case pairs, breakpoints
fn alphabet(rows: &[(crate::num::Num, Cond)]) -> (Vec<i128>, Vec<i128>) {
    let (req, opt) = latin();
    let mut p: BTreeSet<i128> = (0..128).collect();
    p.extend([0x80, 0xA0, 0xB5, 0xBF, 0xC0, 0xDF, 0xD7, 0xF7, 0x130, 0x131, 0x17F, 0x36F, 0x370, 0x391, 0x3B1, 0x3C2, 0x3C3, 0x416, 0x436, 0x4E2D, 0x1E9E, 0x1F600, 0x10FFFF]);
    let mut c = p.clone();
    c.extend(0x80..0x250);
    c.extend(req.keys().chain(opt.keys()));
    c.extend(0x390..0x460);
    breakpoints("a0", rows, &mut p);
    breakpoints("a1", rows, &mut c);
    let ok = |x: &i128| (0..0x110000).contains(x) && !(0xD800..0xE000).contains(x);
    p.retain(ok);
    c.retain(ok);
    p.extend(c.iter().filter(|x| **x >= 128));
    (p.into_iter().collect(), c.into_iter().collect())
}

/// C14: normalisation.  C12 (character part): case folding.
pub fn comparisons(rep: &mut Rep, want_norm: bool) {
    let w = World::new();
    let Some(m) = comparators(&w, rep) else { return };
    let (req, opt) = latin();
    for ((cs, nm), f) in &m {
        if *nm != want_norm {
            continue;
        }
        fresh_world();
        let r = run(f, true, vec![]);
        rep.absorb(&r.it);
        let wher = loc(f);
        let mode = format!("{}{}", if *cs { "case-sensitive" } else { "case-insensitive" }, if *nm { ", normalising" } else { "" });
        for e in &r.it.events {
            rep.ob(e.verdict, &e.rule, &format!("{} ({mode})", e.key), &e.loc, &e.detail);
        }
        let Some(rows) = bool_table(&r) else {
            rep.ob(Verdict::Unproven, "decision table", &format!("{mode} comparison"), &wher, "no finite table");
            continue;
        };
        let (ps, cs_) = alphabet(&rows);
        let mut evals = 0u64;
        let mut bad: BTreeMap<&str, (u64, String)> = BTreeMap::new();
        let mut und = 0u64;
        for &p in &ps {
            let cand: Vec<i128> = if p < 128 {
                cs_.clone()
            } else {
                let mut v: Vec<i128> = (0..128).chain([p, p - 32, p + 32, p - 1, p + 1]).collect();
                if let Some(ch) = char::from_u32(p as u32) {
                    v.extend(ch.to_lowercase().map(|x| x as i128));
                    v.extend(ch.to_uppercase().map(|x| x as i128));
                }
                v.retain(|x| char::from_u32(*x as u32).is_some());
                v
            };
            for c in cand {
                evals += 1;
                let e = |n: &str, a: &[i128]| match n {
                    "a0" if a.is_empty() => Some(p),
                    "a1" if a.is_empty() => Some(c),
                    _ => None,
                };
                let Some(got) = look(&rows, &e) else {
                    und += 1;
                    continue;
                };
                // what the candidate character counts as
                let mut alts = vec![c];
                let mut must = true;
                if *nm && p < 128 {
                    if let Some(b) = req.get(&c) {
                        alts = vec![*b];
                    } else if let Some(b) = opt.get(&c) {
                        alts.extend(b);
                        must = false;
                    }
                }
                let eq = |x: i128| if *cs { p == x } else { ascii_ci(p, x) };
                let exp_any = alts.iter().any(|x| eq(*x));
                let exp_all = alts.iter().all(|x| eq(*x));
                let fold = !*cs && p >= 128 && c >= 128 && lower(p) == lower(c);
                let tab = |x: i128| req.contains_key(&x) || opt.contains_key(&x);
                let rule = if fold && !exp_any {
                    // a candidate letter that may be normalised away is not held to its case pair
                    if got || (*nm && tab(c) && !req.contains_key(&p)) { continue }
                    "letters outside ASCII ignore case"
                } else if got && !exp_any {
                    if !*cs && lower(p) == lower(c) { continue }
                    if *nm { "a normalised character only matches its base letter" } else { "different characters do not match" }
                } else if !got && exp_all && must {
                    if *nm && c >= 128 && p < 128 { "a normalised character matches its base letter" } else { "equal characters match" }
                } else {
                    continue;
                };
                let x = bad.entry(rule).or_insert((0, String::new()));
                x.0 += 1;
                if x.0 <= 4 {
                    x.1 += &format!(" query {} vs candidate {}: {};", show_c(p), show_c(c), if got { "equal" } else { "different" });
                }
            }
        }
        *rep.numbers.entry("character_pairs_compared".into()).or_default() += evals;
        *rep.numbers.entry("table_rows".into()).or_default() += rows.len() as u64;
        for rule in ["letters outside ASCII ignore case", "a normalised character only matches its base letter", "different characters do not match", "a normalised character matches its base letter", "equal characters match"] {
            match bad.get(rule) {
                Some((n, d)) => rep.ob(Verdict::Definite, rule, &format!("{rule}: {mode}"), &wher, &format!("{n} pairs, e.g.{d}")),
                None => rep.ob(Verdict::Proved, rule, &format!("{rule}: {mode}"), &wher, ""),
            }
        }
        if und > 0 {
            rep.ob(Verdict::Unproven, "decision table", &format!("{mode} comparison"), &wher, &format!("{und} points not evaluable"));
        }
    }
}

// -------------------------------------------------------- case sensitivity
fn self_metric(t: Ty) -> Option<String> {
    let n = adt_last(strip_refs(t));
    (n.starts_with("Fzf") && (n.ends_with("V1") || n.ends_with("V2"))).then_some(n)
}
/// index of the field of `t` whose type satisfies `p`
pub fn field_by(t: Ty, p: impl Fn(Ty) -> bool) -> Option<usize> {
    field_tys(t, 0).iter().position(|(_, f)| p(*f))
}

/// C12: how the settings and the query select the comparison
pub fn case_modes(rep: &mut Rep) {
    let w = World::new();
    let Some(pt) = w.pattern() else { return rep.err("no pattern type".into()) };
    let sel = selector(&w).map(|s| def_path(&s));
    let Some(sel) = sel else { return rep.err("no comparison selector".into()) };
    let up = field_tys(pt, 0).iter().position(|(n, t)| is_bool(*t) && n.contains("upper"));
    let Some(up) = up else { return rep.err("the pattern does not record whether it has uppercase letters".into()) };
    let methods: Vec<Instance> = w
        .fns
        .iter()
        .filter(|f| match sig(f) {
            Some((a, _)) => a.len() >= 2 && self_metric(a[0]).is_some() && a.iter().any(|t| same(strip_refs(*t), pt)),
            None => false,
        })
        .cloned()
        .collect();
    let mut metrics = BTreeSet::new();
    for f in &methods {
        let (a, _) = sig(f).unwrap();
        let mt = strip_refs(a[0]);
        let pk = a.iter().position(|t| same(strip_refs(*t), pt)).unwrap();
        let cst = field_tys(mt, 0).iter().position(|(_, t)| adt_last(*t) == "CaseSensitivity");
        let nrm = field_tys(mt, 0).iter().position(|(n, t)| is_bool(*t) && n.contains("normal"));
        let (Some(ci), Some(ni)) = (cst, nrm) else {
            rep.err(format!("{} lacks a case-sensitivity or normalisation field", adt_last(mt)));
            continue;
        };
        let cty = field_tys(mt, 0)[ci].1;
        let (Some(v_s), Some(v_m)) = (variant(cty, "Sensitive"), variant(cty, "Smart")) else {
            rep.err("CaseSensitivity variants changed".into());
            continue;
        };
        fresh_world();
        let seen: Rc<RefCell<Vec<(State, Cond, Cond, String)>>> = Rc::default();
        let s2 = seen.clone();
        let sel2 = sel.clone();
        let hook: Hook = Rc::new(move |it, _i, name, args, st| {
            if name != sel2 {
                return None;
            }
            if let (Some(Val::Bool(a)), Some(Val::Bool(b))) = (args.first(), args.get(1)) {
                s2.borrow_mut().push((st.clone(), a.clone(), b.clone(), it.where_().1));
            }
            Some(vec![])
        });
        let mut it = Interp::new();
        it.hooks = vec![hook];
        let mut st = State::new();
        let args: Vec<Val> = arg_tys(f).iter().enumerate().map(|(k, t)| mat(&mut st, *t, &format!("a{k}"), &[])).collect();
        st.frames.push(Rc::new(Frame { locals: args.clone() }));
        let (Val::Ptr(sp), Val::Agg(pv)) = (&args[0], &args[pk]) else { continue };
        let sv = it.read(st.clone(), sp);
        let Some((_, Val::Agg(sf))) = sv.first().cloned() else { continue };
        let (Val::Enum(cd, _), Val::Bool(norm), Val::Bool(upc)) = (&sf[ci], &sf[ni], &pv[up]) else { continue };
        let want = Cond::Or(vec![
            Cond::Eq(cd.plus(-(v_s as i128))),
            Cond::And(vec![Cond::Eq(cd.plus(-(v_m as i128))), upc.clone()]),
        ])
        .norm();
        let rets = it.call(f, args.clone(), st);
        // what is returned without consulting the selector is not a comparison
        let _ = rets;
        rep.absorb(&it);
        let calls = seen.borrow();
        if calls.is_empty() {
            continue;
        }
        metrics.insert(adt_last(mt));
        let iff = |it: &Interp, st: &State, a: &Cond, b: &Cond| {
            let v1 = it.judge(st, &Cond::Or(vec![a.not(), b.clone()]).norm());
            let v2 = it.judge(st, &Cond::Or(vec![a.clone(), b.not()]).norm());
            v1.max(v2)
        };
        for (s, a, b, l) in calls.iter() {
            let d = |c: &Cond| format!("passes {c:?}; reached when {}", show_num(&s.num));
            rep.ob(iff(&it, s, a, &want), "comparison is case-sensitive exactly when the mode is Sensitive, or Smart with an uppercase query",
                &format!("case mode in {}", def_path(f)), l, &d(a));
            rep.ob(iff(&it, s, b, norm), "candidates are normalised exactly when normalisation is on",
                &format!("normalisation flag in {}", def_path(f)), l, &d(b));
        }
    }
    if metrics.len() < 2 {
        rep.err(format!("comparison selection found only in {metrics:?}"));
    }
    // options bundle: a struct with a comparison and a flag
    for f in w.by_sig(|a, r| a.len() == 2 && a.iter().all(|t| is_bool(*t)) && field_tys(r, 0).iter().any(|(_, t)| is_char_eq(*t))) {
        let (_, rt) = sig(&f).unwrap();
        fresh_world();
        let r = run(&f, true, vec![]);
        rep.absorb(&r.it);
        if let Some(k) = field_by(rt, is_bool) {
            for (s, v) in &r.rets {
                let (Val::Agg(fs), Val::Bool(a0)) = (v, &r.args[0]) else { continue };
                let Val::Bool(b) = &fs[k] else { continue };
                let v1 = r.it.judge(s, &Cond::Or(vec![b.not(), a0.clone()]).norm()).max(r.it.judge(s, &Cond::Or(vec![b.clone(), a0.not()]).norm()));
                rep.ob(v1, "the case flag kept with a comparison is the one it was selected with", &format!("case flag in {}", def_path(&f)), &loc(&f), &format!("flag {b:?}"));
            }
        }
    }
}

// ------------------------------------------------------------------ scoring
struct Bon {
    match_: i128,
}
/// the reference: fzf's bonusFor
fn bonus_ref(prev: &str, next: &str, white: i128, delim: i128) -> i128 {
    let wordish = !matches!(next, "WhiteSpace" | "NonWord");
    if wordish {
        match prev {
            "WhiteSpace" => return white,
            "Delimiter" => return delim,
            "NonWord" => return 8,
            _ => {}
        }
    }
    if (prev == "Lower" && next == "Upper") || (prev != "Number" && next == "Number") {
        return 7;
    }
    match next {
        "NonWord" => 8,
        "WhiteSpace" => white,
        _ => 0,
    }
}
fn class_ref(c: char, delim: bool) -> Option<&'static str> {
    Some(if c.is_ascii() {
        if c == '\u{b}' {
            return None;
        }
        if c.is_ascii_lowercase() {
            "Lower"
        } else if c.is_ascii_uppercase() {
            "Upper"
        } else if c.is_ascii_digit() {
            "Number"
        } else if c.is_ascii_whitespace() {
            "WhiteSpace"
        } else if delim {
            "Delimiter"
        } else {
            "NonWord"
        }
    } else if c.is_lowercase() {
        "Lower"
    } else if c.is_uppercase() {
        "Upper"
    } else if c.is_numeric() {
        "Number"
    } else if c.is_alphabetic() {
        "Letter"
    } else if c.is_whitespace() {
        "WhiteSpace"
    } else if delim {
        "Delimiter"
    } else {
        "NonWord"
    })
}
fn int_ret(t: Ty) -> bool {
    int_bounds(t).is_some() && !is_char(t) && !is_bool(t)
}

pub fn scoring(rep: &mut Rep) {
    let _ = Bon { match_: 16 }.match_;
    let w = World::new();
    let (Some(st_), Some(cc)) = (w.scheme(), w.char_class()) else { return rep.err("no scoring scheme or character class type".into()) };
    let names = variant_names(cc);
    let sfields = field_tys(st_, 0);
    let (Some(fw), Some(fd), Some(fi), Some(fp)) = (
        sfields.iter().position(|(n, t)| int_ret(*t) && n.contains("white")),
        sfields.iter().position(|(n, t)| int_ret(*t) && n.contains("delim")),
        sfields.iter().position(|(_, t)| same(*t, cc)),
        sfields.iter().position(|(_, t)| is_char_pred(*t)),
    ) else {
        return rep.err("the scheme's fields changed".into());
    };
    // --- bonus of every pair of classes
    let fs = w.by_sig(|a, r| int_ret(r) && a.len() == 3 && a.iter().filter(|t| same(**t, cc)).count() == 2 && a.iter().any(|t| same(strip_refs(*t), st_)));
    if fs.is_empty() {
        rep.err("no function (class, class, scheme) -> score".into());
    }
    for f in fs {
        fresh_world();
        let (a, _) = sig(&f).unwrap();
        let cls: Vec<usize> = (0..3).filter(|k| same(a[*k], cc)).collect();
        let sk = (0..3).find(|k| same(strip_refs(a[*k]), st_)).unwrap();
        let r = run(&f, true, vec![]);
        rep.absorb(&r.it);
        if !complete(&r) {
            rep.ob(Verdict::Unproven, "bonus table", "bonus table", &loc(&f), "no finite table");
            continue;
        }
        for (wv, dv) in [(10, 9), (8, 9), (8, 8)] {
            for (pi, p) in names.iter().enumerate() {
                for (ni, n) in names.iter().enumerate() {
                    let e = |nm: &str, _: &[i128]| {
                        if nm == format!("a{}.disc", cls[0]) {
                            Some(pi as i128)
                        } else if nm == format!("a{}.disc", cls[1]) {
                            Some(ni as i128)
                        } else if nm == format!("a{sk}.{}", sfields[fw].0) {
                            Some(wv)
                        } else if nm == format!("a{sk}.{}", sfields[fd].0) {
                            Some(dv)
                        } else {
                            None
                        }
                    };
                    let got: BTreeSet<i128> = r.rets.iter().filter(|(s, _)| eval::num(&s.num, &e) == Some(true)).filter_map(|(_, v)| eval::val(v, &e)).collect();
                    let exp = bonus_ref(p, n, wv, dv);
                    rep.flag(got.len() == 1 && got.contains(&exp), "bonus of a class pair", &format!("bonus {p} -> {n} in {}", def_path(&f)), &loc(&f),
                        &format!("expected {exp}, table gives {got:?} (boundary bonuses {wv}/{dv})"));
                }
            }
        }
    }
    // --- class of every character
    let fs = w.by_sig(|a, r| same(r, cc) && a.len() == 2 && is_char(a[0]) && same(strip_refs(a[1]), st_));
    // the general one is the one that calls the others
    let mains: Vec<Instance> = fs.iter().filter(|f| !fs.iter().any(|g| g != *f && g.body().map_or(false, |b| crate::dump::callees(&b).contains(f)))).cloned().collect();
    if mains.is_empty() {
        rep.err("no function (char, scheme) -> class".into());
    }
    for f in mains {
        fresh_world();
        let r = run(&f, true, vec![]);
        rep.absorb(&r.it);
        if !complete(&r) {
            rep.ob(Verdict::Unproven, "class table", "class table", &loc(&f), "no finite table");
            continue;
        }
        let mut bad: BTreeMap<String, (u64, String)> = BTreeMap::new();
        let mut n = 0u64;
        for cp in 0..0x110000u32 {
            let Some(ch) = char::from_u32(cp) else { continue };
            for d in [false, true] {
                let Some(exp) = class_ref(ch, d) else { continue };
                n += 1;
                let e = |nm: &str, a: &[i128]| match nm {
                    "a0" => Some(cp as i128),
                    "fnptr" if a.len() == 2 => Some(d as i128),
                    _ if a.is_empty() && nm.starts_with("a1.") => Some(7),
                    _ => None,
                };
                let mut got: Option<Option<i128>> = None;
                for (s, v) in &r.rets {
                    if eval::num(&s.num, &e) == Some(true) {
                        let x = eval::val(v, &e);
                        if got.is_some_and(|g| g != x) {
                            got = Some(None);
                        } else {
                            got = Some(x);
                        }
                    }
                }
                let gn = got.flatten().and_then(|k| names.get(k as usize).cloned()).unwrap_or("?".into());
                if gn != exp {
                    let x = bad.entry(format!("class {exp}")).or_insert((0, String::new()));
                    x.0 += 1;
                    if x.0 < 4 {
                        x.1 += &format!(" {}{} is {gn};", show_c(cp as i128), if d { " (delimiter)" } else { "" });
                    }
                }
            }
        }
        *rep.numbers.entry("characters_classified".into()).or_default() += n;
        for c in &names {
            let k = format!("class {c}");
            match bad.get(&k) {
                Some((n, d)) => rep.ob(Verdict::Definite, "class of a character", &format!("{k} in {}", def_path(&f)), &loc(&f), &format!("{n} characters,{d}")),
                None => rep.ob(Verdict::Proved, "class of a character", &format!("{k} in {}", def_path(&f)), &loc(&f), ""),
            }
        }
    }
    // --- the three schemes
    let fz = match w.adt("FzfScheme") {
        Some(t) => t,
        None => return rep.err("FzfScheme is gone".into()),
    };
    let refs: [(&str, i128, i128, &str, &str); 3] = [("Default", 10, 9, "WhiteSpace", "/,:;|"), ("Path", 8, 9, "Delimiter", "/"), ("History", 8, 8, "WhiteSpace", "/,:;|")];
    let into = w.by_sig(|a, r| a.len() == 1 && same(strip_refs(a[0]), fz) && same(strip_refs(r), st_));
    if into.is_empty() {
        rep.err("no conversion from FzfScheme".into());
    }
    for f in into {
        fresh_world();
        let r = run(&f, true, vec![]);
        rep.absorb(&r.it);
        for (name, wv, dv, init, delims) in refs {
            let Some(k) = variant(fz, name) else {
                rep.err(format!("FzfScheme::{name} is gone"));
                continue;
            };
            let e = |_: &str, _: &[i128]| Some(k as i128);
            for (s, v) in r.rets.iter().filter(|(s, _)| eval::num(&s.num, &e) == Some(true)) {
                let v = match v {
                    Val::Ptr(p) => {
                        let mut it = Interp::new();
                        it.read(s.clone(), p).pop().map(|x| x.1).unwrap_or(Val::Undef)
                    }
                    v => v.clone(),
                };
                check_scheme(rep, &v, &format!("scheme {name} in {}", def_path(&f)), &loc(&f), (fw, fd, fi, fp), wv, dv, variant(cc, init), delims);
            }
        }
    }
    // --- what a metric uses once a scheme was set
    for f in w.fns.iter().filter(|f| match sig(f) {
        Some((a, _)) => a.len() == 2 && self_metric(a[0]).is_some() && same(a[1], fz),
        None => false,
    }) {
        fresh_world();
        let r = run(f, true, vec![]);
        rep.absorb(&r.it);
        let mt = strip_refs(sig(f).unwrap().0[0]);
        let Some(sk) = field_by(mt, |t| same(t, st_)) else { continue };
        for (name, wv, dv, init, delims) in refs {
            let Some(k) = variant(fz, name) else { continue };
            let e = |n: &str, _: &[i128]| (n == "a1.disc").then_some(k as i128);
            for (s, _) in r.rets.iter().filter(|(s, _)| eval::num(&s.num, &e) != Some(false)) {
                let Val::Ptr(p) = &r.args[0] else { continue };
                let mut it = Interp::new();
                for (_, v) in it.read(s.clone(), p) {
                    if let Val::Agg(fs) = v {
                        check_scheme(rep, &fs[sk], &format!("scheme after setting {name} in {}", def_path(f)), &loc(f), (fw, fd, fi, fp), wv, dv, variant(cc, init), delims);
                    }
                }
            }
        }
    }
}

fn check_scheme(rep: &mut Rep, v: &Val, key: &str, wher: &str, (fw, fd, fi, fp): (usize, usize, usize, usize), wv: i128, dv: i128, init: Option<u32>, delims: &str) {
    let Val::Agg(fs) = v else {
        return rep.ob(Verdict::Unproven, "scheme constants", key, wher, "not a scheme value");
    };
    let k = |v: &Val| match v {
        Val::Int(l) => l.is_const(),
        Val::Enum(d, _) => d.is_const(),
        _ => None,
    };
    let mut chk = |what: &str, got: Option<i128>, exp: i128| {
        let v = match got {
            Some(g) if g == exp => Verdict::Proved,
            Some(_) => Verdict::Definite,
            None => Verdict::Unproven,
        };
        rep.ob(v, "scheme constants", &format!("{key}: {what}"), wher, &format!("expected {exp}, found {got:?}"));
    };
    chk("bonus after white space", k(&fs[fw]), wv);
    chk("bonus after a delimiter", k(&fs[fd]), dv);
    chk("class before the first character", k(&fs[fi]), init.unwrap_or(99) as i128);
    let Val::Fn(FnVal::Inst(d)) = &fs[fp] else {
        return rep.ob(Verdict::Unproven, "scheme delimiters", key, wher, "delimiter test is not a function");
    };
    let r = run(d, true, vec![]);
    rep.absorb(&r.it);
    let Some(rows) = bool_table(&r) else {
        return rep.ob(Verdict::Unproven, "scheme delimiters", key, wher, "no finite table");
    };
    let mut pts: BTreeSet<i128> = (0..0x250).collect();
    breakpoints("a0", &rows, &mut pts);
    let mut bad = String::new();
    for c in pts {
        let e = |n: &str, _: &[i128]| (n == "a0").then_some(c);
        let exp = char::from_u32(c as u32).map_or(false, |ch| delims.contains(ch));
        match look(&rows, &e) {
            Some(g) if g == exp => {}
            g => bad += &format!(" {}: {g:?} instead of {exp};", show_c(c)),
        }
    }
    rep.flag(bad.is_empty(), "scheme delimiters", &format!("{key}: delimiters"), wher, &bad);
}

// ----------------------------------------------------------------- distance
pub fn distance_order(rep: &mut Rep) {
    let w = World::new();
    let Some(dt) = w.adt("FzfDistance") else { return rep.err("FzfDistance is gone".into()) };
    let find = |tr: &str, m: &str| {
        w.fns.iter().find(|f| {
            let n = def_path(f);
            n.contains("FzfDistance as") && n.contains(tr) && n.ends_with(m)
        })
    };
    let ints: Vec<usize> = field_tys(dt, 0).iter().enumerate().filter(|(_, (_, t))| int_ret(*t)).map(|x| x.0).collect();
    if ints.len() != 1 || field_tys(dt, 0).len() != 1 {
        return rep.err("FzfDistance is not a single score".into());
    }
    let score = |r: &Run, k: usize| -> Option<Lin> {
        let Val::Ptr(p) = &r.args[k] else { return None };
        let mut it = Interp::new();
        match it.read(r.st0.clone(), p).pop()?.1 {
            Val::Agg(a) => match &a[0] {
                Val::Int(l) => Some(l.clone()),
                _ => None,
            },
            _ => None,
        }
    };
    for (tr, m) in [("Ord", "::cmp"), ("PartialOrd", "::partial_cmp"), ("PartialEq", "::eq")] {
        let Some(f) = find(tr, m) else {
            rep.err(format!("FzfDistance has no {m}"));
            continue;
        };
        fresh_world();
        let r = run(f, true, vec![]);
        rep.absorb(&r.it);
        let (Some(a), Some(b)) = (score(&r, 0), score(&r, 1)) else { continue };
        let d = a.sub(&b);
        for (s, v) in &r.rets {
            let v = match (m, v) {
                ("::partial_cmp", Val::Enum(k, p)) => {
                    rep.flag(k.is_const() == Some(1), "a total order", &format!("partial_cmp is never None in {}", def_path(f)), &loc(f), &format!("{v:?}"));
                    match p.get(&1).and_then(|x| x.first()) {
                        Some(v) => v.clone(),
                        None => continue,
                    }
                }
                (_, v) => v.clone(),
            };
            match &v {
                Val::Bool(c) => {
                    let e = Cond::Eq(d.clone());
                    let x = r.it.judge(s, &Cond::Or(vec![c.not(), e.clone()]).norm()).max(r.it.judge(s, &Cond::Or(vec![c.clone(), e.not()]).norm()));
                    rep.ob(x, "equality agrees with the order", &format!("equality in {}", def_path(f)), &loc(f), &format!("{c:?}"));
                }
                Val::Enum(k, _) => {
                    // Less = 0, Equal = 1, Greater = 2: a better score is a smaller distance
                    for (code, c) in [(0, Cond::Ge(d.plus(-1))), (1, Cond::Eq(d.clone())), (2, Cond::Ge(d.neg().plus(-1)))] {
                        let is = Cond::Eq(k.plus(-code));
                        let x = r.it.judge(s, &Cond::Or(vec![is.not(), c.clone()]).norm());
                        rep.ob(x, "a better score is a smaller distance", &format!("order in {}", def_path(f)), &loc(f), &format!("returns {} when {}", show_val(&v), show_num(&s.num)));
                    }
                }
                _ => rep.ob(Verdict::Unproven, "a better score is a smaller distance", &format!("order in {}", def_path(f)), &loc(f), "result not modelled"),
            }
        }
        if !complete(&r) {
            rep.ob(Verdict::Unproven, "a better score is a smaller distance", &format!("order in {}", def_path(f)), &loc(f), "not fully modelled");
        }
    }
    // the distance carries the score it was made from
    for f in w.by_sig(|a, r| a.len() == 1 && int_ret(a[0]) && same(r, dt)) {
        fresh_world();
        let r = run(&f, true, vec![]);
        rep.absorb(&r.it);
        let Val::Int(a) = &r.args[0] else { continue };
        for (s, v) in &r.rets {
            if let Val::Agg(x) = v {
                if let Val::Int(l) = &x[0] {
                    rep.ob(r.it.judge(s, &Cond::Eq(l.sub(a))), "a distance carries its score", &format!("score kept in {}", def_path(&f)), &loc(&f), &format!("{l:?}"));
                }
            }
        }
    }
}

// ----------------------------------------------------------------- settings
pub fn defaults(rep: &mut Rep) {
    let w = World::new();
    let (Some(st_), Some(cc)) = (w.scheme(), w.char_class()) else { return rep.err("no scoring scheme".into()) };
    let sf = field_tys(st_, 0);
    let (Some(fw), Some(fd), Some(fi), Some(fp)) = (
        sf.iter().position(|(n, t)| int_ret(*t) && n.contains("white")),
        sf.iter().position(|(n, t)| int_ret(*t) && n.contains("delim")),
        sf.iter().position(|(_, t)| same(*t, cc)),
        sf.iter().position(|(_, t)| is_char_pred(*t)),
    ) else {
        return rep.err("the scheme's fields changed".into());
    };
    let mut seen = BTreeSet::new();
    for f in w.by_sig(|a, r| a.is_empty() && self_metric(r).is_some()) {
        let mt = sig(&f).unwrap().1;
        let n = def_path(&f);
        let key = |k: &str| format!("{k} in {n}");
        fresh_world();
        let r = run(&f, true, vec![]);
        rep.absorb(&r.it);
        seen.insert((adt_last(mt), n.rsplit("::").next().unwrap_or("").to_string()));
        for (_, v) in &r.rets {
            let Val::Agg(fs) = v else { continue };
            for (k, (name, t)) in field_tys(mt, 0).iter().enumerate() {
                if adt_last(*t) == "CaseSensitivity" {
                    let got = match &fs[k] {
                        Val::Enum(d, _) => d.is_const(),
                        _ => None,
                    };
                    rep.known(got, variant(*t, "Smart").map(|x| x as i128), "documented default", &key("case sensitivity defaults to Smart"), &loc(&f));
                } else if is_bool(*t) && name.contains("normal") {
                    let got = match &fs[k] { Val::Bool(Cond::F) => Some(0), Val::Bool(Cond::T) => Some(1), _ => None };
                    rep.known(got, Some(0), "documented default", &key("candidate normalisation defaults to off"), &loc(&f));
                } else if same(*t, st_) {
                    check_scheme(rep, &fs[k], &key("default scheme"), &loc(&f), (fw, fd, fi, fp), 10, 9, variant(cc, "WhiteSpace"), "/,:;|");
                }
            }
        }
    }
    for m in ["FzfV1", "FzfV2"] {
        for c in ["new", "default"] {
            if !seen.contains(&(m.to_string(), c.to_string())) {
                rep.err(format!("{m}::{c} not found"));
            }
        }
    }
    for (ty, v) in [("CaseSensitivity", "Smart"), ("FzfScheme", "Default")] {
        for f in w.by_sig(|a, r| a.is_empty() && is_adt(r, ty)) {
            let t = sig(&f).unwrap().1;
            fresh_world();
            let r = run(&f, true, vec![]);
            rep.absorb(&r.it);
            for (_, x) in &r.rets {
                let got = match x {
                    Val::Enum(d, _) => d.is_const(),
                    _ => None,
                };
                rep.known(got, variant(t, v).map(|x| x as i128), "documented default", &format!("{ty} defaults to {v} in {}", def_path(&f)), &loc(&f));
            }
        }
    }
    // the best possible distance for an empty query
    for f in w.by_sig(|a, r| a.is_empty() && is_adt(r, "FzfDistance")) {
        fresh_world();
        let r = run(&f, true, vec![]);
        rep.absorb(&r.it);
        for (_, x) in &r.rets {
            let got = match x { Val::Agg(a) => match &a[0] { Val::Int(l) => l.is_const(), _ => None }, _ => None };
            rep.known(got, Some(0), "documented default", &format!("default distance is the zero score in {}", def_path(&f)), &loc(&f));
        }
    }
}

/// every setter changes its own setting, to its argument, and nothing else
pub fn setters(rep: &mut Rep) {
    let w = World::new();
    let fz = w.adt("FzfScheme");
    let mut count = 0;
    for f in w.fns.iter() {
        let Some((a, ret)) = sig(f) else { continue };
        if a.len() != 2 || self_metric(a[0]).is_none() || pointee(a[0]).is_none() || self_metric(ret).is_none() {
            continue;
        }
        let mt = strip_refs(a[0]);
        let is_scheme = fz.is_some_and(|t| same(t, a[1]));
        fresh_world();
        let r = run(f, true, vec![]);
        rep.absorb(&r.it);
        count += 1;
        let n = def_path(f);
        let Val::Ptr(p) = &r.args[0] else { continue };
        let mut it = Interp::new();
        let Some((_, Val::Agg(before))) = it.read(r.st0.clone(), p).pop() else { continue };
        if !complete(&r) {
            rep.ob(Verdict::Unproven, "setter effect", &format!("effect of {n}"), &loc(f), "not fully modelled");
            continue;
        }
        let own: Vec<usize> = field_tys(mt, 0).iter().enumerate().filter(|(_, (_, t))| if is_scheme { w.scheme().is_some_and(|s| same(s, *t)) } else { same(*t, a[1]) || *t == a[1] }).map(|x| x.0).collect();
        for (s, v) in &r.rets {
            rep.flag(matches!(v, Val::Ptr(q) if q == p), "a setter returns the metric it was called on", &format!("result of {n}"), &loc(f), &format!("{v:?}"));
            for (_, after) in it.read(s.clone(), p) {
                let Val::Agg(after) = after else { continue };
                for (k, (fname, _)) in field_tys(mt, 0).iter().enumerate() {
                    if own.contains(&k) {
                        if !is_scheme {
                            rep.flag(after[k] == r.args[1], "a setter stores its argument", &format!("{fname} set by {n}"), &loc(f), &format!("{:?}", after[k]));
                        }
                    } else {
                        rep.flag(after[k] == before[k], "a setter changes nothing else", &format!("{fname} untouched by {n}"), &loc(f), &format!("{:?}", after[k]));
                    }
                }
            }
        }
    }
    if count < 6 {
        rep.err(format!("only {count} setters found"));
    }
}

/// a clone has the settings of what it was cloned from, which stays as it was
pub fn clones(rep: &mut Rep) {
    const KEEP: &str = "a clone has the settings of its original";
    let w = World::new();
    let mut count = 0;
    for f in w.fns.iter() {
        let Some((a, ret)) = sig(f) else { continue };
        if a.len() != 1 || !def_path(f).ends_with("::clone") || self_metric(a[0]).is_none() || pointee(a[0]).is_none() || self_metric(ret).is_none() {
            continue;
        }
        let mt = strip_refs(a[0]);
        fresh_world();
        let r = run(f, true, vec![]);
        rep.absorb(&r.it);
        count += 1;
        let n = def_path(f);
        let Val::Ptr(p) = &r.args[0] else { continue };
        let mut it = Interp::new();
        let Some((_, before)) = it.read(r.st0.clone(), p).pop() else { continue };
        let before = crate::fuzzy::settings_of(&before, mt);
        let mut t = crate::sem::Tally::new(rep);
        for (s, v) in &r.rets {
            crate::fuzzy::same_settings(&mut t, &it, s, &before, &crate::fuzzy::settings_of(v, mt), KEEP, &n, &loc(f));
            if let Some((_, x)) = it.read(s.clone(), p).pop() {
                crate::fuzzy::same_settings(&mut t, &it, s, &before, &crate::fuzzy::settings_of(&x, mt), KEEP, &format!("{n}: the original"), &loc(f));
            }
        }
        t.done();
    }
    if count < 2 {
        rep.err(format!("only {count} metrics that can be cloned found"));
    }
}
