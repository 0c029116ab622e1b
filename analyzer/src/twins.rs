//! C03: asking for ranges changes nothing else. The two instances of a
//! function are analysed on the same inputs and what they return is compared.
use crate::fuzzy;
use crate::interp::*;
use crate::leaf::*;
use crate::query;
use crate::report::*;
use crate::roots::*;
use crate::search::*;
use crate::mat::*;
use crate::sem::*;
use crate::tables::*;
use crate::anchors::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use std::collections::BTreeMap;

pub const SAME: &str = "whether ranges are asked for does not change the result";

/// when two values are the same
pub fn alike(a: &Val, b: &Val) -> Option<Cond> {
    Some(match (a, b) {
        (Val::Int(x), Val::Int(y)) => eql(x, y),
        (Val::Bool(x), Val::Bool(y)) => iff(x, y),
        (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => Cond::And(x.iter().zip(y.iter()).map(|(x, y)| alike(x, y)).collect::<Option<_>>()?).norm(),
        (Val::Enum(x, p), Val::Enum(y, q)) => {
            let mut c = vec![eql(x, y)];
            for (k, fs) in p.iter() {
                let Some(gs) = q.get(k) else { continue };
                if fs.is_empty() || x.is_const().is_some_and(|d| d != *k as i128) || y.is_const().is_some_and(|d| d != *k as i128) {
                    continue;
                }
                let same = Cond::And(fs.iter().zip(gs.iter()).map(|(x, y)| alike(x, y)).collect::<Option<_>>()?).norm();
                c.push(implies(&eqk(x, *k as i128), &same));
            }
            Cond::And(c).norm()
        }
        _ => return None,
    })
}
type Box1 = BTreeMap<S, (i128, i128)>;
/// the bounds a state has for single symbols
fn boxed(s: &State) -> Box1 {
    let mut out = Box1::new();
    for l in s.num.ge.iter() {
        if let [(x, k)] = l.t[..] {
            let e = out.entry(x).or_insert((i128::MIN, i128::MAX));
            match k {
                1 => e.0 = e.0.max(-l.c),
                -1 => e.1 = e.1.min(l.c),
                _ => {}
            }
        }
    }
    out
}
fn apart(a: &Box1, b: &Box1) -> bool {
    a.iter().any(|(x, (lo, hi))| b.get(x).is_some_and(|(l, h)| l > hi || h < lo))
}
/// both lists cover the same inputs
pub fn twins(t: &mut Tally, it: &mut Interp, a: &[(State, Val)], b: &[(State, Val)], how: &str, wher: &str) {
    let bs: Vec<Box1> = b.iter().map(|x| boxed(&x.0)).collect();
    for (s, v) in a {
        let mine = boxed(s);
        for ((s2, v2), b2) in b.iter().zip(&bs) {
            if apart(&mine, b2) {
                continue;
            }
            let Some(c) = alike(v, v2) else {
                t.add(Verdict::Unproven, SAME, how, wher, || format!("{} and {}", show_val(v), show_val(v2)));
                continue;
            };
            if c == Cond::T {
                t.add(Verdict::Proved, SAME, how, wher, String::new);
                continue;
            }
            let both = Cond::And(s2.num.ge.iter().map(|l| Cond::Ge(l.clone())).chain(s2.num.ne.iter().map(|l| Cond::Eq(l.clone()).not())).collect()).norm();
            for mut s in it.assume(s.clone(), &both) {
                s.tags.extend(s2.tags.iter().cloned());
                if s.poison.is_none() {
                    s.poison = s2.poison.clone();
                }
                t.add(it.strict(&s, &c), SAME, how, wher, || format!("{} with ranges, {} without, when {}", show_val(v), show_val(v2), show_num(&s.num)));
            }
        }
    }
}
/// the instances of generic functions that differ in whether ranges are wanted
pub fn pairs(fs: &[Instance]) -> Vec<(Instance, Instance)> {
    let with = |f: &Instance| f.name().to_string().contains("true");
    let mut out = vec![];
    for f in fs.iter().filter(|f| with(f)) {
        if let Some(g) = fs.iter().find(|g| !with(g) && def_path(g) == def_path(f)) {
            out.push((f.clone(), g.clone()));
        }
    }
    out
}
pub fn check(rep: &mut Rep, thorough: bool) {
    if mine() {
        query::twin_queries(rep);
    }
    let Some(kit) = Kit::new(rep) else { return };
    for (f, g) in pairs(&fuzzy::fuzzies(&kit)) {
        let v2 = f.name().to_string().contains("V2");
        for m in 1..=3 {
            let top = match (v2, m, thorough) {
                (false, _, false) => 4,
                (false, _, true) => 5,
                (true, 1, _) => 4,
                (true, _, false) => 3,
                (true, 2, true) => 4,
                (true, _, true) => 3,
            };
            for n in 0..=top {
                for ascii in [false, true] {
                    if mine() {
                        fuzzy::twin_fuzzy(rep, &kit, &f, &g, m, n, ascii, None);
                    }
                }
            }
        }
        for (text, host) in [("ab", "axbb"), ("ab", "aabxb"), ("ab", "abxab"), ("abc", "axbxc"), ("abc", "abbxc"), ("aab", "aaxab"), ("aba", "abbaa")] {
            if mine() {
                fuzzy::twin_fuzzy(rep, &kit, &f, &g, text.len() as i128, host.len() as i128, false, Some((text, host)));
            }
        }
        for (text, host) in fuzzy::long_words(if thorough { 1000 } else { 200 }).into_iter().filter(|w| thorough || w.1.len() < 64) {
            for ascii in [false, true] {
                if mine() {
                    fuzzy::twin_fuzzy(rep, &kit, &f, &g, text.len() as i128, host.len() as i128, ascii, Some((&text, &host)));
                }
            }
        }
    }
    twin_leaves(rep, &kit, if thorough { 5 } else { 4 });
}
/// compares two runs on the same inputs
pub fn both(rep: &mut Rep, a: &mut Run, b: &Run, how: &str, wher: &str) {
    let mut t = Tally::new(rep);
    if a.it.overflow || b.it.overflow || a.rets.is_empty() || b.rets.is_empty() {
        t.add(Verdict::Unproven, SAME, how, wher, || "the analysis gave up".into());
    }
    let rets = std::mem::take(&mut a.rets);
    twins(&mut t, &mut a.it, &rets, &b.rets, how, wher);
    t.done();
}
/// short texts in short candidates
fn twin_leaves(rep: &mut Rep, kit: &Kit, top: i128) {
    for (f, g) in pairs(&kit.w.fns) {
        let Some((role, ks)) = kit.roles.get(&def_path(&f)) else { continue };
        if *role != "leaf" && *role != "score" {
            continue;
        }
        let pos = |a: A| ks.iter().position(|x| *x == a).unwrap();
        let (cp, pp) = (pos(A::Cand), pos(A::Pat));
        let fields = field_tys(kit.pf.ty, 0);
        let at = arg_tys(&f);
        let bounds = at.iter().position(|t| range_ty(*t));
        for m in 1..=3 {
            for n in 0..=top {
                for ascii in [true, false] {
                    let spans: Vec<(i128, i128)> = if *role == "score" { (0..n).flat_map(|a| (a + m..=n).map(move |b| (a, b))).collect() } else { vec![(0, 0)] };
                    for (from, to) in spans {
                        if !mine() {
                            continue;
                        }
                        fresh_world();
                        let variant = if ascii { kit.asc } else { kit.uni };
                        pin(&format!("a{cp}.disc"), variant as i128);
                        pin(&format!("a{pp}.{}.len", fields[kit.pf.text].0), m);
                        pin(&format!("a{cp}.{}.0.len", variant_names(kit.cand)[variant as usize]), n);
                        let pre = |args: &[Val]| {
                            let mut c = vec![];
                            if let Val::Agg(fs) = &args[pp] {
                                if let (Some(l), Some(t)) = (int(&fs[kit.pf.lead]), int(&fs[kit.pf.trail])) {
                                    c.push(ge(&Lin::k(m), &l));
                                    c.push(ge(&Lin::k(m), &t));
                                }
                            }
                            if let Some(Val::Agg(fs)) = bounds.map(|b| &args[b]) {
                                for (f, v) in fs.iter().zip([from, to]) {
                                    if let Some(l) = int(f) {
                                        c.push(eqk(&l, v));
                                    }
                                }
                            }
                            Cond::And(c).norm()
                        };
                        let roles: &[&'static str] = if *role == "score" { &["class", "bonus", "byte_range", "byte_offset", "insert", "clear"] } else { &["lead", "trail", "class", "bonus", "score", "byte_range", "byte_offset", "insert", "clear"] };
                        let run = |f: &Instance| {
                            run_pre_with(f, kit.hooks(roles), 3000, &pre, |it| {
                                it.opaque_ty.clear();
                                it.peel = 9;
                            })
                        };
                        let mut a = run(&f);
                        let b = run(&g);
                        rep.absorb(&a.it);
                        rep.absorb(&b.it);
                        let last = def_path(&f).rsplit("::").next().unwrap_or("").to_string();
                        let place = if *role == "score" { format!(" at {from}..{to}") } else { String::new() };
                        both(rep, &mut a, &b, &format!("{last} of {m} in {n}{}{place}", if ascii { " ASCII" } else { "" }), &loc(&f));
                    }
                }
            }
        }
    }
}
