//! Facts about interpreted terms, added on demand.
use crate::num::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet};

fn collect(l: &Lin, out: &mut BTreeSet<S>) {
    for (s, _) in &l.t {
        if out.insert(*s) {
            if let SymKind::App(_, a) = sym_kind(*s) {
                for x in &a {
                    if let Arg::L(l) = x {
                        collect(l, out)
                    }
                }
            }
        }
    }
}

/// `num` plus instances of the axioms for the terms in it and in `goals`.
pub fn saturate(num: &Num, goals: &[Lin]) -> Num {
    let mut n = num.clone();
    let mut syms: BTreeSet<S> = BTreeSet::new();
    let mut work: Vec<Lin> = goals.to_vec();
    // terms connected with the goals
    let mut vars: BTreeSet<S> = BTreeSet::new();
    for g in &work {
        collect(g, &mut vars);
    }
    loop {
        let before = vars.len();
        // lengths and character counts of a text belong together
        for l in num.ge.iter().chain(num.ne.iter()) {
            for (s, _) in &l.t {
                if let SymKind::App(f, a) = sym_kind(*s) {
                    if let (true, Some(Arg::O(o))) = (matches!(f.as_str(), "nchars" | "bsum" | "cidx"), a.first()) {
                        if str_len(*o).single().is_some_and(|x| vars.contains(&x)) {
                            vars.insert(*s);
                        }
                    }
                }
            }
        }
        for l in num.ge.iter().chain(num.ne.iter()) {
            if l.t.iter().any(|(s, _)| vars.contains(s)) {
                for (s, _) in &l.t {
                    vars.insert(*s);
                }
                work.push(l.clone());
            }
        }
        if vars.len() == before || vars.len() > 200 {
            break;
        }
    }
    work.sort();
    work.dedup();
    for l in &work {
        collect(l, &mut syms);
    }
    let mut groups: BTreeMap<String, Vec<(S, Vec<Arg>)>> = BTreeMap::new();
    for s in &syms {
        if let SymKind::App(f, a) = sym_kind(*s) {
            groups.entry(f).or_default().push((*s, a));
        }
    }
    // terms about str objects that must exist
    let mut objs: BTreeSet<O> = BTreeSet::new();
    for f in ["bsum", "cidx", "nchars", "ch"] {
        for (_, a) in groups.get(f).into_iter().flatten() {
            if let Arg::O(o) = a[0] {
                objs.insert(o);
            }
        }
    }
    for round in 0..2 {
        for o in &objs {
            let nc = nchars(*o);
            let len = str_len(*o);
            n.add_ge(&len.sub(&nc));
            n.add_ge(&nc.scale(4).sub(&len));
            // positions: (char index, byte offset)
            let mut pos: Vec<(Lin, Lin)> = vec![(Lin::k(0), Lin::k(0)), (nc.clone(), len.clone())];
            for (s, a) in groups.get("bsum").into_iter().flatten() {
                if let (Arg::O(x), Arg::L(k)) = (&a[0], &a[1]) {
                    if x == o && pos.len() < 14 {
                        pos.push((k.clone(), Lin::s(*s)));
                    }
                }
            }
            for (s, a) in groups.get("cidx").into_iter().flatten() {
                if let (Arg::O(x), Arg::L(b)) = (&a[0], &a[1]) {
                    if x == o && pos.len() < 14 {
                        pos.push((Lin::s(*s), b.clone()));
                    }
                }
            }
            for i in 0..pos.len() {
                for j in 0..pos.len() {
                    if i == j {
                        continue;
                    }
                    let d = pos[j].0.sub(&pos[i].0);
                    let b = pos[j].1.sub(&pos[i].1);
                    if i < 2 && j < 2 {
                        continue;
                    }
                    if n.entails_ge(&d) {
                        n.add_ge(&b.sub(&d));
                        n.add_ge(&d.scale(4).sub(&b));
                    } else if n.entails_ge(&b) {
                        n.add_ge(&d);
                        n.add_ge(&b.sub(&d));
                        n.add_ge(&d.scale(4).sub(&b));
                    }
                }
            }
        }
        // products
        if let Some(ms) = groups.get("mul").cloned() {
            let ms = &ms[..ms.len().min(12)];
            let fac = |a: &Vec<Arg>| -> Vec<(Lin, Lin)> {
                match (&a[0], &a[1]) {
                    (Arg::L(x), Arg::L(y)) => vec![(x.clone(), y.clone()), (y.clone(), x.clone())],
                    _ => vec![],
                }
            };
            for (s, a) in ms {
                for (x, w) in fac(a) {
                    if n.entails_ge(&w) {
                        for k in [1, 2] {
                            if n.entails_ge(&x.plus(-k)) {
                                n.add_ge(&Lin::s(*s).sub(&w.scale(k)));
                            }
                        }
                    }
                }
            }
            for (s, a) in ms {
                for (r, b) in ms {
                    if s == r {
                        continue;
                    }
                    for (x, w) in fac(a) {
                        for (y, v) in fac(b) {
                            if w != v || !n.entails_ge(&w) {
                                continue;
                            }
                            // s = x*w, r = y*w
                            let d = x.sub(&y);
                            for k in [2, 1, 0] {
                                if n.entails_ge(&d.plus(-k)) {
                                    n.add_ge(&Lin::s(*s).sub(&Lin::s(*r)).sub(&w.scale(k)));
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        // congruence
        for (f, v) in &groups {
            if matches!(f.as_str(), "bsum" | "cidx" | "mul" | "nchars") || v.len() > 40 {
                continue;
            }
            for i in 0..v.len() {
                for j in 0..i {
                    let (a, b) = (&v[i].1, &v[j].1);
                    let mut same = a.len() == b.len();
                    for k in 0..a.len() {
                        if !same {
                            break;
                        }
                        same = match (&a[k], &b[k]) {
                            (Arg::L(x), Arg::L(y)) => x == y || n.entails_eq(&x.sub(y)),
                            (Arg::O(x), Arg::O(y)) => x == y,
                            _ => false,
                        };
                    }
                    if same {
                        n.add_eq(&Lin::s(v[i].0).sub(&Lin::s(v[j].0)));
                    }
                }
            }
        }
        if n.bot || round == 1 {
            break;
        }
    }
    n
}
