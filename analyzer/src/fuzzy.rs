//! Fuzzy matching: which candidates match and what is reported.
use crate::anchors::*;
use crate::interp::*;
use crate::leaf::*;
use crate::mat::*;
use crate::points::*;
use crate::report::*;
use crate::roots::*;
use crate::search::*;
use crate::sem::*;
use crate::tables::*;
use crate::term::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use std::rc::Rc;

/// every owned buffer of a value, and every settings enum
fn walk(v: &Val, t: Ty, f: &mut dyn FnMut(&Val, Ty)) {
    f(v, t);
    match v {
        Val::Agg(fs) if variant_names(t).len() <= 1 => {
            for ((_, ft), fv) in field_tys(t, 0).iter().zip(fs.iter()) {
                walk(fv, *ft, f);
            }
        }
        _ => {}
    }
}
/// fn(bool, bool) -> fn(char, char) -> bool becomes one unknown comparison
fn choose_eq(kit: &Kit) -> Hook {
    let fns: Vec<String> = kit.w.fns.iter().filter(|f| ret(f).is_some_and(is_char_eq)).map(def_path).collect();
    Rc::new(move |_: &mut Interp, _: &Instance, name: &str, _: &[Val], st: &State| {
        if !fns.iter().any(|f| f == name) {
            return None;
        }
        Some(vec![(st.clone(), Val::Fn(FnVal::Sym(the_eq())))])
    })
}
pub fn the_eq() -> Lin {
    Lin::s(app("eq", vec![], Some(0), Some(i64::MAX as i128), 0))
}
pub fn width_of(c: &Lin) -> Lin {
    Lin::s(app("utf8len", vec![Arg::L(c.clone())], Some(1), Some(4), 0))
}
fn widths() -> Hook {
    Rc::new(|_: &mut Interp, _: &Instance, name: &str, args: &[Val], st: &State| {
        if !(name.ends_with("::len_utf8") && name.contains("char")) {
            return None;
        }
        let c = int(args.first()?)?;
        Some(vec![(st.clone(), Val::Int(width_of(&c)))])
    })
}
pub fn fuzzies(kit: &Kit) -> Vec<Instance> {
    kit.w
        .fns
        .iter()
        .filter(|f| {
            let (Some((a, _)), Some(r)) = (sig(f), ret(f)) else { return false };
            let ks: Vec<A> = a.iter().map(|t| kit.kind(*t)).collect();
            let p = def_path(f);
            opt_int(r) && ks.len() == 4 && ks[0] == A::Other && ks.contains(&A::Pat) && ks.contains(&A::Cand) && ks.contains(&A::Ranges) && p.rsplit("::").next().unwrap_or("").contains("fuzzy")
        })
        .cloned()
        .collect()
}

pub const FOUND: &str = "a fuzzy word matches exactly when its characters occur in order";
pub const MARKED: &str = "the ranges reported for a fuzzy word are those of its characters, in order, each equal to a character of the candidate";
pub const UNTOUCHED: &str = "no range is reported without a match, nor when none is asked for";

fn combos(n: i128, m: i128) -> Vec<Vec<i128>> {
    if m == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for last in m - 1..n {
        for mut c in combos(last, m - 1) {
            c.push(last);
            out.push(c);
        }
    }
    out
}
/// byte offset of character `i`: the widths of the characters before it
fn expand(l: &Lin, co: O, ascii: bool) -> Lin {
    let ch = |i: i128| char_at(co, &Lin::k(i));
    let mut out = Lin::k(l.c);
    for (x, k) in &l.t {
        let one = match sym_kind(*x) {
            SymKind::App(f, a) if f == "byteoff" => match &a[..] {
                [Arg::L(i)] if ascii => Some(i.clone()),
                [Arg::L(i)] => i.is_const().map(|i| (0..i).fold(Lin::k(0), |s, j| s.add(&width_of(&ch(j))))),
                _ => None,
            },
            SymKind::App(f, _) if ascii && f == "utf8len" => Some(Lin::k(1)),
            _ => None,
        };
        out = out.add(&one.unwrap_or(Lin::s(*x)).scale(*k));
    }
    out
}
pub fn explore(rep: &mut Rep) {
    let Some(kit) = Kit::new(rep) else { return };
    let (m, n): (i128, i128) = (std::env::var("M").unwrap().parse().unwrap(), std::env::var("N").unwrap().parse().unwrap());
    for f in fuzzies(&kit) {
        let nm = f.name().to_string();
        if let Ok(p) = std::env::var("ONLY") {
            if !nm.contains(&p) {
                continue;
            }
        }
        let word = std::env::var("WORD").ok();
        let word = word.as_ref().and_then(|w| w.split_once(' '));
        fuzzy(rep, &kit, &f, m, n, std::env::var("ASC").is_ok(), word, &[FOUND, MARKED, UNTOUCHED, POINTS, PLACE]);
    }
}
pub const POINTS: &str = "the points of a fuzzy word are those fzf's algorithm gives";
pub const PLACE: &str = "of several occurrences of a fuzzy word the one fzf's algorithm picks is reported";

/// the ways m characters can be equal to each other: a, ab, aab, ...
fn shapes(m: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    for _ in 0..m {
        out = out
            .into_iter()
            .flat_map(|w| {
                let top = w.bytes().max().map_or(b'a', |x| x + 1);
                (b'a'..=top).map(move |c| format!("{w}{}", c as char))
            })
            .collect();
    }
    out
}
/// the candidates of n characters in which a text occurs, from its first
/// character to its last; x is any other character
fn hosts(text: &str, n: usize) -> Vec<String> {
    let mut letters: Vec<char> = text.chars().collect();
    letters.sort();
    letters.dedup();
    letters.push('x');
    let (first, last) = (text.chars().next().unwrap(), text.chars().last().unwrap());
    let mut out = vec![first.to_string()];
    for _ in 2..n {
        out = out.into_iter().flat_map(|w| letters.iter().map(move |c| format!("{w}{c}")).collect::<Vec<_>>()).collect();
    }
    out.retain_mut(|w| {
        w.push(last);
        let mut it = w.chars();
        text.chars().all(|c| it.any(|d| d == c))
    });
    out
}
/// the cases of a state in which the characters have given widths
fn by_widths(it: &Interp, s: &State, cs: &[Lin]) -> Vec<State> {
    let widths: &[(i128, i128, i128)] = &[(1, 0, 0x7f), (2, 0x80, 0x7ff), (3, 0x800, 0xffff), (4, 0x10000, 0x10ffff)];
    let mut cur = vec![s.clone()];
    for c in cs {
        let few = cs.len() > 2;
        cur = cur
            .into_iter()
            .flat_map(|s| {
                widths
                    .iter()
                    .filter(move |w| !few || w.0 == 1 || w.0 == 3)
                    .flat_map(|(w, lo, hi)| split(it, vec![s.clone()], &Cond::And(vec![eqk(&width_of(c), *w), ge(c, &Lin::k(*lo)), ge(&Lin::k(*hi), c)]).norm()).0)
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    cur
}
/// C20, C21, C27
pub fn words(rep: &mut Rep, rules: &[&str], who: &str, thorough: bool) {
    let Some(kit) = Kit::new(rep) else { return };
    let mut seen = vec![];
    for f in fuzzies(&kit) {
        let nm = f.name().to_string();
        if !nm.contains(who) {
            continue;
        }
        let v2 = nm.contains("V2");
        seen.push((v2, nm.contains("true")));
        for m in 1..=3 {
            let top = match (v2, m) {
                (false, _) => 5,
                (_, 1) => 4,
                (_, 2) if thorough => 4,
                _ => 3,
            };
            for n in 0..=top {
                for ascii in [false, true] {
                    if mine() {
                        fuzzy(rep, &kit, &f, m, n, ascii, None, rules);
                    }
                }
            }
        }
        // text length, candidate length, at most so many equal pairs
        let all = usize::MAX;
        let sizes: &[(usize, usize, usize)] = match (v2, thorough) {
            (false, false) => &[(2, 6, all), (3, 6, all)],
            (false, true) => &[(2, 7, all), (3, 7, all), (4, 6, all)],
            (true, false) => &[(2, 4, all), (2, 5, 7), (3, 4, 9), (3, 5, 7)],
            (true, true) => &[(2, 4, all), (2, 5, all), (2, 6, 8), (3, 4, all), (3, 5, all), (3, 6, 7), (4, 4, 8), (4, 5, 8)],
        };
        for (m, n, most) in sizes {
            if v2 && !thorough && *n == 5 && !nm.contains("true") {
                continue;
            }
            for text in shapes(*m) {
                for host in hosts(&text, *n) {
                    let pairs = text.chars().map(|c| host.chars().filter(|d| c == *d).count()).sum::<usize>();
                    if pairs <= *most && mine() {
                        fuzzy(rep, &kit, &f, *m as i128, *n as i128, false, Some((&text, &host)), rules);
                    }
                }
            }
        }
    }
    for (text, host) in long_words(if thorough { 1500 } else { 300 }).into_iter().filter(|w| thorough || w.1.len() < 64) {
        for f in fuzzies(&kit).iter().filter(|f| f.name().to_string().contains(who)) {
            for ascii in [false, true] {
                if mine() {
                    fuzzy(rep, &kit, f, text.len() as i128, host.len() as i128, ascii, Some((&text, &host)), rules);
                }
            }
        }
    }
    for v2 in [false, true] {
        for r in [false, true] {
            if (if v2 { "V2" } else { "V1" }).contains(who) && !seen.contains(&(v2, r)) {
                rep.err(format!("no function searches fuzzy words in FzfV{}{}", 1 + v2 as u8, if r { " with ranges" } else { "" }));
            }
        }
    }
}

/// texts in longer candidates
pub fn long_words(count: usize) -> Vec<(String, String)> {
    let mut seed = 7u64;
    let mut dice = move |n: usize| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 33) as usize % n
    };
    let letters: [&[u8]; 4] = [b"abc", b"abA", b"ab1c", b"a_bA"];
    let others: [&[u8]; 4] = [b"x", b"x_", b"xX/ ", b"xX_/ 2"];
    (0..count)
        .map(|k| {
            let (own, fill) = (letters[dice(4)], others[dice(4)]);
            let (m, n) = match k % 64 {
                // longer than the buffers are at first
                63 => (2, 130 + dice(20)),
                k if k % 8 == 7 => (1 + dice(8), 8 + dice(40)),
                _ => (1 + dice(5), 8 + dice(16)),
            };
            let text: String = (0..m).map(|_| own[dice(own.len())] as char).collect();
            // how many of ten are characters of the text
            let dense = if n > 64 { 1 } else { 1 + dice(8) };
            let mut host: Vec<char> = (0..n).map(|_| if dice(10) < dense { own[dice(own.len())] as char } else { fill[dice(fill.len())] as char }).collect();
            // most contain the text
            if dice(8) > 0 && m <= n {
                let mut at = dice(n - m + 1);
                for (i, c) in text.chars().enumerate() {
                    host[at] = c;
                    let left = n - at - (m - i);
                    at += 1 + if left > 0 { dice(left.min(4) + 1) } else { 0 };
                }
            }
            // spread over all of a very long one
            if n > 64 {
                host[0] = text.chars().next().unwrap();
                host[n - 1] = text.chars().last().unwrap();
            }
            (text, host.into_iter().collect())
        })
        .collect()
}
/// the bonuses of the characters of a longer candidate, as the default scheme
/// gives them to characters of these classes
fn placed(host: &str) -> Option<Vec<i128>> {
    if host.chars().count() < 8 {
        return None;
    }
    // white space, delimiter, other; lower, upper, number
    let class = |c: char| match c {
        ' ' => 0,
        '/' => 1,
        '_' => 2,
        'A'..='Z' => 4,
        '0'..='9' => 5,
        _ => 3,
    };
    let mut before = 0;
    Some(
        host.chars()
            .map(|c| {
                let now = class(c);
                let b = match (before, now) {
                    (0, 3..) => 10,
                    (1, 3..) => 9,
                    (2, 3..) => 8,
                    (3, 4) => 7,
                    (3 | 4, 5) => 7,
                    (_, 0) => 10,
                    (_, 1 | 2) => 8,
                    _ => 0,
                };
                before = now;
                b
            })
            .collect(),
    )
}
/// texts of m characters in candidates of n; with a word, (text, candidate),
/// their characters match exactly when the letters are the same
#[allow(clippy::too_many_arguments)]
pub fn twin_fuzzy(rep: &mut Rep, kit: &Kit, f: &Instance, g: &Instance, m: i128, n: i128, ascii: bool, word: Option<(&str, &str)>) {
    fuzzy_or_twin(rep, kit, f, Some(g), m, n, ascii, word, &[]);
}
#[allow(clippy::too_many_arguments)]
fn fuzzy(rep: &mut Rep, kit: &Kit, f: &Instance, m: i128, n: i128, ascii: bool, word: Option<(&str, &str)>, rules: &[&str]) {
    fuzzy_or_twin(rep, kit, f, None, m, n, ascii, word, rules);
}
#[allow(clippy::too_many_arguments)]
fn fuzzy_or_twin(rep: &mut Rep, kit: &Kit, f: &Instance, twin: Option<&Instance>, m: i128, n: i128, ascii: bool, word: Option<(&str, &str)>, rules: &[&str]) {
    let t0 = std::time::Instant::now();
    let at = arg_tys(f);
    let pos = |a: A| at.iter().position(|t| kit.kind(*t) == a).unwrap();
    let variant = if ascii { kit.asc } else { kit.uni };
    let cand_at = |co: O, j: i128| {
        let t = Ty::from_rigid_kind(if ascii { RigidTy::Uint(UintTy::U8) } else { RigidTy::Char });
        int(&elem(t, co, &Lin::k(j))).unwrap()
    };
    let same_as = |po: O, p0: &Lin, co: O, i: i128, j: i128| {
        let (a, b) = (char_at(po, &p0.plus(i)), cand_at(co, j));
        if ascii {
            return eql(&a, &b);
        }
        eqk(&Lin::s(app("fnptr", vec![Arg::L(the_eq()), Arg::L(a), Arg::L(b)], Some(0), Some(1), 0)), 1)
    };
    let classes = variant_names(kit.class).len() as i128;
    let class_at = |co: O, j: i128| Lin::s(app("class", vec![Arg::L(cand_at(co, j))], Some(0), Some(classes - 1), 0));
    let objs = |args: &[Val]| {
        let Val::Agg(fs) = &args[pos(A::Pat)] else { return None };
        let (po, p0, _) = slice_of(&fs[kit.pf.text])?;
        let (co, _, _) = cand_slice(&args[pos(A::Cand)], variant)?;
        Some((po, p0, co))
    };
    let pre = |args: &[Val], s: &State| {
        let Some((po, p0, co)) = objs(args) else { return Cond::T };
        let mut c: Vec<Cond> = if ascii { (0..n).map(|j| ge(&Lin::k(127), &cand_at(co, j))).collect() } else { vec![] };
        let Some(w) = word else { return Cond::And(c).norm() };
        if ascii {
            // one order stands for all: nothing looks at the order
            let text: Vec<char> = w.0.chars().collect();
            let mut own: Vec<(char, Lin)> = vec![];
            for (i, x) in text.iter().enumerate() {
                let v = char_at(po, &p0.plus(i as i128));
                match own.iter().find(|o| o.0 == *x) {
                    Some((_, o)) => c.push(eql(&v, o)),
                    None => own.push((*x, v)),
                }
            }
            own.sort_by_key(|o| o.0);
            let less = |a: &Lin, b: &Lin| ge(b, &a.plus(1));
            c.extend(own.windows(2).map(|w| less(&w[0].1, &w[1].1)));
            for (j, y) in w.1.chars().enumerate() {
                let v = cand_at(co, j as i128);
                match own.iter().position(|o| o.0 >= y) {
                    Some(k) if own[k].0 == y => c.push(eql(&v, &own[k].1)),
                    k => {
                        let k = k.unwrap_or(own.len());
                        c.extend(own.get(k).map(|o| less(&v, &o.1)));
                        c.extend(own[..k].last().map(|o| less(&o.1, &v)));
                    }
                }
            }
        } else {
            for (i, x) in w.0.chars().enumerate() {
                for (j, y) in w.1.chars().enumerate() {
                    let e = same_as(po, &p0, co, i as i128, j as i128);
                    c.push(if x == y { e } else { e.not().norm() });
                }
            }
        }
        if let (Some(b), Some(init)) = (placed(w.1), init_class(s, &args[0], at[0], kit)) {
            for (j, x) in b.iter().enumerate() {
                let before = if j == 0 { init.clone() } else { class_at(co, j as i128 - 1) };
                c.push(eqk(&bonus_of(&before, &class_at(co, j as i128)), *x));
            }
        }
        Cond::And(c).norm()
    };
    let r = run_fuzzy(kit, f, m, n, ascii, &pre, false);
    if let Some(g) = twin {
        let mut r = r;
        let other = run_fuzzy(kit, g, m, n, ascii, &pre, true);
        rep.absorb(&r.it);
        rep.absorb(&other.it);
        let who = def_path(f).trim_start_matches('<').split(" as ").next().unwrap_or("").rsplit("::").next().unwrap_or("").to_string();
        let how = format!("{who} of {m} in {n}{}", if ascii { " ASCII" } else { "" });
        crate::twins::both(rep, &mut r, &other, &how, &loc(f));
        return;
    }
    rep.absorb(&r.it);
    let t1 = t0.elapsed();
    if std::env::var("TIMES").is_ok() {
        eprintln!("ran {t1:?}");
    }
    let it = &r.it;
    let wher = loc(f);
    let Some((po, p0, co)) = objs(&r.args) else { return };
    let same = |i: i128, j: i128| same_as(po, &p0, co, i, j);
    let align = |c: &[i128]| Cond::And(c.iter().enumerate().map(|(i, j)| same(i as i128, *j)).collect()).norm();
    let occurs = match word {
        Some((w, h)) => {
            let mut at = h.chars();
            if w.chars().all(|c| at.any(|d| c == d)) { Cond::T } else { Cond::F }
        }
        None => Cond::Or(combos(n, m).iter().map(|c| align(c)).collect()).norm(),
    };
    let ranges = f.name().to_string().contains("true");
    let who = def_path(f).trim_start_matches('<').split(" as ").next().unwrap_or("").rsplit("::").next().unwrap_or("").to_string();
    let how = format!("{who} of {m} in {n}{}{}", if ascii { " ASCII" } else { "" }, if ranges { " with ranges" } else { "" });
    // the reference
    let init = init_class(&r.st0, &r.args[0], at[0], kit);
    let class = |j: i128| class_at(co, j);
    let bonus = |j: i128| bonus_of(&if j == 0 { init.clone().unwrap_or(Lin::k(0)) } else { class(j - 1) }, &class(j));
    let ideal = World1 { it, eq: &same, bonus: &bonus, m, n };
    let second = who.contains("V2");
    let follow = init.is_some() && (second || who.contains("V1")) && rules.contains(&POINTS);
    let fresh = rules.contains(&FRESH);
    let mut t = Tally::new(rep);
    let add = |t: &mut Tally, v: Verdict, rule: &str, key: &str, d: &dyn Fn() -> String| {
        if rules.contains(&rule) {
            t.add(v, rule, key, &wher, d);
        }
    };
    if it.overflow || r.rets.is_empty() {
        for x in rules {
            t.add(Verdict::Unproven, x, &how, &wher, || "the analysis gave up".into());
        }
    }
    let mut tries = 6;
    for (s, v) in &r.rets {
        let when = || format!("{} when {}", show_val(v), show_num(&s.num));
        let Val::Enum(d, pl) = v else {
            add(&mut t, Verdict::Unproven, FOUND, &how, &when);
            add(&mut t, Verdict::Unproven, POINTS, &how, &when);
            continue;
        };
        if rules.contains(&SETTINGS) {
            unchanged(&mut t, it, &r.st0, s, &r.args[0], at[0], &how, &wher);
        }
        let points = pl.get(&1).and_then(|x| x.first()).and_then(int);
        let (some, none) = split(it, vec![s.clone()], &eqk(d, 1));
        let ins = inserted(s);
        // a path taken because of earlier contents must end as any other would
        let took = s.num.ge.iter().chain(s.num.ne.iter()).any(|l| stale_in(l, false));
        if fresh && took {
            let want = if second && m == 1 { ideal.single(s) } else if second { ideal.v2(s) } else { ideal.v1(s) };
            for (s, o) in want {
                let c = match (&o, &points) {
                    (None, _) => eqk(d, 0),
                    (Some(o), Some(p)) => Cond::And(vec![eqk(d, 1), eql(p, &o.score)]).norm(),
                    _ => Cond::F,
                };
                add(&mut t, it.strict(&s, &c), FRESH, &how, &|| format!("takes a path chosen by earlier contents: {}", show_num(&s.num)));
            }
        }
        for s in &none {
            add(&mut t, it.strict(s, &occurs.not()), FOUND, &format!("no match: {how}"), &when);
            add(&mut t, if ins.is_empty() { Verdict::Proved } else { it.strict(s, &Cond::F) }, UNTOUCHED, &how, &when);
        }
        for s in &some {
            add(&mut t, it.strict(s, &occurs), FOUND, &format!("match: {how}"), &when);
            let mut marked: Option<Vec<i128>> = None;
            if fresh {
                let given: Vec<Lin> = points.iter().cloned().chain(ins.iter().flat_map(|x| [x.0.clone(), x.1.clone()])).collect();
                let v = if given.iter().any(|l| stale_in(l, true)) {
                    it.strict(s, &Cond::F)
                } else {
                    Verdict::Proved
                };
                add(&mut t, v, FRESH, &how, &|| format!("gives {given:?} when {}", show_num(&s.num)));
            }
            if !ranges {
                add(&mut t, if ins.is_empty() { Verdict::Proved } else { it.strict(s, &Cond::F) }, UNTOUCHED, &how, &when);
            } else {
                let off = |i: i128| (0..i).fold(Lin::k(0), |s, j| s.add(&if ascii { Lin::k(1) } else { width_of(&cand_at(co, j)) }));
                let ins: Vec<(Lin, Lin)> = ins.iter().map(|(a, b)| (expand(a, co, ascii), expand(b, co, ascii))).collect();
                // the characters reported, as positions
                marked = Some(vec![]);
                for (a, b) in &ins {
                    let at = (0..n).find_map(|i| (i + 1..=n).find(|j| off(i) == *a && off(*j) == *b).map(|j| i..j));
                    marked = match (marked, at) {
                        (Some(mut v), Some(r)) => {
                            v.extend(r);
                            Some(v)
                        }
                        _ => None,
                    };
                }
                if let Some(c) = &mut marked {
                    c.sort();
                    c.dedup();
                }
                let v = match &marked {
                    // not for every width of the characters at once: for each
                    None if !ascii && tries > 0 => {
                        tries -= 1;
                        let cs: Vec<Lin> = (0..n).map(|j| cand_at(co, j)).collect();
                        let on_characters = Cond::And(ins.iter().map(|(a, b)| Cond::Or((0..n).flat_map(|i| (i + 1..=n).map(move |j| (i, j))).map(|(i, j)| Cond::And(vec![eql(a, &off(i)), eql(b, &off(j))])).collect())).collect()).norm();
                        let bad = by_widths(it, s, &cs).iter().any(|s| it.strict(s, &on_characters) == Verdict::Definite);
                        if bad {
                            tries = 0;
                            Verdict::Definite
                        } else {
                            Verdict::Unproven
                        }
                    }
                    None => Verdict::Unproven,
                    Some(c) if c.len() as i128 != m => it.strict(s, &Cond::F),
                    Some(c) => it.strict(s, &align(c)),
                };
                add(&mut t, v, MARKED, &how, &|| format!("reports {ins:?}: {}", when()));
            }
            if !follow {
                continue;
            }
            let want = match second {
                false => ideal.v1(s),
                true if m == 1 => ideal.single(s),
                true => ideal.v2(s),
            };
            for (s, o) in want {
                let Some(o) = o else { continue };
                let v = match &points {
                    Some(p) => it.strict(&s, &eql(p, &o.score)),
                    None => Verdict::Unproven,
                };
                let tell = || format!("gives {points:?}, fzf {:?} for characters {:?} of {}..{}, when {}", o.score, o.marks, o.span.0, o.span.1, show_num(&s.num));
                add(&mut t, v, POINTS, &how, &tell);
                if ranges {
                    let v = match &marked {
                        None => Verdict::Unproven,
                        Some(c) if *c == o.marks => Verdict::Proved,
                        Some(_) => it.strict(&s, &Cond::F),
                    };
                    add(&mut t, v, PLACE, &how, &|| format!("reports characters {marked:?}; {}", tell()));
                }
            }
        }
    }
    t.done();
    if std::env::var("STATES").is_ok() {
        for (s, v) in &r.rets {
            eprintln!("{} when {}", show_val(v), show_num(&s.num));
        }
    }
    if std::env::var("TIMES").is_ok() {
        eprintln!("{}: {} returns {} steps {:?} + {:?}", how, r.rets.len(), r.it.steps, t1, t0.elapsed() - t1);
    }
}
pub const FRESH: &str = "what a search gives does not depend on what earlier searches left in the metric's buffers";
pub const SETTINGS: &str = "a search leaves the settings of the metric as they are";

/// is the symbol, or one it is made of, something left in the metric's buffers
fn stale(x: S, len: bool) -> bool {
    match sym_kind(x) {
        SymKind::App(f, a) => {
            (f.starts_with("a0.") && (f.contains("[]") || len && f.ends_with(".len")))
                || a.iter().any(|a| match a {
                    Arg::L(l) => l.t.iter().any(|(x, _)| stale(*x, len)),
                    _ => false,
                })
        }
        _ => false,
    }
}
pub fn stale_in(l: &Lin, len: bool) -> bool {
    l.t.iter().any(|(x, _)| stale(*x, len))
}
/// the settings behind a reference to a metric: everything but its buffers
fn settings(s: &State, v: &Val, t: Ty) -> Option<Vec<Val>> {
    let Val::Ptr(p) = v else { return None };
    let mut it = Interp::new();
    let m = it.read(s.clone(), p).into_iter().next()?.1;
    Some(settings_of(&m, strip_refs(t)))
}
pub fn settings_of(m: &Val, t: Ty) -> Vec<Val> {
    let mut out = vec![];
    walk(m, t, &mut |v, _| match v {
        Val::Agg(_) | Val::Vec(..) => {}
        v => out.push(v.clone()),
    });
    out
}
pub fn unchanged(t: &mut Tally, it: &Interp, st0: &State, s: &State, v: &Val, ty: Ty, how: &str, wher: &str) {
    let (Some(a), Some(b)) = (settings(st0, v, ty), settings(s, v, ty)) else { return };
    same_settings(t, it, s, &a, &b, SETTINGS, how, wher)
}
pub fn same_settings(t: &mut Tally, it: &Interp, s: &State, a: &[Val], b: &[Val], rule: &'static str, how: &str, wher: &str) {
    if a.len() != b.len() {
        t.add(Verdict::Unproven, rule, how, wher, || "of another shape".into());
    }
    for (a, b) in a.iter().zip(b) {
        let v = match (a, b) {
            (Val::Int(x), Val::Int(y)) | (Val::Enum(x, _), Val::Enum(y, _)) => it.strict(s, &eql(x, y)),
            (Val::Bool(x), Val::Bool(y)) => it.strict(s, &iff(x, y)),
            (x, y) if x == y => Verdict::Proved,
            _ => Verdict::Unproven,
        };
        t.add(v, rule, how, wher, || format!("{} instead of {}, when {}", show_val(b), show_val(a), show_num(&s.num)));
    }
}
/// C04
pub fn history(rep: &mut Rep, thorough: bool) {
    let Some(kit) = Kit::new(rep) else { return };
    for f in fuzzies(&kit) {
        let sizes: &[(i128, i128)] = if thorough { &[(1, 2), (1, 3), (2, 2), (2, 3), (2, 4), (3, 3)] } else { &[(1, 2), (2, 2), (2, 3), (3, 3)] };
        for (m, n) in sizes {
            for small in [false, true] {
                if mine() {
                    SMALL.with(|x| x.set(small));
                    fuzzy(rep, &kit, &f, *m, *n, false, None, &[FRESH, SETTINGS]);
                    SMALL.with(|x| x.set(false));
                }
            }
        }
        for (text, host) in [("ab", "axbb"), ("ab", "aabxb"), ("abc", "axbxc"), ("abc", "abbxc")] {
            if mine() {
                fuzzy(rep, &kit, &f, text.len() as i128, host.len() as i128, false, Some((text, host)), &[FRESH, SETTINGS]);
            }
        }
        for (text, host) in long_words(if thorough { 400 } else { 100 }) {
            for small in [false, true] {
                if mine() {
                    SMALL.with(|x| x.set(small));
                    fuzzy(rep, &kit, &f, text.len() as i128, host.len() as i128, false, Some((&text, &host)), &[FRESH, SETTINGS]);
                    SMALL.with(|x| x.set(false));
                }
            }
        }
    }
}
thread_local!(static SMALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// the vectors owned by a value of type `t` called `name`
pub fn vec_paths(t: Ty, name: &str, out: &mut Vec<String>) {
    if adt_last(t) == "Vec" {
        out.push(format!("{name}.len"));
    } else if variant_names(t).len() == 1 {
        for (f, ft) in field_tys(t, 0) {
            vec_paths(ft, &format!("{name}.{f}"), out);
        }
    }
}
/// the class candidates start with, in the scheme held by the metric
fn init_class(s: &State, v: &Val, t: Ty, kit: &Kit) -> Option<Lin> {
    let Val::Ptr(p) = v else { return None };
    let mut it2 = Interp::new();
    let m = it2.read(s.clone(), p).into_iter().next()?.1;
    let mut found = None;
    walk(&m, strip_refs(t), &mut |v, t| {
        if same(t, kit.class) {
            if let Some(d) = int(v) {
                found = Some(d);
            }
        }
    });
    found
}
pub fn run_fuzzy(kit: &Kit, f: &Instance, m: i128, n: i128, ascii: bool, pre: &dyn Fn(&[Val], &State) -> Cond, twin: bool) -> Run {
    let at = arg_tys(f);
    let pos = |a: A| at.iter().position(|t| kit.kind(*t) == a).unwrap();
    let (cp, pp) = (pos(A::Cand), pos(A::Pat));
    if !twin {
        fresh_world();
    }
    let variant = if ascii { kit.asc } else { kit.uni };
    pin(&format!("a{cp}.disc"), variant as i128);
    let fields = field_tys(kit.pf.ty, 0);
    pin(&format!("a{pp}.{}.len", fields[kit.pf.text].0), m);
    pin(&format!("a{cp}.{}.0.len", variant_names(kit.cand)[variant as usize]), n);
    let st = strip_refs(at[0]);
    let small = SMALL.with(|x| x.get());
    if small {
        let mut v = vec![];
        vec_paths(st, "a0", &mut v);
        v.iter().for_each(|x| pin(x, 1));
    }
    let class = kit.class;
    let mut hooks = kit.hooks(&["lead", "trail", "class", "bonus", "byte_range", "byte_offset", "insert", "clear"]);
    if !ascii {
        hooks.push(choose_eq(kit));
    }
    hooks.push(widths());
    let mut it = Interp::new();
    it.opaque_ty.clear();
    it.exact = ascii;
    it.peel = 12.max(n as usize + 2);
    it.hooks = hooks;
    it.cap = 4000;
    let mut s = State::new();
    let args: Vec<Val> = at.iter().enumerate().map(|(k, t)| mat(&mut s, *t, &format!("a{k}"), &[])).collect();
    s.frames.push(Rc::new(Frame { locals: args.clone() }));
    let st0 = s.clone();
    let mut c = vec![pre(&args, &st0)];
    if let Val::Ptr(p) = &args[0] {
        if let Some((_, v)) = it.read(s.clone(), p).into_iter().next() {
            walk(&v, st, &mut |v, t| match v {
                Val::Vec(_, l) if !small => c.push(ge(l, &Lin::k(128))),
                Val::Enum(d, _) if is_fieldless_enum(t) && !same(t, class) => {
                    let v = variant_names(t).iter().position(|x| x == "Sensitive").unwrap_or(0);
                    c.push(eqk(d, v as i128))
                }
                Val::Bool(b) => c.push(b.not()),
                _ => {}
            });
        }
    }
    let mut rets = vec![];
    for s in it.assume(s, &Cond::And(c).norm()) {
        rets.extend(it.call(f, args.clone(), s));
    }
    Run { it, args, st0, rets }
}
